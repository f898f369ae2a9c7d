//! A cargo project on disk, compiled against /repo.
use std::path::{Path, PathBuf};
use std::process::Command;

use serde_json::Value as J;
use vcommon::Ctx;

pub struct Project {
    pub dir: PathBuf,
    target: PathBuf,
}

#[derive(Clone, Debug)]
pub struct Diagnostic {
    pub target: String,
    pub file: String,
    /// lines of the primary spans, following expansions to the outermost
    pub lines: Vec<(usize, usize)>,
    pub message: String,
    pub rendered: String,
}

pub struct Built {
    pub ok: bool,
    pub errors: Vec<Diagnostic>,
    pub stderr: String,
}

impl Project {
    pub fn new(ctx: &Ctx, name: &str) -> Project {
        let base = ctx.verif_dir().join("target/macrogen");
        let dir = base.join(name);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch project");
        let p = Project { dir, target: base.join("build") };
        let lock = ctx.verif_dir().join("harness/macros/template.lock");
        if lock.exists() {
            let _ = std::fs::copy(lock, p.dir.join("Cargo.lock"));
        }
        p
    }

    pub fn write(&self, path: &str, text: &str) {
        let f = self.dir.join(path);
        std::fs::create_dir_all(f.parent().unwrap()).expect("directory");
        std::fs::write(f, text).expect("file");
    }

    pub fn cargo(&self, args: &[&str]) -> Built {
        let out = Command::new("cargo")
            .args(args)
            .args(["--offline", "--message-format=json", "--quiet"])
            .current_dir(&self.dir)
            .env("CARGO_TARGET_DIR", &self.target)
            .env_remove("RUSTFLAGS")
            .output()
            .expect("cargo");
        let mut errors = vec![];
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<J>(line) else { continue };
            if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
                continue;
            }
            let m = &v["message"];
            let mut lines = vec![];
            let mut file = String::new();
            for s in m["spans"].as_array().into_iter().flatten() {
                if s["is_primary"] != true {
                    continue;
                }
                // out of macro expansions, to the place in the generated file
                let mut s = s;
                while !s["expansion"].is_null() && !s["expansion"]["span"].is_null() {
                    s = &s["expansion"]["span"];
                }
                file = s["file_name"].as_str().unwrap_or("").to_string();
                lines.push((s["line_start"].as_u64().unwrap_or(0) as usize, s["line_end"].as_u64().unwrap_or(0) as usize));
            }
            let mut message = m["message"].as_str().unwrap_or("").to_string();
            for c in m["children"].as_array().into_iter().flatten() {
                message.push('\n');
                message.push_str(c["message"].as_str().unwrap_or(""));
            }
            errors.push(Diagnostic {
                target: v["target"]["name"].as_str().unwrap_or("").to_string(),
                file,
                lines,
                message,
                rendered: m["rendered"].as_str().unwrap_or("").to_string(),
            });
        }
        Built { ok: out.status.success(), errors, stderr: String::from_utf8_lossy(&out.stderr).into_owned() }
    }

    pub fn bin(&self, name: &str) -> PathBuf {
        self.target.join("debug").join(name)
    }
}

impl Drop for Project {
    fn drop(&mut self) {
        if std::env::var_os("VERIF_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

pub fn repo() -> &'static Path {
    Path::new("/repo")
}
