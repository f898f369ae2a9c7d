#!/usr/bin/env python3
"""Builds and confirms planted bugs in a scratch copy of /repo.

mk.py FILE [ID...]  - FILE defines BUGS, a list of dicts:
  id, property, needs, breaks, edits=[(path, old, new)], demo (Rust main.rs)
  or demo_sh (whole script body after the preamble), expo=True for demos that
  need metriken-exposition, files={name: text} for extra files beside demo.sh.
Writes /verif/seeded/<id>/ only when the patch builds, the stable tests pass
and the demo tells the two trees apart."""
import sys, os, subprocess, json, shutil, importlib.util, re
S = "/tmp/seedrepo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", TERM="dumb", NO_COLOR="1")
PRE = '''#!/usr/bin/env bash
# Exits 0 where the property holds, 1 where it does not. Run with cwd = the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR=$repo/target
mkdir -p "$d/src"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "seed-demo"
version = "0.0.0"
edition = "2021"
[dependencies]
metriken = { path = "$repo/metriken" }
metriken-core = { path = "$repo/metriken-core" }
%s
[workspace]
EOF
'''
EXPO = '''metriken-exposition = { path = "$repo/metriken-exposition", features = ["json"] }
histogram = "0.11"
serde_json = "1"
rmp-serde = "1"
parquet = "54"
arrow = "54"'''
RUN = '''cp "$here/demo.rs" "$d/src/main.rs"
RUSTFLAGS= timeout 250 cargo run --offline --quiet --manifest-path "$d/Cargo.toml" 2>&1
rc=$?
[ $rc -eq 0 ] && exit 0
exit 1
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable(out):
    ok = set(re.findall(r"^test (.*?) \.\.\. ok$", out, re.M))
    bad = re.findall(r"^test (.*?) \.\.\. (?!ok|ignored)(.*)$", out, re.M)
    return ok, bad
def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    if not os.path.isdir(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    sh(["git", "checkout", "-q", "--", "."], S)
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"], "/").stdout.strip()
    here = sh(["git", "rev-parse", "HEAD"], S).stdout.strip()
    assert head == here, "stale copy: remove " + S
    for b in m.BUGS:
        if want and b["id"] not in want: continue
        out = f"/verif/seeded/{b['id']}"
        if not want and os.path.exists(out + "/patch.diff"): continue
        sh(["git", "checkout", "-q", "--", "."], S)
        # files of the demo
        D = f"/tmp/seeddemo/{b['id']}"; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        dep = EXPO if b.get("expo") else ""
        dep += b.get("deps", "")
        body = PRE % dep + b.get("demo_sh", RUN)
        open(D + "/demo.sh", "w").write(body); os.chmod(D + "/demo.sh", 0o755)
        if "demo" in b: open(D + "/demo.rs", "w").write(b["demo"])
        for n, t in b.get("files", {}).items(): open(f"{D}/{n}", "w").write(t)
        r0 = sh(["bash", D + "/demo.sh"], S)
        if r0.returncode != 0:
            print(f"{b['id']}: DEMO FAILS ON CLEAN TREE\n{r0.stdout[-900:]}"); continue
        bad = False
        for path, old, new in b["edits"]:
            p = f"{S}/{path}"; t = open(p).read()
            if t.count(old) != 1:
                print(f"{b['id']}: {path}: pattern occurs {t.count(old)} times:\n{old}"); bad = True; break
            open(p, "w").write(t.replace(old, new))
        if bad: continue
        diff = sh(["git", "diff"], S).stdout
        t = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", S, shell=True)
        ok, failed = stable(t.stdout)
        if t.returncode != 0 or failed or len(ok) < 32:
            print(f"{b['id']}: TESTS: rc {t.returncode} ok {len(ok)} failed {failed}\n{t.stdout[-600:]}"); sh(["git", "checkout", "-q", "--", "."], S); continue
        r1 = sh(["bash", D + "/demo.sh"], S)
        r2 = sh(["bash", D + "/demo.sh"], S)
        sh(["git", "checkout", "-q", "--", "."], S)
        if r1.returncode == 0 or r2.returncode == 0:
            print(f"{b['id']}: DEMO PASSES WITH THE BUG {r1.returncode} {r2.returncode}\n{r1.stdout[-500:]}"); continue
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(D, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(f"{b['id']}: kept (tests ok {len(ok)}); demo: {r1.stdout.strip().splitlines()[-1][:160] if r1.stdout.strip() else ''}")
main()
