#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py WORKERS OUT [FILE-SUBSTRING...]

Every mutant of /repo's sources (non-test part) is tried in a private copy of
/repo and /verif, bind-mounted over the real paths inside a user namespace, so
the real ones are never touched. Records whether it builds, which check
reports it, and for the survivors whether the repository's own tests do."""
import re, os, sys, json, subprocess, shutil, threading, queue
REPO = "/repo"
PROPS = {
 "metriken-core/src/dynmetrics.rs": "C03 C08 C06 C07 C23 C04", "metriken-core/src/metrics.rs": "C05 C03 C04",
 "metriken-core/src/metadata.rs": "C06 C14", "metriken-core/src/lib.rs": "C03 C06 C07 C08 C23 C10 C14",
 "metriken-core/src/formatter.rs": "C07", "metriken-core/src/provide.rs": "C08 C07", "metriken-core/src/wrapper.rs": "C07 C08 C09 C23 C10 C03",
 "metriken-core/src/null.rs": "C03 C08 C23", "metriken/src/counter.rs": "C01 C02", "metriken/src/gauge.rs": "C01 C02",
 "metriken/src/histogram.rs": "C12 C13 C14", "metriken/src/lazy.rs": "C09 C01 C02", "metriken/src/lib.rs": "C01",
 "metriken-derive/src/metric.rs": "C10 C11", "metriken-derive/src/args.rs": "C10 C11", "metriken-derive/src/lib.rs": "C10 C11",
 "metriken-exposition/src/snapshot.rs": "C15 C16 C19 C17", "metriken-exposition/src/snapshotter.rs": "C14 C24",
 "metriken-exposition/src/parquet.rs": "C17 C18 C19 C20", "metriken-exposition/src/convert.rs": "C21 C22 C18",
}
SUB = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|(?! [a-z{(]|$)", "&&"),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if !", "if "), (r"if (?!let|!)", "if !"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "),
 (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b(\d{2,}(?:_\d+)*)\b", r"(\1+1)"),
 (r"Some\(([^()]*)\)", "None"), (r"saturating_add", "wrapping_add"), (r"fetch_add", "fetch_sub"), (r"fetch_sub", "fetch_add"), (r"\.swap\(", ".fetch_add("),
 (r"\.next\(\)", ".next_back()"), (r"\.next_back\(\)", ".next()"), (r"\.nth\(", ".nth_back("), (r"\.nth_back\(", ".nth("), (r"\.or_else\(\|\| .*\)$", ""), (r"\.or_insert\(", ".insert_entry("),
 (r"\.insert\((.*)\);", ";"), (r"\.push\((.*)\);", ";"), (r"\.clone\(\)", ".clone().into_iter().take(1).collect()"),
 (r'"([a-z_ ]+)"', r'"\1x"'), (r"\?;", ".ok();"), (r"\?$", ".ok()"), (r"continue;", "break;"), (r"break;", "continue;"), (r"unwrap_or\(.*\)", "unwrap_or_default()"),
 (r"\.map\(\|[^|]*\| [^()]*\)", ""), (r"is_empty\(\)", "is_empty() == false"), (r"as_ref\(\)", "as_ref().filter(|_| false)"), (r"\.filter\(.*\)$", ""), (r"write\(\)", "read()"),
 (r"#\[serde\(.*\)\]", ""), (r"#\[repr\(C\)\]", ""), (r"\.rewind\(\)\?;", ".rewind().ok();"), (r"take\(\)", "clone()"), (r"u64", "u32"), (r"i64", "i32"), (r"BTreeMap", "HashMap"),
 (r"\.sort\(\)", ""), (r"as u64", "as u32 as u64"), (r"self\.sm", "self.dm"), (r"self\.dm", "self.sm"), (r"counters", "gauges"), (r"Standard", "Sparse"), (r"Sparse", "Standard"), (r"name", "description"), (r"metadata", "provider")]
BODY = {"bool": ["true", "false"], "usize": ["0", "1"], "String": ["String::new()"], "u64": ["0", "1"], "i64": ["0", "1"]}
def code_lines(path):
    """indices of lines before the test module, that are code"""
    lines = open(os.path.join(REPO, path)).read().split("\n")
    end = len(lines)
    for i, l in enumerate(lines):
        if l.strip() == "#[cfg(test)]": end = i; break
    return lines, [i for i in range(end) if lines[i].strip() and not lines[i].strip().startswith("//") and not lines[i].strip().startswith("use ")]
def mutants(path):
    lines, idx = code_lines(path); seen = set(); out = []
    def add(new, what, i):
        t = "\n".join(new)
        if t not in seen and new != lines: seen.add(t); out.append((path, i + 1, what, t))
    for i in idx:
        for a, b in SUB:
            for m in re.finditer(a, lines[i]):
                s = lines[i][:m.start()] + m.expand(b) + lines[i][m.end():]
                add(lines[:i] + [s] + lines[i+1:], f"{lines[i].strip()}  ->  {s.strip()}", i)
        st = lines[i].strip()
        if st.endswith(";") and not st.startswith(("let ", "return", "pub ", "type ", "mod ", "static ", "const ")):
            add(lines[:i] + lines[i+1:], f"deleted: {st}", i)
        m = re.match(r"^(\s*)(pub |pub\(crate\) |unsafe )*fn .*-> (.*) \{$", lines[i])
        if m:
            t = m.group(3); vals = BODY.get(t, [])
            if t.startswith("Option<"): vals = ["None"]
            if t.startswith("Result<()"): vals = ["Ok(())"]
            if t == "(usize, Option<usize>)": vals = ["(0, None)", "(1, None)", "(0, Some(0))"]
            for v in vals:
                add(lines[:i+1] + [m.group(1) + "    #[allow(unreachable_code)] { return " + v + "; }"] + lines[i+1:], f"{st} returns {v}", i)
    return out
def sh(cmd, w, t):
    pre = f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && "
    try:
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, ""
def main():
    nw, out = int(sys.argv[1]), sys.argv[2]; pats = sys.argv[3:]
    todo = [m for p in PROPS if not pats or any(x in p for x in pats) for m in mutants(p)]
    done = set()
    if os.path.exists(out): done = {tuple(json.loads(l)["key"]) for l in open(out)}
    q = queue.Queue(); n = 0
    for m in todo:
        if (m[0], m[1], m[2]) not in done: q.put(m); n += 1
    print(n, "mutants to try", flush=True)
    lock = threading.Lock()
    def work(k):
        w = f"/tmp/mut/{k}"
        if not os.path.isdir(w):
            os.makedirs(w); subprocess.check_call(["cp", "-a", "/repo", w + "/repo"]); subprocess.check_call(["cp", "-a", "/verif", w + "/verif"])
        while True:
            try: path, line, what, text = q.get_nowait()
            except queue.Empty: return
            f = f"{w}/repo/{path}"; old = open(f).read()
            open(f, "w").write(text)
            res = None
            rc, o = sh("cd /repo && CARGO_NET_OFFLINE=true cargo check --offline -q --workspace --all-features", w, 300)
            if rc != 0: res = "nobuild"
            else:
                for p in PROPS[path].split():
                    rc, o = sh(f"VERIF_SCALE={os.environ.get('VERIF_SCALE','0.3')} ./check {p} quick", w, 400)
                    if rc == 1: res = p; break
                    if rc != 0: res = f"{p}:rc{rc}"; break
                if res is None:
                    rc, o = sh("cd /repo && CARGO_NET_OFFLINE=true cargo test --offline -q --workspace --all-features 2>&1 | grep -c 'test result: FAILED\\|could not compile'", w, 400)
                    res = "tests" if o.strip() not in ("0", "") else "SURVIVED"
            open(f, "w").write(old)
            with lock:
                open(out, "a").write(json.dumps({"key": [path, line, what], "res": res}) + "\n")
                if res == "SURVIVED" or ":rc" in res: print(res, path, line, what, flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
    c = {}
    for l in open(out): r = json.loads(l)["res"]; c[r] = c.get(r, 0) + 1
    print(c)
if __name__ == "__main__": main()
