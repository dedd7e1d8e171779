#!/usr/bin/env python3
"""Mechanical mutants of /repo's source: which of those that pass the stable tests does no proof notice?
usage: mutate.py OUT.jsonl [WORKERS]     (works in copies below /tmp/mut; reads the unit maps of build/u, made by dev.sh)"""
import json, os, re, subprocess, sys, glob, shutil, threading, queue
VERIF, REPO, TMP = "/verif", "/repo", "/tmp/mut"
OUT = sys.argv[1]; W = int(sys.argv[2]) if len(sys.argv) > 2 else 3
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
RULES = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"),
    (r"(?<![\w.])2(?![\w.])", "3"), (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "0.5"), (r"!(?=[\w(])(?<![\w]!)", ""), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.trim\(\)", ""),
    (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bany\(", "all("), (r"\ball\(", "any("), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"),
    (r"\bis_empty\(\)", "len() == 1"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\bsplitn\(2,", "splitn(3,"), (r"\bstarts_with\b", "ends_with"), (r"\blast\(\)", "first()"),
    (r"\breturn Ok\(", "if true { return Err(crate::error::Error::general(\"x\")); } return Ok("), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\.\.(?=[\w(])", "..="), (r"\.\.=", ".."),
    (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"\bself\b(?=\.\w+ [-+*/<>=])", "other"), (r"\bother\b", "self"), (r"\?;", ".ok();"), (r"'(\w)'", r"'~'"), (r'"([^"{}]+)"', r'"\1~"'),
    (r"\bSome\((\w+)\)(?=[,;]?$)", "None"), (r"\bpre_", "post_"), (r"\bpost_", "pre_"), (r"\binsert\(", "remove(&"), (r"\bpush\(", "insert(0, "), (r"\bunwrap_or\(", "unwrap_or_default().max("), (r"\bwrite\(\)", "read()"),
    (r"\bas_path\(\)", "parent().unwrap()"), (r"^(\s+)([\w.]+\(.*\);|[\w.*]+ [-+]?= .*;)$", r"\1"), (r"\blen\(\)", "len().saturating_sub(1)"), (r"\bwhile\b", "if"), (r"\bfilter\(\|", "filter(|_| true).filter(|"),
]
def mutants():
    fs = subprocess.run(["git", "-C", REPO, "ls-files", "src/*.rs"], capture_output=True, text=True).stdout.split()
    for f in fs:
        lines = open(os.path.join(REPO, f)).read().split("\n")
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l: break
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("pub mod") or s.startswith("mod ") or s.startswith("*"): continue
            if re.match(r"(pub(\(\w+\))? )?(fn|struct|enum|impl|trait|type|static|const)\b", s) and "=" not in s: continue
            code = l.split(" //")[0]
            for k, (a, b) in enumerate(RULES):
                for n, m in enumerate(re.finditer(a, code)):
                    new = code[:m.start()] + m.expand(b) + code[m.end():] + l[len(code):]
                    if new != l: yield (f, i + 1, k, n, l, new)
def units_of(f, line):
    r = []
    for p in sorted(glob.glob(VERIF + "/build/u/*.json")):
        u = os.path.basename(p)[:-5]
        if u not in UNITS: continue
        m = json.load(open(p))
        cands = [x for x in m["fns"] if x["mode"] == "verify" and x["file"] == f[4:]]
        if not cands: continue
        here = [x for x in cands if x["line"] <= line]
        # every unit that verifies the function the line is in (or the closest one before it)
        best = max((x["line"] for x in here), default=None)
        if best is not None: r.append((best, u))
    if not r: return []
    top = max(b for b, _ in r)
    return [u for b, u in r if b == top] + [u for b, u in r if b != top and top - b < 3]
UNITS = set()
for v in json.load(open(VERIF + "/contracts/properties.json")).values():
    UNITS.update(v.get("unit", "").split())
lock = threading.Lock(); q = queue.Queue()
def run(cmd, t, cwd=None, env=None):
    try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=t, cwd=cwd, env=env); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, ""
def worker(w):
    d = "%s/w%d" % (TMP, w)
    os.makedirs(TMP, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", REPO + "/", d + "/"] if shutil.which("rsync") else ["cp", "-a", REPO, d])
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    while True:
        try: f, line, k, n, old, new = q.get_nowait()
        except queue.Empty: return
        p = os.path.join(d, f)
        src = open(os.path.join(REPO, f)).read()
        ls = src.split("\n"); ls[line - 1] = new
        open(p, "w").write("\n".join(ls))
        res = {"file": f, "line": line, "rule": RULES[k][0], "old": old.strip(), "new": new.strip()}
        rc, o = run(["cargo", "check", "--offline", "--all-features"], 120, d, env)
        if rc: res["r"] = "no-compile"
        else:
            rc, o = run(["timeout", "-k", "5", "60", "cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline", "--", "--test-threads", "1"], 90, d, env)
            if rc: res["r"] = "tests"
            else:
                res["units"] = units_of(f, line); res["r"] = "survived" if res["units"] else "not-under-contract"; res["by"] = {}
                for u in res["units"]:
                    rs, mp = "%s/m%d.rs" % (TMP, w), "%s/m%d.json" % (TMP, w)
                    rc, o = run([VERIF + "/build/vx/release/vx", "--repo", d, "--contracts", VERIF + "/contracts", "--unit", u, "--out", rs, "--map", mp], 60)
                    lost = json.load(open(mp))["lost"] if rc == 0 else o[:200]
                    if rc or lost: res["by"][u] = "vx: %s" % str(lost)[:200]; continue
                    rc, o = run(["timeout", "200", "verus", rs, "--triggers-mode", "silent", "--rlimit", "30", "--num-threads", "2"], 220)
                    mm = re.search(r"verification results:: (\d+) verified, (\d+) errors", o)
                    if mm is None: res["by"][u] = "unsupported: " + (re.search(r"error.*", o) or [o[:100]])[0][:160]
                    elif mm[2] != "0": res["by"][u] = "failed"
                    else: res["by"][u] = "verified"
                if any(v == "failed" for v in res["by"].values()): res["r"] = "proof"
                elif res["by"] and any(v != "verified" for v in res["by"].values()): res["r"] = "out-of-reach"
        open(p, "w").write(src)
        with lock:
            open(OUT, "a").write(json.dumps(res) + "\n")
seen = set()
if os.path.exists(OUT):
    for l in open(OUT): r = json.loads(l); seen.add((r["file"], r["line"], r["new"]))
for m in mutants():
    if (m[0], m[1], m[5].strip()) not in seen: q.put(m)
print(q.qsize(), "mutants")
if os.environ.get("COUNT"): sys.exit()
ts = [threading.Thread(target=worker, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
