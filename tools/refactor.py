#!/usr/bin/env python3
"""refactor.py [NAME...]: apply each behaviour-keeping edit of refactors.py to a scratch copy of /repo and run every
check whose extracted text differs (quick tier). Prints one line per (edit, check)."""
import os, subprocess, sys, shutil, json, re, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from refactors import R
props = {k: v for k, v in json.load(open(V + "/contracts/properties.json")).items() if v.get("unit")}
names = [a for a in sys.argv[1:] if not a.startswith("--")] or list(R)
vx = V + "/build/vx/release/vx"
def extract(repo, unit, out):
    r = subprocess.run([vx, "--repo", repo, "--contracts", V + "/contracts", "--unit", unit, "--out", out + ".rs", "--map", out + ".json"], capture_output=True, text=True)
    return open(out + ".rs").read() if r.returncode == 0 else "FAILED " + r.stdout + r.stderr
os.makedirs("/tmp/refac", exist_ok=True)
base = {}
for p, c in props.items():
    base[p] = "\n".join(extract("/repo", u, "/tmp/refac/base") for u in c["unit"].split())
for n in names:
    d = "/tmp/refac/" + n
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    bad = None
    for f, old, new in R[n]:
        if old == "RENAME":
            t = open(d + "/" + f).read(); i = t.index("let mut total"); j = t.index("impl", i)
            t = t[:i] + t[i:j].replace("center /", "total /").replace("= center", "= total") + t[j:]
            open(d + "/" + f, "w").write(t); continue
        t = open(d + "/" + f).read()
        if t.count(old) != 1: bad = "%d matches of %r in %s" % (t.count(old), old[:60], f); break
        open(d + "/" + f, "w").write(t.replace(old, new))
    if not bad:
        r = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=d, capture_output=True, text=True)
        if r.returncode: bad = "tests fail: " + (r.stdout + r.stderr)[-1500:]
    if bad: print(n, "UNUSABLE", bad, flush=True); shutil.rmtree(d); continue
    for p, c in props.items():
        t = "\n".join(extract(d, u, "/tmp/refac/new") for u in c["unit"].split())
        if t == base[p]: continue
        s = time.time()
        r = subprocess.run([V + "/check.py", p, "--repo", d], capture_output=True, text=True)
        o = r.stdout
        v = [l for l in o.splitlines() if l.startswith(("VIOLATION", "failed obligation", "BOUNDED", "failing input"))]
        m = re.search(r"demoted: (.*)", o)
        print("%-26s %s rc=%d %4.0fs demoted: %s %s" % (n, p, r.returncode, time.time() - s, m.group(1)[:300] if m else "?", " ; ".join(v)[:600]), flush=True)
        if r.returncode not in (0, 1): print(o[-2000:], r.stderr[-2000:])
    shutil.rmtree(d)
    h = hashlib.sha1(d.encode()).hexdigest()[:8]
    for e in ["/build/harness-" + h, "/build/hcrate-" + h, "/build/tool-" + h] + ["/build/run/%s-%s" % (p, h) for p in props]:
        shutil.rmtree(V + e, ignore_errors=True)
