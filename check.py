#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property of /repo's current source:
  1. vx extracts the functions of the property's unit from /repo/src, weaves in the contracts of
     /verif/contracts, and Verus discharges every obligation (plus two vacuity probes);
  2. in parallel the harness searches inputs of the public API against oracles written from the property;
  3. the two results are combined (see DESIGN.md, "Decision").
Exit 0: held. Exit 1 and a VIOLATION line: broken.
"""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
T0 = time.time()
DEADLINE = T0 + 840
GENUINE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
           "possible arithmetic", "decreases not satisfied", "possible division by zero", "unable to prove", "loop invariant",
           "possible bit shift", "could not prove termination", "constructed value may fail to meet its declared type invariant", "possible truncation",
           "split assertion failure", "split precondition failure", "split postcondition failure", "bound check", "index out of bounds")

def arg(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default

PROP = sys.argv[1]
TIER = arg("--tier", os.environ.get("VERIF_TIER", "quick"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
REPO = os.path.abspath(arg("--repo", os.environ.get("VERIF_REPO", "/repo")))
CFG = json.load(open(os.path.join(VERIF, "contracts", "properties.json")))[PROP]
TAG = PROP if REPO == "/repo" else PROP + "-" + hashlib.sha1(REPO.encode()).hexdigest()[:8]
WORK = os.path.join(BUILD, "run", TAG)

def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e

def src_hash():
    h = hashlib.sha1()
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()

class Lock:
    def __init__(self, name): self.p = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def cargo(crate, target, extra=()):
    return subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", target, *extra], cwd=crate, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)

def build_vx():
    with Lock("vx"):
        r = cargo(os.path.join(VERIF, "vx"), os.path.join(BUILD, "vx"))
        if r.returncode != 0: print(r.stdout); raise SystemExit("vx does not build")
    return os.path.join(BUILD, "vx", "release", "vx")

def build_harness():
    """The harness is built against REPO's working tree. Returns (binary, None) or (None, output)."""
    key = "" if REPO == "/repo" else "-" + hashlib.sha1(REPO.encode()).hexdigest()[:8]
    target = os.path.join(BUILD, "harness" + key)
    crate = os.path.join(VERIF, "harness")
    with Lock("harness" + key):
        if REPO != "/repo":
            crate = os.path.join(BUILD, "hcrate" + key)
            shutil.rmtree(crate, ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, "harness"), crate)
            t = open(os.path.join(crate, "Cargo.toml")).read().replace('"/repo"', '"%s"' % REPO)
            open(os.path.join(crate, "Cargo.toml"), "w").write(t)
        stamp = os.path.join(target, "src.sha1")
        h = src_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            fp = os.path.join(target, "release", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("rusty-systems-"): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = cargo(crate, target)
        if r.returncode != 0: return None, r.stdout
        open(stamp, "w").write(h)
        # a private copy, so that another check rebuilding the harness does not change this run
        os.makedirs(WORK, exist_ok=True)
        b = os.path.join(WORK, "vh")
        if os.path.exists(b): os.unlink(b)
        shutil.copy2(os.path.join(target, "release", "vh"), b)
        return b, None

def build_tool():
    """The command line tool, built from REPO's working tree (C20)."""
    key = "" if REPO == "/repo" else "-" + hashlib.sha1(REPO.encode()).hexdigest()[:8]
    target = os.path.join(BUILD, "tool" + key)
    with Lock("tool" + key):
        stamp = os.path.join(target, "src.sha1")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != src_hash():
            fp = os.path.join(target, "release", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("rusty-systems-"): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = cargo(REPO, target, ["--locked", "--features", "lsystem", "--bin", "lsystem", "--config", "profile.release.debug-assertions=true", "--config", "profile.release.overflow-checks=true"])
        if r.returncode != 0: return None, r.stdout
        open(stamp, "w").write(src_hash())
        os.makedirs(WORK, exist_ok=True)
        b = os.path.join(WORK, "lsystem")
        if os.path.exists(b): os.unlink(b)
        shutil.copy2(os.path.join(target, "release", "lsystem"), b)
        return b, None

# ------------------------------------------------------------------ contracts
class Proof:
    def __init__(self):
        self.lost, self.demoted, self.failures, self.rounds = [], {}, [], 0
        self.verified = self.obligations = 0
        self.solver_ms = 0
        self.fns, self.whole_unit_lost, self.output, self.cmd = [], None, "", ""
        self.vacuous, self.trust, self.scan, self.axioms = [], [], {}, []
        self.externals = []
        self.spec_lemmas = 0

def baseline():
    b = {}
    for l in open(os.path.join(VERIF, "contracts", "baseline.tsv")):
        f = l.rstrip("\n").split("\t")
        b[f[0]] = {"names": f[2].split(), "shape": f[3] if len(f) > 3 else ""}
    return b

def verus(rs, rlimit, extra=()):
    cmd = ["verus", rs, "--triggers-mode", "silent", "--rlimit", str(rlimit), "--output-json", "--error-format=json", "--num-threads", "6", *extra]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(30, min(420, DEADLINE - time.time())), cwd=WORK, env=env())
    except subprocess.TimeoutExpired:
        return cmd, None, [], "timeout"
    diags = []
    raw = []
    for l in r.stderr.splitlines():
        try:
            d = json.loads(l)
            if isinstance(d, dict) and "message" in d: diags.append(d)
        except ValueError: raw.append(l)
    res = None
    try: res = json.loads(r.stdout)
    except ValueError:
        m = r.stdout.find("{")
        if m >= 0:
            try: res = json.loads(r.stdout[m:])
            except ValueError: res = None
    return cmd, res, [d for d in diags if d.get("level") == "error"], "\n".join(raw)

def fn_of(m, line, modes=("verify",)):
    for f in m["fns"]:
        if f["mode"] in modes and f["start"] <= line <= f["end"]: return f
    return None

def owner(m, d):
    spans = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
    for s in spans:
        f = fn_of(m, s["line_start"])
        if f: return f
    return None

def shape_changed(f, base):
    b = base.get(f["key"])
    if b is None: return None
    if f.get("shape", "") != b["shape"]: return "its loops or closures are not the ones the contract annotates (%r, was %r)" % (f.get("shape", ""), b["shape"])
    now, was = f.get("names", []), b["names"]
    if len(now) != len(was):
        gone = [n for n in was if n not in now]
        words = set(re.findall(r"\w+", f.get("anchors", "")))
        hit = [n for n in gone if n in words]
        if hit: return "locals used by its annotations are gone: " + ", ".join(hit)
    return None

def run_proof(vx, unit):
    p = Proof()
    base = baseline()
    rs, mp = os.path.join(WORK, unit + ".rs"), os.path.join(WORK, unit + ".json")
    demote = {}
    rl = 60 if TIER == "quick" else 120
    retried = set()
    for rnd in range(12):
        p.rounds = rnd + 1
        c = [vx, "--repo", REPO, "--contracts", os.path.join(VERIF, "contracts"), "--unit", unit, "--out", rs, "--map", mp]
        if demote: c += ["--demote", " | ".join(demote)]
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if r.returncode != 0:
            p.whole_unit_lost = "extraction failed: " + r.stdout[-2000:]
            break
        m = json.load(open(mp))
        p.lost = list(m["lost"])
        for g in m.get("guard", []):
            if g["extra"]: p.lost.append([", ".join(g["extra"]), "mentions %s, which the contract leaves to %s" % (g["name"], " and ".join(g["allowed"]))])
        cmd, res, errs, raw = verus(rs, rl)
        p.cmd = " ".join(cmd)
        if res is None and not errs:
            p.whole_unit_lost = "the verifier gave no result (%s)" % raw[-400:]
            break
        vr = (res or {}).get("verification-results", {})
        if not [d for d in errs if not d["message"].startswith("aborting due to")] and (not vr.get("success") or not vr.get("verified")):
            # no failed obligation and no success: the verifier crashed or stopped early, which decides nothing
            p.whole_unit_lost = "the verifier stopped without a verdict (%s)" % (vr.get("encountered-error") or raw[-300:])
            p.output = raw[-4000:]
            break
        # errors that are not failed obligations: outside the verifier's reach
        hard = [d for d in errs if d.get("code") or not any(g in d["message"] for g in GENUINE)]
        hard = [d for d in hard if not d["message"].startswith("aborting due to")]
        if hard:
            new = {}
            for d in hard:
                f = owner(m, d)
                if f is None: continue
                new.setdefault(f["key"], d["message"][:200])
            if not new:
                # the error sits in a trusted signature, a type or a specification
                t = [fn_of(m, s["line_start"], ("trust", "verify", "decl")) for d in hard for s in d.get("spans", [])]
                p.whole_unit_lost = "not expressible: %s%s" % (hard[0]["message"][:300], (" at " + t[0]["key"]) if t and t[0] else "")
                p.output = "\n".join(d.get("rendered", "") for d in hard)[:4000]
                break
            demote.update(new)
            continue
        fails = {}
        for d in errs:
            if d["message"].startswith("aborting due to"): continue
            f = owner(m, d)
            k = f["key"] if f else "?"
            fails.setdefault(k, []).append((d, f))
        # a failed proof of a function whose shape is no longer the annotated one decides nothing
        redo = False
        for k, ds in fails.items():
            if ds[0][1] is None: continue
            why = shape_changed(ds[0][1], base)
            if why: demote[k] = "proof failed, and " + why; redo = True
        if redo: continue
        if fails and not retried:
            # once more with another seed and a larger budget, so that an unlucky search is not taken for a failure
            retried.add(1)
            cmd2, res2, errs2, raw2 = verus(rs, rl * 4)
            vr2 = (res2 or {}).get("verification-results", {})
            if res2 is not None and (errs2 or vr2.get("success")):
                keep = {}
                for d in errs2:
                    if d["message"].startswith("aborting due to"): continue
                    f = owner(m, d)
                    keep.setdefault(f["key"] if f else "?", []).append((d, f))
                fails, vr, res = keep, res2.get("verification-results", {}), res2
        p.failures = [(k, d["message"], d.get("rendered", "")) for k, ds in fails.items() for d, _ in ds]
        p.verified = vr.get("verified", 0)
        p.obligations = vr.get("verified", 0) + vr.get("errors", 0)
        break
    else:
        p.whole_unit_lost = "no stable set of functions within reach"
    p.demoted = demote
    if os.path.exists(mp) and not p.whole_unit_lost:
        m = json.load(open(mp))
        p.fns = [f["key"] for f in m["fns"] if f["mode"] == "verify"]
        p.trust = [f["key"] for f in m["fns"] if f["mode"] == "trust"]
        text = open(rs).read()
        code = re.sub(r"//[^\n]*", "", text)
        p.scan = {w: len(re.findall(r"\b%s\b" % w, code)) for w in ("external_body", "assume", "admit", "assume_specification", "axiom", "external_fn_specification", "unimplemented")}
        p.axioms = sorted(set(re.findall(r"axiom fn (\w+)", code)))
        p.externals = sorted(set(re.findall(r"external_body\]\s*(?:pub )?(?:fn|struct) (\w+)", code)))
        if not p.failures: probes(vx, unit, p, demote)
    if p.whole_unit_lost is None and not p.fns: p.whole_unit_lost = "none of the unit's functions is left within reach"
    return p

def run_proofs(vx, units):
    """Several units: one proof each, one verdict."""
    ps = [run_proof(vx, u) for u in units]
    q = ps[0]
    for p, u in zip(ps[1:], units[1:]):
        q.lost += p.lost; q.demoted.update(p.demoted); q.failures += p.failures; q.vacuous += p.vacuous
        q.verified += p.verified; q.obligations += p.obligations; q.rounds = max(q.rounds, p.rounds)
        q.fns += [f for f in p.fns if f not in q.fns]; q.trust += [f for f in p.trust if f not in q.trust]
        q.axioms = sorted(set(q.axioms) | set(p.axioms)); q.cmd += " ; " + p.cmd; q.output += p.output
        q.externals = sorted(set(q.externals) | set(p.externals))
        for k, v in p.scan.items(): q.scan[k] = q.scan.get(k, 0) + v
        if p.whole_unit_lost: q.whole_unit_lost = ((q.whole_unit_lost + "; ") if q.whole_unit_lost else "") + u + ": " + p.whole_unit_lost
    q.trust = [f for f in q.trust if f not in q.fns]
    return q

def probes(vx, unit, p, demote):
    """Vacuity: `assert(false)` at the start and at the end of every function must fail."""
    for w in ("start", "end"):
        rs, mp = os.path.join(WORK, unit + "-" + w + ".rs"), os.path.join(WORK, unit + "-" + w + ".json")
        c = [vx, "--repo", REPO, "--contracts", os.path.join(VERIF, "contracts"), "--unit", unit, "--out", rs, "--map", mp, "--probe", w]
        if demote: c += ["--demote", " | ".join(demote)]
        subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        m = json.load(open(mp))
        _, res, errs, raw = verus(rs, 4)
        if any(d.get("code") for d in errs) or res is None: continue
        if not errs and not res.get("verification-results", {}).get("success"): continue  # crashed
        lines = open(rs).read().split("\n")
        hit = set()
        for d in errs:
            f = owner(m, d)
            if f and ("assertion failed" in d["message"] or "rlimit" in d["message"]): hit.add(f["key"])
        for f in m["fns"]:
            if f["mode"] == "verify" and any("proof { assert(false); }" in l for l in lines[f["start"] - 1:f["end"]]) and f["key"] not in hit:
                p.vacuous.append((f["key"], w))

# ------------------------------------------------------------------ harness
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

class Search:
    def __init__(self): self.ran, self.enumerated, self.fail, self.error, self.cases = 0, 0, None, None, []

def known():
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        if l.startswith("known: property=%s " % PROP): out.append(l.strip()[len("known: property=%s " % PROP):])
    return out

def search(vh, seed, tier, shards, limit, tag):
    """Runs the shards as child processes; the first failing input wins."""
    s = Search()
    procs = []
    for i in range(shards):
        d = os.path.join(WORK, "state-%s-%d" % (tag, i))
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        c = [vh, "search", CFG.get("harness", PROP), "--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (i, shards), "--state", d]
        procs.append((d, subprocess.Popen(c, cwd=d, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "stderr"), "w"), preexec_fn=limits, env=env(), start_new_session=True), c))
    end = time.time() + limit
    for d, pr, c in procs:
        while pr.poll() is None and time.time() < end and not s.fail:
            try: pr.wait(timeout=0.3)
            except subprocess.TimeoutExpired: pass
            for d2, p2, _ in procs:
                if os.path.exists(os.path.join(d2, "fail")): s.fail = s.fail or read_fail(os.path.join(d2, "fail"))
        if s.fail: break
    for d, pr, c in procs:
        if pr.poll() is None:
            pr.kill(); pr.wait()
            continue
        f = os.path.join(d, "fail")
        if os.path.exists(f): s.fail = s.fail or read_fail(f)
        elif os.path.exists(os.path.join(d, "done")):
            a, b = open(os.path.join(d, "done")).read().split()
            s.ran += int(a); s.enumerated += int(b)
        elif pr.returncode != 0 and not s.fail:
            cur = open(os.path.join(d, "current"), "rb").read() if os.path.exists(os.path.join(d, "current")) else b""
            if len(cur) > 17:
                n = int(cur[:16]); case = cur[17:17 + n].decode()
                err = open(os.path.join(d, "stderr")).read()[-500:]
                s.fail = (case, "the process died (status %s) %s" % (pr.returncode, err))
            else: s.error = "harness shard failed with status %s" % pr.returncode
        sm = os.path.join(d, "samples")
        if os.path.exists(sm): s.cases += open(sm).read().splitlines()[:3]
    return s

def read_fail(f):
    t = open(f).read()
    case, _, msg = t.partition("\n--\n")
    return (case, msg.strip())

# ------------------------------------------------------------------ main
def main():
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    box = {}
    def hb():
        try: box["vh"], box["err"] = build_harness()
        except Exception as e: box["vh"], box["err"] = None, "harness build: %s" % e
        if box["vh"] and CFG.get("tool"):
            try: t, err = build_tool()
            except Exception as e: t, err = None, "tool build: %s" % e
            if t: os.environ["VH_TOOL"] = t
            else: box["vh"], box["err"] = None, err
        if box["vh"]: box["s"] = search(box["vh"], SEED, "deep" if TIER == "thorough" else TIER, 4 if TIER == "quick" else 6, 150 if TIER == "quick" else 500, "a")
    th = threading.Thread(target=hb); th.start()
    proof = None
    if CFG.get("unit"):
        vx = build_vx()
        proof = run_proofs(vx, CFG["unit"].split())
        log("contracts: %d of %d obligations-bearing items discharged, %d functions verified, failures: %s, demoted: %s%s" % (proof.verified, proof.obligations, len(proof.fns), sorted(set(k for k, _, _ in proof.failures)), proof.demoted or "none", (", unit out of reach: " + proof.whole_unit_lost) if proof.whole_unit_lost else ""))
        for k, w in proof.vacuous: log("vacuous (%s): %s" % (w, k))
    th.join()
    s = box.get("s") or Search()
    if box.get("vh") is None: log("harness does not build against the current tree:", (box.get("err") or "")[-1500:])
    log("harness: %d cases, failing input: %s" % (s.ran, s.fail[0][:200] if s.fail else None))

    broken = proof is not None and bool(proof.failures)
    # a failed proof, or one that no longer covers the property: search longer for a failing input
    deep = 0
    if box.get("vh") and not s.fail and (broken or (proof is not None and (proof.whole_unit_lost or proof.demoted or proof.lost))):
        for k in range(6):
            left = min(DEADLINE - 60, T0 + 330) - time.time()
            if left < 20: break
            s2 = search(box["vh"], SEED + 1000 + k, "thorough", 6, min(left, 150), "d")
            s.ran += s2.ran; deep += s2.ran
            if s2.fail: s.fail = s2.fail; break
        log("extended search: %d more cases, failing input: %s" % (deep, s.fail[0][:200] if s.fail else None))

    rep_dir = os.path.join(BUILD, "replay"); os.makedirs(rep_dir, exist_ok=True)
    replay = os.path.join(rep_dir, TAG + ".txt")
    rc = 0
    violations = 0
    if s.fail:
        rc = 1; violations = 1
        with open(replay, "w") as f:
            f.write("%s\n--\n%s\n" % s.fail)
            f.write("\nreplay with: %s replay %s %s\n" % (os.path.join(VERIF, "build/harness/release/vh"), PROP, replay))
            if broken:
                f.write("\nfailed obligations:\n")
                for k, msg, out in proof.failures: f.write("%s: %s\n%s\n" % (k, msg, out))
        print("failing input: %s\n%s" % s.fail)
        print("VIOLATION property=%s replay=%s" % (PROP, replay))
    elif broken:
        rc = 1; violations = 1
        with open(replay, "w") as f:
            f.write("property %s: failed obligations; no failing input found in %d cases\n" % (PROP, s.ran))
            for k, msg, out in proof.failures: f.write("\nobligation: %s in the contract of %s\n%s\n" % (msg, k, out))
            f.write("\ncommand: %s\n" % proof.cmd)
        for k, msg, out in proof.failures: print("failed obligation: %s: %s" % (k, msg))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, replay))
    for k in known(): print("KNOWN-FINDING: property=%s %s" % (PROP, k))

    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": CFG["level"], "wall_s": round(time.time() - T0, 2), "violations": violations, "assumptions": CFG.get("assumptions", [])}
    cov = {"evaluations": s.ran, "distinct_nontrivial": min(s.enumerated, s.ran), "rule": "cases of the harness (bounded search beside the proof): an enumeration of small inputs, then random ones; distinct_nontrivial counts the cases of each worker that differ from its earlier ones", "samples": [s.fail[0]] if s.fail else s.cases[:3]}
    if proof is not None:
        cov.update({
            "obligations": proof.obligations, "discharged": proof.verified, "checker_cmd": proof.cmd,
            "trusted_base": CFG.get("trusted", []) + ["trusted contract of /repo's %s (%s)" % (k, verified_by().get(k) or "verified by no unit") for k in proof.trust] + ["axiom " + a for a in proof.axioms] + (["assumed contracts and opaque types of the std model (contracts/*.vx): " + " ".join(proof.externals)] if proof.externals else []),
            "functions_under_contract": proof.fns, "demoted_to_bounded": proof.demoted, "lost_anchors": proof.lost, "unit_out_of_reach": proof.whole_unit_lost,
            "vacuity_probes": {"functions": len(proof.fns), "kinds": ["start", "end"], "vacuous": proof.vacuous},
            "assumption_scan": proof.scan, "failed_obligations": ["%s: %s" % (k, m) for k, m, _ in proof.failures],
            "explanation": "obligations: functions, loops, closures and lemmas Verus generated queries for (its count of verified items and errors); everything in demoted_to_bounded was NOT proved on this run and rests on the bounded search only",
            "back_end": "Verus 0.2026.09.13 / Z3",
        })
    ev["coverage"] = cov
    with open(os.path.join(VERIF, CFG.get("evidence", "evidence/%s.json" % PROP)), "w") as f: json.dump(ev, f, indent=1)
    if proof is not None and (proof.whole_unit_lost or proof.demoted): print("BOUNDED: part of the proof is out of reach on this tree; that part was decided by the bounded search only")
    if rc == 0:
        if proof is not None and proof.vacuous: print("WARNING: vacuous obligations", proof.vacuous)
        print("held: property=%s (%.1fs)" % (PROP, time.time() - T0))
    sys.exit(rc)

def verified_by():
    """which units verify a function's body, from the unit descriptions of the contracts"""
    out, here = {}, set()
    mine = CFG["unit"].split()
    for name in sorted(os.listdir(os.path.join(VERIF, "contracts"))):
        if not name.endswith(".vx"): continue
        unit = None
        alts = set()
        for l in open(os.path.join(VERIF, "contracts", name)):
            if l.startswith("@unit "): unit = l[6:].strip(); alts = set()
            elif l.startswith("@end"): unit = None
            elif unit and l.startswith("@alt "):
                alts |= set(x.strip() for x in l[5:].split("|"))
                if unit in mine: here |= alts
            elif unit and l.startswith("@verify "):
                for k in l[8:].split("|"): out.setdefault(k.strip(), []).append("verified by unit " + unit + (", against another contract" if k.strip() in alts else ""))
    return {k: ("in the form of this unit's alternative contract; the function is " if k in here else "") + "; ".join(v) for k, v in out.items()}

if __name__ == "__main__": main()
