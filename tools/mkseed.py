#!/usr/bin/env python3
"""mkseed.py SPECFILE...: each spec is a python file with ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (rust main.rs text).
Confirms in a scratch copy that the change builds, passes the stable tests, and that the demo tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
DEMO_SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory, in a scratch folder, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
unset RUSTFLAGS
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rusty-systems = { path = "$repo" }
[workspace]
T
cd "$tmp" || exit 3
cargo build --offline --quiet 2> "$tmp/log" || { cat "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
'''
# the text of a spec's TOOL is the rest of this script: $tool is the binary, the current directory a scratch folder
TOOL_SH = '''#!/bin/bash
# Builds the tool from the crate in the current directory, with its target directory in a scratch folder, and runs it there.
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
unset RUSTFLAGS
cargo build --offline --quiet --manifest-path "$repo/Cargo.toml" --features lsystem --bin lsystem 2> "$tmp/log" || { cat "$tmp/log"; exit 3; }
tool="$tmp/target/debug/lsystem"
mkdir "$tmp/work"; cd "$tmp/work" || exit 3
bad() { echo "FAILED: $*"; exit 1; }
printf 'n = 4\\ndelta = 90\\ninitial: Forward\\nForward -> Forward + Forward - Forward Move\\n' > a.plant
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    out = "/verif/seeded/" + g["ID"]
    w = tempfile.mkdtemp(prefix="seed")
    try:
        sh("git clone -q /repo %s/r && cp /repo/Cargo.lock %s/r/" % (w, w))
        for f, old, new in g["EDITS"]:
            p = os.path.join(w, "r", f); t = open(p).read()
            assert t.count(old) == 1, (g["ID"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=w + "/r").stdout
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        if "DEMO" in g: open(out + "/demo.rs", "w").write(g["DEMO"])
        open(out + "/demo.sh", "w").write(TOOL_SH + g["TOOL"] if "TOOL" in g else DEMO_SH); os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        t = sh("CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/seedtarget cargo test --workspace --all-features --offline 2>&1 | tail -400", cwd=w + "/r").stdout
        failed = [l for l in t.splitlines() if "FAILED" in l or "could not compile" in l or "error[" in l]
        passed = sum(1 for l in t.splitlines() if l.startswith("test ") and l.rstrip().endswith("ok"))
        d1 = sh(out + "/demo.sh", cwd="/repo"); d2 = sh(out + "/demo.sh", cwd=w + "/r")
        ok = not failed and passed >= 60 and d1.returncode == 0 and d2.returncode not in (0, 3)
        print(("KEPT " if ok else "REJECTED ") + g["ID"], "passed", passed, "demo", d1.returncode, d2.returncode, failed[:3], "" if ok else d1.stdout[-500:] + d2.stdout[-500:], flush=True)
        if not ok: shutil.rmtree(out)
    finally: shutil.rmtree(w, ignore_errors=True)
