#!/usr/bin/env python3
"""Conformance of the library models: every function of conf/src/lib.rs must evaluate to the constant true.
usage: tools/conf.py [name...]   (development aid; run `cargo test --offline` in conf/ for the real library)"""
import os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "sa"))
import mir
OUT = os.environ.get("CONF_OUT", "/tmp/conf-dump")
env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=OUT + "-target", MIRDUMP_OUT=OUT,
           RUSTC_WORKSPACE_WRAPPER=os.path.join(ROOT, "driver/target/debug/mirdump"))
root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
env["LD_LIBRARY_PATH"] = root + "/lib"
os.makedirs(OUT, exist_ok=True)
r = subprocess.run(["cargo", "check", "--lib", "--offline"], cwd=os.path.join(ROOT, "conf"), env=env, capture_output=True, text=True)
if r.returncode:
    sys.exit(r.stderr[-3000:])
mir.CRATES[:] = ["tket"]
P = mir.Prog(OUT)
import cx as CX
cx = CX.Cx(P, "X", "quick", {})
names = sys.argv[1:] or [k for k in P.keys if k.count("::") == 1 and k.startswith("tket::") and "{" not in k]
bad = 0
for k in names:
    k = k if k.startswith("tket::") else "tket::" + k
    try:
        it, outs = cx.run(k, [], follow_errors=True, max_steps=60000)
        res = [(o.kind, str(o.value) if o.kind != "cut" else o.st.cutreason) for o in outs]
    except Exception as e:
        res = [("error", f"{type(e).__name__}: {e}")]
    if res != [("ret", "true")]:
        bad += 1
        print(k, [(a, str(b)[:400]) for a, b in res[:4]], len(res))
print(f"{len(names) - bad} of {len(names)} functions evaluate to true")
