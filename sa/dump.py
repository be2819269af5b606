"""Obtains the MIR dump of /repo's current tree: builds the driver if needed,
runs `cargo +nightly check` with it, and verifies that what was dumped is what
is on disk now (by content hash of every source file the compiler read)."""
import fcntl, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WORK = os.path.join(VERIF, "work")
OUT = os.path.join(WORK, "dump")
TGT = os.path.join(WORK, "nt")
REPO = "/repo"
WS = "/repo/target/vp-ws"
CRATES = ["tket", "tket_qsystem", "selene_hugr_qis_compiler"]


class DumpError(Exception):
    pass


def build_driver():
    exe = os.path.join(VERIF, "driver/target/debug/mirdump")
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env["PATH"] = "/usr/local/cargo/bin:" + env.get("PATH", "")
    env["CARGO_TARGET_DIR"] = os.path.join(VERIF, "driver/target")
    env["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"),
                       env=env, capture_output=True, text=True)
    if r.returncode or not os.path.exists(exe):
        raise DumpError("driver build failed:\n" + r.stderr[-4000:])
    return exe


def _sh(out, *extra):
    r = subprocess.run(["bash", os.path.join(HERE, "dump.sh"), out, TGT, *extra],
                       capture_output=True, text=True)
    return r


def _digest(path, kind):
    h = {"md5": hashlib.md5, "sha1": hashlib.sha1, "sha256": hashlib.sha256}.get(kind)
    if h is None:
        return None
    with open(path, "rb") as f:
        return h(f.read()).hexdigest()


def stale(out):
    """List of reasons why the dump does not match the sources on disk."""
    why = []
    n = 0
    drv = os.path.getmtime(os.path.join(VERIF, "driver/target/debug/mirdump"))
    for c in CRATES:
        p = os.path.join(out, c + ".json")
        if not os.path.exists(p):
            why.append(f"{c}: no dump")
            continue
        if os.path.getmtime(p) < drv:
            why.append(f"{c}: older than the driver")
            continue
        with open(p) as f:
            head = f.readline()
        # the header (crate, files) comes first on the first line
        i = head.index('"files":') + 8
        files, _ = json.JSONDecoder().raw_decode(head[i:])
        for name, h in files:
            if name.startswith("<") or h == "":
                continue
            q = name if os.path.isabs(name) else os.path.join(WS, name)
            kind, _, val = h.partition("=")
            if not os.path.exists(q):
                if os.path.isabs(name) and "/rustc/" in name:
                    continue
                why.append(f"{c}: {name} vanished")
                continue
            if not os.path.realpath(q).startswith(REPO + "/"):
                continue
            d = _digest(q, kind)
            if d is not None and d != val:
                why.append(f"{c}: {name} changed")
            n += 1
    if n < 110:
        why.append(f"only {n} source files recorded")
    return why, n


def ensure(verbose=False):
    """Refresh the dump; returns (dir, info)."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t = time.time()
    build_driver()
    r = _sh(OUT)
    if r.returncode:
        r = _sh(OUT, "clean")
        if r.returncode:
            raise DumpError("cargo check of /repo failed:\n" + (r.stdout + r.stderr)[-4000:])
    why, n = stale(OUT)
    if why:
        r = _sh(OUT, "clean")
        if r.returncode:
            raise DumpError("cargo check of /repo failed:\n" + (r.stdout + r.stderr)[-4000:])
        why2, n = stale(OUT)
        if why2:
            raise DumpError("dump does not match the tree: " + "; ".join(why2[:5]))
    info = {"source_files": n, "dump_s": round(time.time() - t, 1), "refreshed": bool(why)}
    if verbose:
        print(info)
    return OUT, info


if __name__ == "__main__":
    try:
        ensure(True)
    except DumpError as e:
        print(e)
        sys.exit(2)
