"""Build /repo with the nightly compiler and dump the monomorphised MIR that is
reachable from the probe crate.  The dump is cached by the content of everything
that goes into it (sources of /repo, probe crate, extractor)."""
import hashlib, os, subprocess, sys, fcntl, shutil, time

ENGINE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENGINE)
REPO = os.environ.get("SUDOKU_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

CONFIGS = {
    # name: (cargo profile args, features)
    "dev": ([], []),
    "rel": (["--release"], []),
    "unchecked": (["--release"], ["unchecked"]),
    "serde": ([], ["serde"]),
}


def _files():
    out = []
    for base, sub in ((REPO, ("src", "Cargo.toml", "Cargo.lock", "build.rs")),
                      (ENGINE, ("probe/src", "probe/Cargo.toml", "probe/Cargo.lock", "driver"))):
        for s in sub:
            p = os.path.join(base, s)
            if os.path.isfile(p):
                out.append(p)
            elif os.path.isdir(p):
                for d, dn, fn in os.walk(p):
                    dn.sort()
                    for f in sorted(fn):
                        out.append(os.path.join(d, f))
    return out


def content_hash():
    h = hashlib.sha256()
    for p in _files():
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def ensure_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ENGINE, "driver", "main.rs")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "mirdump-" + tag)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        _run(["rustc", "+nightly", "-O", "--edition", "2024", src, "-o", tmp])
        os.rename(tmp, exe)
    return exe


def extract(config):
    """returns path of the dump for the current content of /repo"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = content_hash()
        out = os.path.join(BUILD, "dump-%s-%s.jsonl" % (config, key))
        if os.path.exists(out):
            return out
        exe = ensure_driver()
        prof, feats = CONFIGS[config]
        sysroot = _run(["rustc", "+nightly", "--print", "sysroot"]).strip()
        tdir = os.path.join(BUILD, "target-" + config)
        probe = os.path.join(BUILD, "probe-src")
        # the probe is a client crate with a path dependency on REPO
        if os.path.exists(probe):
            shutil.rmtree(probe)
        shutil.copytree(os.path.join(ENGINE, "probe"), probe, ignore=shutil.ignore_patterns("target"))
        if REPO != "/repo":
            ct = os.path.join(probe, "Cargo.toml")
            s = open(ct).read().replace('"/repo"', '"%s"' % REPO)
            open(ct, "w").write(s)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTC", "RUSTFLAGS", "RUSTC_WRAPPER"):
                env.pop(k)
        env.update({
            "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
            "RUSTC_WORKSPACE_WRAPPER": exe,
            "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
            "MIRDUMP_OUT": out + ".tmp",
            "MIRDUMP_CRATE": "probe",
            "CARGO_TARGET_DIR": tdir,
            "CARGO_NET_OFFLINE": "true",
            "CARGO_INCREMENTAL": "0",
        })
        mf = ["--manifest-path", os.path.join(probe, "Cargo.toml"), "--offline"]
        for pkg in ("sudoku", "probe"):
            subprocess.run(["cargo", "+nightly", "clean", "-p", pkg] + mf + prof, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(out + ".tmp"):
            os.unlink(out + ".tmp")
        cmd = ["cargo", "+nightly", "check" if False else "build"] + mf + prof
        if feats:
            cmd += ["--features", ",".join(feats)]
        _run(cmd, env=env)
        if not os.path.exists(out + ".tmp"):
            raise RuntimeError("extractor produced no output (stale build?)")
        # drop dumps of other source states
        for f in os.listdir(BUILD):
            if f.startswith("dump-%s-" % config) and f.endswith((".jsonl", ".idx")) and key not in f:
                os.unlink(os.path.join(BUILD, f))
        os.rename(out + ".tmp", out)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    for c in sys.argv[1:] or list(CONFIGS):
        t = time.time()
        print(c, extract(c), "%.1fs" % (time.time() - t))
