"""Programs that must, or must not, type-check against /repo's crate: the compiler decides each of them."""
import concurrent.futures, fcntl, json, os, re, shutil, subprocess, tempfile
import extract

TOML = """[package]
name = "witness"
version = "0.0.0"
edition = "2021"
publish = false
[dependencies]
sudoku = { path = "%s" }
rand = "=0.8.5"
[workspace]
"""


class Witness:
    def __init__(self):
        os.makedirs(extract.BUILD, exist_ok=True)
        self.lock = open(os.path.join(extract.BUILD, "witness.lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        d = os.path.join(extract.BUILD, "witness-src")
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(os.path.join(d, "src"))
        open(os.path.join(d, "Cargo.toml"), "w").write(TOML % extract.REPO)
        open(os.path.join(d, "src", "lib.rs"), "w").write("")
        shutil.copy(os.path.join(extract.ENGINE, "probe", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        s = open(os.path.join(d, "Cargo.lock")).read().replace('name = "probe"', 'name = "witness"')
        open(os.path.join(d, "Cargo.lock"), "w").write(s)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO_") and k != "CARGO_HOME" or k in ("RUSTC", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
                env.pop(k)
        env.update(CARGO_TARGET_DIR=os.path.join(extract.BUILD, "target-witness"), CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
        self.env = env
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json", "--manifest-path", os.path.join(d, "Cargo.toml")],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise RuntimeError("the witness crate does not build: " + r.stderr[-1500:])
        self.ext, dirs = {}, set()
        for l in r.stdout.splitlines():
            o = json.loads(l)
            if o.get("reason") == "compiler-artifact":
                dirs |= {os.path.dirname(f) for f in o["filenames"]}
            if o.get("reason") == "compiler-artifact" and o["target"]["name"] in ("sudoku", "rand"):
                self.ext[o["target"]["name"]] = [f for f in o["filenames"] if f.endswith(".rmeta")][0]
        self.deps = [x for f in sorted(dirs) for x in ("-L", "dependency=" + f)]

    def check(self, code):
        """(accepted, error codes, messages)"""
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "w.rs")
            open(p, "w").write("#![allow(unused)]\nuse sudoku::{*, board::*, board::positions::*, bitset::*, strategy::*, strategy::deduction::*, errors::*};\n" + code + "\n")
            r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=short"] + self.deps + [
                                "--extern", "sudoku=" + self.ext["sudoku"], "--extern", "rand=" + self.ext["rand"], p, "-o", os.path.join(d, "w.rmeta")],
                               env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
            return r.returncode == 0, sorted(set(re.findall(r"error\[(E\d+)\]", r.stdout))), r.stdout[-600:].replace(d, "")

    def run(self, ctx, items):
        """items: (key, code, None if it must be accepted else the error codes one of which must reject it)"""
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for (key, code, want), (ok, codes, msg) in zip(items, ex.map(lambda x: self.check(x[1]), items)):
                if want is None:
                    ctx.ob(key, ok, "this program must be accepted by the compiler, but is not: %s  [%s]" % (code, msg), "public API")
                else:
                    good = not ok and codes and all(c in want for c in codes)
                    ctx.ob(key, good, "this program must be rejected (%s), but %s: %s" % (
                        ", ".join(want), "the compiler accepts it" if ok else "the compiler says %s %s" % (codes, msg), code), "public API")
                ctx.cases += 1

    def close(self):
        fcntl.flock(self.lock, fcntl.LOCK_UN)
        self.lock.close()
