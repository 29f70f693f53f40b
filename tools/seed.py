#!/usr/bin/env python3
"""Makes and confirms a planted bug: seed.py FILE.py ...   (each FILE.py defines id, property, needs, breaks, edits, demo)
edits: list of (file, old, new); demo: body of main.rs.  Works in a scratch copy /tmp/sw only."""
import json, os, shutil, subprocess, sys, stat
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SW = "/tmp/sw"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
DEMO = '''#!/bin/bash
# run in the repository: exit 0 if the property holds there, nonzero if it is broken
set -e
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
sudoku = { path = "$R" FEATURES}
rand = "0.8.5"
EXTRA
[profile.dev]
opt-level = 1
T
cd "$W"
CARGO_TARGET_DIR="$W/target" cargo build --offline -q 2> "$W/log" || { cat "$W/log"; exit 3; }
timeout 200 "$W/target/debug/demo"
'''


def sh(cmd, cwd=SW, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    if not os.path.exists(SW):
        shutil.copytree("/repo", SW, symlinks=True)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        i = ns["id"]
        head = sh("git -C /repo rev-parse HEAD").stdout.strip()
        sh("git fetch -q /repo HEAD; git checkout -qf --detach %s; git checkout -- ." % head)
        d = os.path.join(VERIF, "seeded", i)
        tmp = "/tmp/seed_" + i
        if os.path.exists(tmp):
            shutil.rmtree(tmp)
        os.makedirs(tmp)
        open(tmp + "/main.rs", "w").write(ns["demo"])
        open(tmp + "/demo.sh", "w").write(DEMO.replace("FEATURES", ns.get("features", "")).replace("EXTRA\n", ns.get("extra", "")))
        os.chmod(tmp + "/demo.sh", 0o755)
        r = sh(tmp + "/demo.sh")
        if r.returncode:
            print(i, "DEMO FAILS ON CLEAN TREE\n", r.stdout[-1500:])
            continue
        for fn, a, b in ns["edits"]:
            p = os.path.join(SW, fn)
            s = open(p).read()
            n = s.count(a)
            if n != 1:
                print(i, "EDIT matches %d times: %r" % (n, a))
                break
            open(p, "w").write(s.replace(a, b))
        else:
            patch = sh("git diff").stdout
            open(tmp + "/patch.diff", "w").write(patch)
            t = sh("CARGO_TARGET_DIR=%s/target cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 > %s/target/t.log 2>&1; python3 /opt/vp/results.py /tmp/seed_t.json cargo:%s/target/t.log" % (SW, SW, SW))
            res = json.load(open("/tmp/seed_t.json"))
            passed = set(res.get("passed", res.get("pass", [])))
            miss = stable - passed
            ok = True
            if miss:
                ok = False
                print(i, "TESTS FAIL", sorted(miss)[:6], sh("grep -n '^error' -A5 target/t.log | head -20").stdout)
            a = sh("cargo check --all-features --offline --locked --target-dir %s/target" % SW)
            if a.returncode:
                ok = False
                print(i, "ALL FEATURES FAIL", a.stdout[-500:])
            r = sh(tmp + "/demo.sh")
            if r.returncode in (0, 3, 124):
                ok = False
                print(i, "DEMO DOES NOT FAIL", r.returncode, r.stdout[-800:])
            if ok:
                os.makedirs(d, exist_ok=True)
                json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
                for x in ("patch.diff", "demo.sh", "main.rs", "meta.json"):
                    shutil.copy(os.path.join(tmp, x), os.path.join(d, x))
                print(i, "KEPT; demo says:", r.stdout.strip()[-150:].replace("\n", " | "))
                for pid in [ns["property"]] + ns.get("also", []):
                    c = subprocess.run("SUDOKU_REPO=%s timeout 900 ./check %s quick 2>&1 | tail -4 | cut -c1-300" % (SW, pid), shell=True, cwd=VERIF, text=True, stdout=subprocess.PIPE)
                    print("   ", "CAUGHT" if "VIOLATION" in c.stdout else "MISSED", pid, c.stdout.strip()[-400:] if "VIOLATION" not in c.stdout else c.stdout.strip().split("\n")[0][:250])
        sh("git checkout -- .")
        shutil.rmtree(tmp)


main()
