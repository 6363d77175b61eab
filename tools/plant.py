#!/usr/bin/env python3
"""Plants bugs: tools/plant.py bugs.py [ID ...] [--check]
bugs.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust source, mode)].
In a scratch copy of /repo each edit is built, run against the stable tests and against its demonstration, on the
unchanged and on the changed tree; only a bug that passes all of it is written to /verif/seeded/<id>/.
--check then applies it to /repo, runs the property's quick check and restores /repo."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/plant-scratch"

DEMO = """#!/bin/bash
# run with cwd = the repository; builds demo.rs (beside this file) against it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
morton-index = { path = "$repo" }
TOML
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 3
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
%s
"""
MODES = {
    "debug": "timeout 280 cargo run --offline -q",
    "release": "timeout 280 cargo run --offline -q --release",
    "both": "timeout 140 cargo run --offline -q > out.debug 2>&1; a=$?\ntimeout 140 cargo run --offline -q --release > out.release 2>&1; b=$?\n"
            "cat out.debug out.release\n[ $a -eq 0 ] && [ $b -eq 0 ] && cmp out.debug out.release",
    "i686": 'export MIRI_SYSROOT="$work/sysroot"\n'
            'mkdir -p "$work/cache"; unset MIRI_SYSROOT; export XDG_CACHE_HOME="$work/cache"\n'
            "timeout 280 cargo +nightly miri run --offline -q --target i686-unknown-linux-gnu",
    "s390x": 'export XDG_CACHE_HOME="$work/cache"; mkdir -p "$work/cache"\n'
             "timeout 280 cargo +nightly miri run --offline -q --target s390x-unknown-linux-gnu",
    "miri": 'export XDG_CACHE_HOME="$work/cache"; mkdir -p "$work/cache"\n'
            "timeout 280 cargo +nightly miri run --offline -q",
    "bmi2": 'RUSTFLAGS="-Ctarget-feature=+bmi2" timeout 280 cargo run --offline -q --release',
    "asan": 'export RUSTFLAGS="-Zsanitizer=address"\n'
            "timeout 280 cargo +nightly run --offline -q --target x86_64-unknown-linux-gnu",
}


def run(cmd, cwd, timeout=1200, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", timeout=timeout, env=env)
    return p.returncode, p.stdout


def tests(cwd):
    e = dict(os.environ, CARGO_TARGET_DIR=SC + ".target")
    rc, o = run("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8", cwd, env=e)
    ok = sum(1 for l in o.splitlines() if l.startswith("test ") and l.endswith("... ok"))
    bad = [l for l in o.splitlines() if l.startswith("test ") and "FAILED" in l]
    return rc, ok, bad, o


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = [a for a in sys.argv[2:] if not a.startswith("--")]
    for b in m.BUGS:
        if want and b["id"] not in want:
            continue
        if os.path.exists(SC):
            shutil.rmtree(SC)
        run("git clone -q /repo %s && cp /repo/Cargo.lock %s/ 2>/dev/null" % (SC, SC), "/tmp")
        d = tempfile.mkdtemp(prefix="plantdemo")
        open(d + "/demo.sh", "w").write(DEMO % MODES[b.get("mode", "debug")])
        open(d + "/demo.rs", "w").write(b["demo"].lstrip("\n"))
        try:
            rc, o = run("bash %s/demo.sh" % d, SC)
            if rc != 0:
                print(b["id"], "REJECT: demo fails on the unchanged tree\n", o[-3000:])
                continue
            for f, old, new in b["edits"]:
                p = os.path.join(SC, f)
                s = open(p).read()
                cut = s.find("#[cfg(test)]\nmod tests")
                head, tail = (s[:cut], s[cut:]) if cut >= 0 else (s, "")
                if head.count(old) < 1:
                    raise SystemExit("%s: edit does not match %s: %r" % (b["id"], f, old[:60]))
                if head.count(old) > 1:
                    raise SystemExit("%s: edit matches %d times in %s: %r" % (b["id"], head.count(old), f, old[:60]))
                open(p, "w").write(head.replace(old, new) + tail)
            patch = subprocess.run("git diff", cwd=SC, shell=True, stdout=subprocess.PIPE, text=True).stdout
            bad = []
            for _ in range(3):
                rc, ok, bad, o = tests(SC)
                if rc != 0 or ok < 489:
                    break
            if rc != 0 or ok < 489:
                print(b["id"], "REJECT: tests: rc", rc, "ok", ok, bad[:6], o[-1500:] if not bad else "")
                continue
            rc, o = run("bash %s/demo.sh" % d, SC)
            if rc == 0:
                print(b["id"], "REJECT: demo passes with the change")
                continue
            print(b["id"], "kept; demo says:", o.strip().splitlines()[-4:])
            t = os.path.join(VERIF, "seeded", b["id"])
            os.makedirs(t, exist_ok=True)
            open(t + "/patch.diff", "w").write(patch)
            for f in ("demo.sh", "demo.rs"):
                shutil.copy(d + "/" + f, t + "/" + f)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(t + "/meta.json", "w"), indent=1)
            if "--check" in sys.argv:
                rc, o = run("git -C /repo apply %s/patch.diff" % t, "/repo")
                try:
                    rc, o = run("VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s" % b["property"], VERIF)
                finally:
                    run("git -C /repo checkout -- .", "/repo")
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                print("   check", b["property"], "rc", rc, v, "" if rc == 1 else o[-1500:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
            sys.stdout.flush()
    shutil.rmtree(SC, ignore_errors=True)


main()
