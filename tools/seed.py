#!/usr/bin/env python3
"""seed.py SPEC.py: make /verif/seeded/<id>/ from a description of a planted bug, after confirming it
in a scratch copy of /repo (/tmp/sc): applies, builds, passes the stable tests, the demonstration tells the
two trees apart.   SPEC.py sets ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust main program)."""
import json, os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{SC}/target", RUST_BACKTRACE="0", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
DEMO_SH = '''#!/bin/bash
# builds the program beside this file against the library in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="/root/.cargo/bin:$PATH"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
EXTRA
rustc --edition 2021 -A warnings "$here/demo.rs" -o "$out/demo" --extern keride=target/debug/libkeride.rlib DEPS -L dependency=target/debug/deps || exit 99
timeout 200 "$out/demo"
'''


HOOKED = '''RUSTFLAGS="--cfg keride_verif -A warnings" cargo build --offline -q --target-dir "$out/t" || exit 99
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SC, env=ENV, **k)


def touch():
    for d in os.listdir(f"{SC}/target/debug/.fingerprint"):
        if d.startswith("keride-"):
            shutil.rmtree(f"{SC}/target/debug/.fingerprint/{d}")


def main():
    s = {}
    exec(open(sys.argv[1]).read(), s)
    head = subprocess.check_output("git -C /repo rev-parse HEAD", shell=True, text=True).strip()
    if not os.path.exists(SC):
        subprocess.check_call(["cp", "-a", "/repo", SC])
    sh(f"git fetch -q /repo && git checkout -q -f {head} && git clean -fdq")
    d = f"{V}/seeded/{s['ID']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["EDITS"]:
        p = f"{SC}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    patch = sh("git diff").stdout
    # must not touch lines this work added
    blame_bad = []
    for l in patch.splitlines():
        if l.startswith("-") and not l.startswith("---"):
            if l[1:].strip() and not any(l[1:] in subprocess.run(f"git -C {SC} show f4b4135:{f}", shell=True, stdout=subprocess.PIPE, text=True).stdout.split("\n") for f, _, _ in s["EDITS"]):
                blame_bad.append(l)
    if blame_bad:
        print("NOT ORIGINAL LINES", blame_bad)
    open(f"{d}/patch.diff", "w").write(patch)
    open(f"{d}/demo.rs", "w").write(s["DEMO"])
    sh_text = DEMO_SH.replace("EXTRA\n", HOOKED if s.get("HOOKED") else "").replace("DEPS ", "")
    if s.get("HOOKED"):
        sh_text = sh_text.replace("target/debug", '"$out/t/debug"').replace('keride="$out/t/debug"/libkeride.rlib', '"keride=$out/t/debug/libkeride.rlib"').replace('dependency="$out/t/debug"/deps', '"dependency=$out/t/debug/deps"')
    open(f"{d}/demo.sh", "w").write(sh_text)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
    okk = True
    touch()
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    open("/tmp/sc.log", "w").write(r.stdout)
    subprocess.call(["python3", "/opt/vp/results.py", "/tmp/sc.json", "cargo:/tmp/sc.log"], stdout=subprocess.DEVNULL)
    passed = json.load(open("/tmp/sc.json"))["passed"] if os.path.exists("/tmp/sc.json") else []
    miss = [n for n in json.load(open("/opt/vp/BASELINE.json"))["stable"] if n not in passed]
    if not passed or miss:
        okk = False
        print("TESTS", len(passed), "missing", miss[:8], "" if passed else r.stdout[-1500:])
    sh("cargo build --workspace --offline")
    r = sh(f"bash {d}/demo.sh")
    print("patched demo:", r.returncode, r.stdout.strip()[-300:])
    okk &= r.returncode not in (0, 99)
    sh("git checkout -q -f .")
    touch()
    sh("cargo build --workspace --offline")
    r = sh(f"bash {d}/demo.sh")
    print("clean demo:", r.returncode, r.stdout.strip()[-600:])
    okk &= r.returncode == 0
    print(s["ID"], "CONFIRMED" if okk else "NOT CONFIRMED")


main()
