#!/usr/bin/env python3
"""Make and verify a planted bug.
  seed.py make ID PROP file old new [file old new ...]   (writes patch.diff, demo.sh; demo.rs and meta.json must exist or follow)
  seed.py test ID [...]                                   verify: builds, tests pass, demo passes/fails, and which checks fire
Works in /tmp/mr, a copy of /repo."""
import json, os, shutil, subprocess, sys
SW = "/tmp/mr"
V = "/verif"
DEMO = r'''#!/bin/bash
# Runs demo.rs as a test module inside a scratch copy of the crate in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/c/target/debug"
cp -a "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$repo/.cargo" "$repo/resources" "$work/c/"
for d in .fingerprint build deps; do
    cp -al "$repo/target/debug/$d" "$work/c/target/debug/" 2>/dev/null || cp -a "$repo/target/debug/$d" "$work/c/target/debug/" 2>/dev/null || true
done
cp "$here/demo.rs" "$work/demo.rs"
host=$(sed -n '1s,^// in: ,,p' "$here/demo.rs")
printf '\n#[cfg(test)]\n#[path = "%s"]\nmod planted_demo;\n' "$work/demo.rs" >> "$work/c/$host"
cd "$work/c"
timeout -k 5 240 cargo test --offline planted_demo -- --test-threads 1 > "$work/log" 2>&1 || { grep -v '^warning' "$work/log" | tail -n 25; exit 1; }
grep -q 'test result: ok. [1-9]' "$work/log" || { tail -n 25 "$work/log"; exit 1; }
'''
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def prep():
    if not os.path.isdir(SW):
        subprocess.check_call(["cp", "-a", "/repo", SW])
    subprocess.check_call("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd", shell=True, cwd=SW)

def make(sid, prop, reps):
    prep()
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    for i in range(0, len(reps), 3):
        f, old, new = reps[i:i + 3]
        p = os.path.join(SW, "src", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=SW).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    sh("git checkout -q -f .", cwd=SW)

def tests():
    sh("rm -rf /tmp/mr/tmp1 /tmp/mr/tmp2 /tmp/mr/single_test /tmp/mr/multi_test")
    p = sh("cargo build --offline && cargo test --offline --no-fail-fast -- --test-threads 8", cwd=SW, env=ENV)
    return [l for l in p.stdout.splitlines() if l.startswith("test result") or l.endswith("FAILED")] or p.stderr[-1500:].splitlines()

def demo(sid):
    p = sh("bash %s/seeded/%s/demo.sh" % (V, sid), cwd=SW, env={"PATH": os.environ["PATH"]})
    return p.returncode, p.stdout[-1500:]

def test(sid, checks=None):
    prep()
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    res = {}
    t = tests()
    rc0, out0 = demo(sid)
    a = sh("git apply %s/patch.diff" % d, cwd=SW)
    if a.returncode:
        print(sid, "patch does not apply", a.stderr); return
    t = tests()
    rc1, out1 = demo(sid)
    print("%s [%s] tests: %s | demo unchanged rc=%d patched rc=%d" % (sid, prop, t[-1][:80] if len(t) == 1 else t, rc0, rc1))
    if rc0: print("   UNCHANGED DEMO FAILS:", out0)
    if rc1:
        print("   demo:", " / ".join(l for l in out1.splitlines() if "panicked" in l or "assert" in l or "left" in l or "right" in l)[:300] or out1[-400:])
    c = sh("NARGUN_REPO=%s VERIF_TIER=quick python3 %s/check.py %s" % (SW, V, prop))
    print("   check %s rc=%d %s" % (prop, c.returncode, "; ".join(l[:160] for l in c.stdout.splitlines()[:3])))
    sh("git checkout -q -f .", cwd=SW)

if sys.argv[1] == "make":
    make(sys.argv[2], sys.argv[3], sys.argv[4:])
else:
    for s in sys.argv[2:]:
        test(s)
