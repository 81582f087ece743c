"""Build the driver, dump callee-resolved MIR of /repo and of the model library.

Everything is rebuilt from the current working tree: the dump is keyed by the content of every
source file of the crate, the driver and the models."""
import fcntl
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NARGUN_REPO", "/repo")
TARGET = os.environ.get("NARGUN_TARGET", os.path.join(VERIF, "target"))


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=850):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError("%s (exit %d)\n%s" % (" ".join(cmd), p.returncode, p.stdout.decode("utf8", "replace")[-3000:]))
    return p.stdout.decode("utf8", "replace")


def tree_hash(paths):
    h = hashlib.sha256()
    files = []
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds[:] = [x for x in ds if x not in ("target", ".git")]
                files += [os.path.join(d, f) for f in fs]
        elif os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def nightly():
    rustc = sh(["rustup", "which", "rustc", "--toolchain", "nightly"], VERIF).strip()
    return rustc, sh([rustc, "--print", "sysroot"], VERIF).strip()


def driver():
    """path of the MIR dumping compiler driver"""
    d = os.path.join(VERIF, "driver")
    key = tree_hash([os.path.join(d, x) for x in ("src", "Cargo.toml", "Cargo.lock", ".cargo")])
    out = os.path.join(TARGET, "driver")
    stamp = os.path.join(out, "stamp-" + key)
    exe = os.path.join(out, "debug", "mirdump")
    if not (os.path.exists(stamp) and os.path.exists(exe)):
        env = dict(os.environ, CARGO_TARGET_DIR=out)
        env.pop("RUSTC_BOOTSTRAP", None)
        sh(["cargo", "+nightly", "build", "--offline"], d, env)
        open(stamp, "w").close()
    return exe, key


def models(exe, key):
    src = os.path.join(VERIF, "models", "src", "lib.rs")
    k = key + tree_hash([src])
    out = os.path.join(TARGET, "models-%s.json" % k)
    if not os.path.exists(out):
        rustc, sysroot = nightly()
        env = dict(os.environ, LD_LIBRARY_PATH=sysroot + "/lib", MIRDUMP_CRATE="vmodels", MIRDUMP_OUT=out + ".tmp")
        env.pop("RUSTC_BOOTSTRAP", None)
        sh([exe, rustc, "--edition", "2021", "--crate-name", "vmodels", "--crate-type", "lib", "--emit=metadata",
            "-o", os.path.join(TARGET, "libvmodels.rmeta"), src], VERIF, env)
        os.rename(out + ".tmp", out)
    return out


def facts(exe, key):
    k = key + tree_hash([os.path.join(REPO, x) for x in ("src", "Cargo.toml", "Cargo.lock", ".cargo", "build.rs")])
    out = os.path.join(TARGET, "facts-%s.json" % k)
    if not os.path.exists(out):
        rustc, sysroot = nightly()
        tgt = os.path.join(TARGET, "repo")
        # only the crate under analysis is checked again; its dependencies stay built
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            import shutil
            for d in os.listdir(fp):
                if d.startswith("nargun-"):
                    shutil.rmtree(os.path.join(fp, d))
        env = dict(os.environ, MIRDUMP_RUSTC=rustc, RUSTC=os.path.join(VERIF, "bin", "rustc-shim"),
                   CARGO_TARGET_DIR=tgt, LD_LIBRARY_PATH=sysroot + "/lib", RUSTC_WORKSPACE_WRAPPER=exe,
                   MIRDUMP_CRATE="nargun", MIRDUMP_OUT=out + ".tmp")
        env.pop("RUSTC_BOOTSTRAP", None)
        # stale dumps of other trees
        for f in os.listdir(TARGET):
            if f.startswith("facts-"):
                os.unlink(os.path.join(TARGET, f))
        sh(["cargo", "+stable", "check", "--offline", "--locked"], REPO, env)
        if not os.path.exists(out + ".tmp"):
            raise BuildError("the compiler produced no facts")
        os.rename(out + ".tmp", out)
    return out


def prepare():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        exe, key = driver()
        return facts(exe, key), models(exe, key)


if __name__ == "__main__":
    print(*prepare())
