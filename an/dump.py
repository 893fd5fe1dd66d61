"""Run the MIR dumper over /repo (always afresh) and return the dump path."""
import contextlib
import fcntl
import os
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(ROOT, ".cache")
DRIVER = os.path.join(ROOT, "driver")
BIN = os.path.join(DRIVER, "target", "debug", "clmir")


class BuildError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_", "RUSTC"))}
    e.setdefault("HOME", "/root")
    e["CARGO_HOME"] = os.environ.get("CARGO_HOME", "/root/.cargo")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


@contextlib.contextmanager
def lock(name="lock"):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, name), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        try:
            yield
        finally:
            fcntl.flock(f, fcntl.LOCK_UN)


def run(cmd, e, cwd=None, timeout=600):
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


_sysroot = []


def sysroot():
    if not _sysroot:
        r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True)
        _sysroot.append(r.stdout.strip())
    return _sysroot[0]


def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(DRIVER, "target")
    r = run(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(DRIVER, "Cargo.toml")], e)
    if r.returncode != 0 or not os.path.exists(BIN):
        raise BuildError("cannot build the MIR dumper:\n" + r.stdout[-3000:])


def _forget(target, pkg):
    """drop cargo's freshness records of one package so that the wrapper runs again"""
    for sub in ("build", ".fingerprint"):
        d = os.path.join(target, "debug", sub)
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n == pkg or n.startswith(pkg + "-"):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def dump(manifest=None, crate="tclifford", target=None, out=None):
    """-> path of the JSON dump of the crate's library target"""
    manifest = manifest or os.path.join(REPO, "Cargo.toml")
    target = target or os.path.join(CACHE, "target")
    out = out or os.path.join(CACHE, "dump-%d.json" % os.getpid())
    with lock():
        if not os.path.exists(BIN):
            build_driver()
        if os.path.exists(out):
            os.unlink(out)
        e = env()
        e["CARGO_TARGET_DIR"] = target
        e["RUSTC_WORKSPACE_WRAPPER"] = BIN
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        e["CLMIR_CRATE"] = crate
        e["CLMIR_OUT"] = out
        _forget(target, crate)
        r = run(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", manifest], e)
        if r.returncode != 0:
            raise BuildError("cargo check failed:\n" + r.stdout[-3000:])
        if not os.path.exists(out):
            raise BuildError("the MIR dumper did not run:\n" + r.stdout[-2000:])
    return out


def setup():
    t = time.time()
    with lock():
        build_driver()
    p = dump()
    n = os.path.getsize(p)
    os.unlink(p)
    print("driver built, dependencies warmed, dump of %d bytes (%.1f s)" % (n, time.time() - t))


if __name__ == "__main__":
    setup()
