"""Builds the MIR driver on demand and dumps the MIR of /repo's current working tree."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    return e


def run(cmd, e, cwd):
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot(e):
    rc, o = run(["rustc", "--print", "sysroot"], e, "/")
    if rc:
        raise SystemExit("no nightly rustc: " + o)
    return o.strip()


def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for d in ("src", "build", "spec"):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def build_driver(e):
    src = [os.path.join(VERIF, "driver", x) for x in ("Cargo.toml", "src/main.rs")]
    h = filehash(src)
    exe = os.path.join(WORK, "driver", "debug", "mirdump")
    stamp = os.path.join(WORK, "driver.stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe, h
    e = dict(e)
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "driver")
    rc, o = run(["cargo", "build", "--offline"], e, os.path.join(VERIF, "driver"))
    if rc:
        sys.stderr.write(o)
        raise SystemExit(3)
    open(stamp, "w").write(h)
    return exe, h


def dump():
    """path of the MIR dump for the current tree"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        exe, dh = build_driver(e)
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy("/opt/vp/locks/Cargo.lock", lock)
        h = filehash(repo_files())
        out = os.path.join(WORK, "mir-%s-%s.json" % (dh[:8], h))
        if os.path.exists(out):
            return out
        td = os.path.join(WORK, "target")
        # cargo's freshness cache must not skip the wrapper
        for pat in ("debug/.fingerprint/dxf-*", "debug/build/dxf", "debug/build/dxf-*", "debug/deps/*dxf-*", "debug/incremental/dxf-*"):
            for p in glob.glob(os.path.join(td, pat)):
                if os.path.isdir(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)
        e["CARGO_TARGET_DIR"] = td
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["LD_LIBRARY_PATH"] = sysroot(e) + "/lib"
        e["MIRDUMP_CRATE"] = "dxf"
        e["MIRDUMP_OUT"] = out + ".tmp"
        e["CARGO_INCREMENTAL"] = "0"
        if os.path.exists(out + ".tmp"):
            os.unlink(out + ".tmp")
        rc, o = run(["cargo", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml")], e, REPO)
        if rc or not os.path.exists(out + ".tmp"):
            sys.stderr.write(o)
            raise SystemExit(3)
        old = sorted(glob.glob(os.path.join(WORK, "mir-*.json")), key=os.path.getmtime)
        for p in old[:-3]:
            os.unlink(p)
        os.rename(out + ".tmp", out)
        return out


if __name__ == "__main__":
    print(dump())
