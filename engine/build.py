"""Builds the exporter and (re)exports the MIR of /repo's current tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")


def _env():
    env = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/usr/local/bin:" + env.get("PATH", "")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    return env


def source_hash():
    h = hashlib.sha256()
    for base in (REPO, os.path.join(VERIF, "roots"), os.path.join(VERIF, "tools")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class BuildError(Exception):
    pass


def _run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def ensure(parallel=False):
    """-> path of the facts file for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = _env()
        drv = os.path.join(BUILD, "mirdump")
        src = os.path.join(VERIF, "tools/mirdump/main.rs")
        dh = hashlib.sha256(open(src, "rb").read()).hexdigest()
        if not os.path.exists(drv) or _read(drv + ".key") != dh:
            sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env, VERIF).strip()
            _run(["rustc", "+nightly", "--edition", "2021", "-C", "prefer-dynamic", "-O", "-Awarnings",
                  "-C", "link-args=-Wl,-rpath,%s/lib" % sysroot, src, "-o", drv], env, VERIF)
            _write(drv + ".key", dh)
        name = "par" if parallel else "seq"
        facts = os.path.join(BUILD, "facts-%s.json" % name)
        key = source_hash()
        if os.path.exists(facts) and _read(facts + ".key") == key:
            return facts
        for f in (facts, facts + ".key"):
            if os.path.exists(f):
                os.remove(f)
        roots = os.path.join(VERIF, "roots")
        tgt = os.path.join(BUILD, "target-" + name)
        # cargo goes by time stamps, this goes by content: always analyse the roots again
        for sub in ("debug/build", "debug/.fingerprint"):
            d = os.path.join(tgt, sub)
            for x in os.listdir(d) if os.path.isdir(d) else ():
                if x.startswith(("vroots", "zkp-")):
                    shutil.rmtree(os.path.join(d, x))
        env["CARGO_TARGET_DIR"] = tgt
        env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings"
        env["RUSTC_WRAPPER"] = drv
        env["MIRDUMP_OUT"] = facts
        cmd = ["cargo", "+nightly", "check", "--offline"]
        if parallel:
            cmd += ["--features", "parallel"]
        _run(cmd, env, roots)
        if not os.path.exists(facts):
            raise BuildError("the exporter wrote no facts")
        _write(facts + ".key", key)
        return facts


def _read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return None


def _write(p, s):
    with open(p, "w") as f:
        f.write(s)


if __name__ == "__main__":
    print(ensure("parallel" in sys.argv))
