"""Builds the observed programs from /repo's current working tree."""
import fcntl
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
if "VERIF_REPO" in os.environ:  # another tree must not replace what is built from /repo
    BUILD += "-" + "".join(c if c.isalnum() else "_" for c in REPO)


class BuildError(Exception):
    pass


def _env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "RUST_BACKTRACE", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
            e.pop(k)
    e.setdefault("HOME", "/root")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e


def _sh(cmd, env=None, cwd=None, timeout=850):
    p = subprocess.run(cmd, env=env or _env(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))
    return p.stdout


def _touch():
    # cargo goes by modification times; a restored file can carry an old one
    for f in ("lib.rs", "main.rs"):
        p = os.path.join(REPO, "src", f)
        if os.path.exists(p):
            os.utime(p)


def plain():
    """The binary exactly as /opt/vp/build.sh builds it (same profile and target directory)."""
    tgt = os.path.join(REPO, "target")
    _sh(["cargo", "build", "--offline", "--bin", "dump_syms"], cwd=REPO, env=_env(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", CARGO_TARGET_DIR=tgt))
    # a private copy: whatever else builds in the target directory cannot change it under us
    dst = os.path.join(BUILD, "dump_syms-plain")
    src = os.path.join(tgt, "debug", "dump_syms")
    subprocess.run(["cp", "-f", src, dst + ".tmp"], check=True)
    os.rename(dst + ".tmp", dst)
    return dst


def _nightly(flags, target, extra_env=None, extra=(), profile=()):
    tgt = os.path.join(BUILD, target)
    env = _env(RUSTFLAGS=flags, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", **(extra_env or {}))
    _sh(["cargo", "+nightly", "build", "--offline", "--bin", "dump_syms", "--target", "x86_64-unknown-linux-gnu"] + list(extra),
        cwd=REPO, env=env)
    return os.path.join(tgt, "x86_64-unknown-linux-gnu", "debug", "dump_syms")


def sched():
    """dump_syms with every atomic operation instrumented and our own runtime behind it: a
    seeded schedule perturber (native/sched.c)."""
    obj = os.path.join(BUILD, "sched.o")
    _sh(["clang", "-O2", "-fPIC", "-c", os.path.join(VERIF, "native", "sched.c"), "-o", obj])
    b = _nightly("-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=%s -Clink-arg=-lpthread" % obj, "sched")
    with open(os.path.join(BUILD, "sched.focus"), "w") as f:
        f.write(focus(b))
    return b


def focus(binary):
    """Address ranges of the functions of the program that coordinate the threads (module dumper), for SCHED_FOCUS."""
    import bisect
    nm = _sh(["nm", "-n", "--defined-only", binary]).decode("utf-8", "replace")
    addrs, want = [], []
    for l in nm.splitlines():
        f = l.split()
        if len(f) != 3 or f[1] not in "tTwW":
            continue
        a = int(f[0], 16)
        addrs.append(a)
        if "9dump_syms6dumper" in f[2] and f[2].startswith(("_RNvNt", "_RNCNvNt", "_RNvMNt", "_RNvXNt", "_RNvNtB")) or ("9dump_syms6dumper" in f[2] and f[2].startswith("_ZN")):
            want.append(a)
    addrs = sorted(set(addrs))
    out = []
    for a in want[:500]:
        i = bisect.bisect_right(addrs, a)
        out.append("%x-%x" % (a, addrs[i] if i < len(addrs) else a + 4096))
    return ",".join(out)


def tsan():
    """ThreadSanitizer, standard library included."""
    return _nightly("-Zsanitizer=thread", "tsan", extra=["-Zbuild-std=std,panic_abort"] if False else ["-Zbuild-std"])


def asan():
    return _nightly("-Zsanitizer=address", "asan")


def embed():
    """The embedding program of C27: the library as a dependency of another crate (sharing /repo's target directory)."""
    src = os.path.join(BUILD, "embed")
    os.makedirs(os.path.join(src, "src"), exist_ok=True)
    with open(os.path.join(VERIF, "embed", "Cargo.toml")) as f:
        t = f.read()
    files = {"Cargo.toml": t.replace('path = "/repo"', 'path = "%s"' % REPO)}
    # the versions of /repo, so that nothing is resolved anew
    for d, n in ((REPO, "Cargo.lock"), (os.path.join(VERIF, "embed"), "src/main.rs")):
        with open(os.path.join(d, n)) as f:
            files[n] = f.read()
    for n, t in files.items():
        p = os.path.join(src, n)
        if n != "Cargo.lock" and os.path.exists(p) and open(p).read() == t:
            continue
        with open(p, "w") as f:
            f.write(t)
    tgt = os.path.join(REPO, "target")
    _sh(["cargo", "build", "--offline"], cwd=src, env=_env(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", CARGO_TARGET_DIR=tgt))
    dst = os.path.join(BUILD, "embed-plain")
    subprocess.run(["cp", "-f", os.path.join(tgt, "debug", "embed"), dst + ".tmp"], check=True)
    os.rename(dst + ".tmp", dst)
    return dst


def shim():
    out = os.path.join(BUILD, "shim.so")
    _sh(["gcc", "-O2", "-fPIC", "-shared", "-Wall", os.path.join(VERIF, "native", "shim.c"), "-o", out, "-ldl", "-lpthread"])
    return out


def rshim():
    out = os.path.join(BUILD, "rshim.so")
    _sh(["gcc", "-O2", "-fPIC", "-shared", "-Wall", "-Wno-format-truncation", os.path.join(VERIF, "native", "rshim.c"), "-o", out, "-ldl"])
    return out


RECIPES = {"plain": plain, "sched": sched, "tsan": tsan, "asan": asan, "shim": shim, "rshim": rshim, "embed": embed}


def ensure(needs):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _touch()
        return {n: RECIPES[n]() for n in needs}
