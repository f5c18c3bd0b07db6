"""C14: exit status 0 means the complete output was written."""
import errno
import os
import resource
import subprocess

from vlib import batch, gen, hostile, work

RULE = ("one case = one input (or batch) and one kind of output (file, standard output, store, file and store, each alone or for a batch of modules); first the writing system calls of a fault-free run are counted by an interposed "
        "library, then the run is repeated with a fault at each of them (a sample of them when there are many): an error once or from there on, a short write once or from there on, an interrupted write, a write of nothing, "
        "a short write followed by an error; in addition real faults: a full device, a file size limit, a closed pipe. In part of the cases the outputs exist already, shorter or longer. Whenever the program exits 0, every requested output must hold exactly the bytes of the fault-free "
        "run; whenever it does not, it must say why; short and interrupted writes must be made up for. distinct = (output kind, operation, position, mode, error) classes")
ASSUMPTIONS = ["EBADF on standard output is not injected: the Rust library treats a closed standard output as a sink", "errors reported by close() alone are not covered"]
TECHNIQUE = "system-call fault injection at every output operation of real runs (LD_PRELOAD interposer), completeness oracle on the bytes written"
LEVEL = "exploration"
LEVEL_NOTE = "all operations of small runs, a sample for large ones; every fault mode"
MIN_DISTINCT = 200
QUICK_S, THOROUGH_S = 90, 840
NEEDS = ["plain", "shim"]

KINDS = ["file", "store", "stdout", "both", "batch", "batchout", "pairstore", "pairfile", "real", "storeout", "dash"]
ERRS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EPIPE, errno.EROFS, errno.EACCES, errno.ENXIO]
MODES = ["err", "errall", "short", "shortall", "eintr", "zero", "shorterr"]


def cases(ctx):
    n = 176 if ctx.tier == "quick" else 3300
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def put(ctx, name, m):
    p = ctx.path("in", name)
    with open(p, "wb") as f:
        f.write(m)
    return p


def inputs(ctx, kind):
    rng = ctx.rng
    big = rng.choice([dict(cus=1, funcs=2), dict(cus=2, funcs=6), dict(cus=4, funcs=12, text=0x6000), dict(cus=6, funcs=30, text=0x20000, publics=40)])
    if kind in ("batch", "batchout"):
        return [put(ctx, "m%d.so" % i, gen.Mod(rng, soname=b"m%d.so" % i, **big).full()) for i in range(rng.choice([2, 3, 5]))]
    if kind.startswith("pair"):
        m = gen.Mod(rng, soname=b"p.so", **big)
        return [put(ctx, "p.so", m.stripped()), put(ctx, "p.debug", m.debug_only())]
    if rng.random() < 0.25:
        return [work.Work(ctx, rng.choice(["macho", "mingw", "pdb64"]), dir=ctx.path("in", "x")[:-2]).path]
    if rng.random() < 0.15:
        # almost nothing: everything still sits in the buffer when the module ends
        return [put(ctx, "s.so", gen.Mod(rng, cus=0, publics=0, extra_exec=0, fdes=rng.random() < 0.5, soname=b"s.so").full())]
    return [put(ctx, "a.so", gen.Mod(rng, soname=b"a.so", **big).full())]


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    files = inputs(ctx, kind)
    opts = ["-j", str(rng.choice([1, 2, 4]))] + (["--inlines"] if rng.random() < 0.5 else [])
    k = [0]
    older = {}

    def go(env=None, **kw):
        """One run with fresh outputs; returns (run, outputs)."""
        k[0] += 1
        root = os.path.join(ctx.work, "out%d" % k[0])
        os.makedirs(root)
        fo, st = os.path.join(root, "o.sym"), os.path.join(root, "st", "deep")
        a = {"file": ["-o", fo], "pairfile": ["-o", fo], "store": ["--store", st], "stdout": [], "batchout": [], "dash": ["-o", "-"], "both": ["-o", fo, "--store", st],
             "batch": ["--store", st], "pairstore": ["--store", st], "storeout": ["-o", "-", "--store", st]}[kind]
        if older:
            # what a previous run left
            for x, b in older.items():
                q = os.path.join(root, x)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "wb") as f:
                    f.write(b)
        e = dict(env or {})
        if e:
            e.update(LD_PRELOAD=ctx.bins["shim"], SHIM_ROOT=root, SHIM_LOG=os.path.join(ctx.work, "log%d" % k[0]))
            if a == [] or "-" in a:
                e["SHIM_STDOUT"] = "1"
        r = ctx.dump(*opts, *a, *files, env=e, **kw)
        t = batch.tree(root)
        if a == [] or "-" in a:
            b = batch.blocks(r.out)
            t["<stdout>"] = r.out if kind != "batchout" or b is None else b"".join(sorted(b))
        log = []
        if e:
            try:
                with open(e["SHIM_LOG"]) as f:
                    log = [l.split() for l in f.read().splitlines()]
                os.unlink(e["SHIM_LOG"])
            except OSError:
                pass
        subprocess.run(["rm", "-rf", root])
        return r, t, log

    if kind == "real":
        return real(ctx, files, opts)
    r, ref, _ = go()
    if not r.ok:
        ctx.violation("a fault-free run fails: " + r.describe())
        return
    if rng.random() < 0.4:
        # from here on the outputs exist already: shorter, of the same length, longer
        for x, b in ref.items():
            if x != "<stdout>":
                older[x] = rng.choice([b"", b"old\n", b"STACK" * 9 + b[45:], b + b"PUBLIC ffff 0 old\n" * rng.choice([1, 3000])])
    r, t, log = go({"SHIM_MODE": "none"})
    if r.ok and t != ref and older:
        bad = [x for x, b in ref.items() if t.get(x) != b][0]
        ctx.violation("%s: exit 0, but %s, which existed, does not hold the %d bytes of the dump" % (kind, bad, len(ref[bad])))
        return
    if not r.ok or t != ref:
        raise RuntimeError("the counting run differs: %s" % r.describe())
    if not log:
        raise RuntimeError("no output operation seen")
    n = len(log)
    ctx.tick("output operations in fault-free runs", n)
    limit = 14 if ctx.tier == "quick" else 30
    pos = list(range(1, n + 1))
    if n > limit:
        pos = sorted(set(pos[:5] + pos[-5:] + rng.sample(pos, limit - 10)))
    for p in pos:
        modes = MODES if ctx.tier != "quick" else ["err"] + rng.sample(MODES[1:], 2)
        for mode in modes:
            if log[p - 1][1] not in ("write", "writev", "pwrite") and mode not in ("err", "errall"):
                continue
            en = rng.choice(ERRS)
            r, t, l2 = go({"SHIM_MODE": mode, "SHIM_AT": str(p), "SHIM_ERR": str(en)})
            hit = [x for x in l2 if x[3] != "go"]
            what = "%s: %s at operation %d of %d (%s)%s" % (kind, mode, p, n, log[p - 1][1], " errno %s" % errno.errorcode[en] if "err" in mode else "")
            if r.hang:
                if r.hang == "slow":
                    continue
                ctx.violation("%s: the run never ends (%s)" % (what, r.hang))
                continue
            if not hit:
                continue
            ctx.tick("faults injected", len(hit))
            complete = all(t.get(x) == b for x, b in ref.items())
            if r.rc == 0:
                if not complete:
                    bad = [x for x, b in ref.items() if t.get(x) != b][0]
                    ctx.violation("%s: exit 0, but %s has %s of %d bytes" % (what, bad, len(t[bad]) if bad in t else "none", len(ref[bad])))
            elif not r.err.strip():
                ctx.violation("%s: exit %s without a message" % (what, r.rc))
            if mode in ("short", "shortall", "eintr") and r.rc != 0:
                ctx.violation("%s: the rest is not written: %s" % (what, r.describe()))
            ctx.tick("exit 0 complete" if r.rc == 0 else "exit non-zero")
            ctx.seen(kind, log[p - 1][1], "first" if p == 1 else "last" if p == n else "inner", mode, errno.errorcode[en] if "err" in mode else "")
            if len(ctx.violations) >= 3:
                return
    if case["i"] < 3:
        ctx.sample = {"case": case, "operations": [" ".join(x[1:3]) for x in log][:12], "outputs": {x: len(b) for x, b in ref.items()}}


def real(ctx, files, opts):
    """Faults the kernel itself produces."""
    rng = ctx.rng
    base = ctx.dump_ok(*opts, *files)
    size = len(base.out)

    def judge(what, rc, err, good):
        ctx.evals += 1
        if rc == 0 and not good:
            ctx.violation("%s: exit 0" % what)
        if rc not in (0, -25) and not err.strip():
            ctx.violation("%s: exit %s without a message" % (what, rc))
        ctx.tick("real faults")
        ctx.seen("real", what.split(" of ")[0])

    b = ctx.bins["plain"]
    q = dict(stderr=subprocess.PIPE, timeout=100)
    p = subprocess.run([b] + opts + ["-o", "/dev/full"] + files, stdout=subprocess.DEVNULL, **q)
    judge("-o /dev/full", p.returncode, p.stderr, False)
    with open("/dev/full", "wb") as f:
        p = subprocess.run([b] + opts + files, stdout=f, **q)
    judge("standard output on /dev/full", p.returncode, p.stderr, False)
    for lim in sorted({0, 1, size // 2, size - 1, size, size + 1, rng.randrange(size), min(8192, size), size // 8192 * 8192}):
        o = ctx.path("lim.sym")
        for how in ("file", "stdout"):
            if os.path.exists(o):
                os.unlink(o)
            a = ["-o", o] if how == "file" else []
            with open(o if how == "stdout" else os.devnull, "wb") as f:
                # SIGXFSZ is left at its default or ignored
                ign = rng.random() < 0.7
                import signal

                def pre():
                    if ign:
                        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    else:
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                p = subprocess.run([b] + opts + a + files, stdout=f, preexec_fn=pre, restore_signals=False, **q)
            with open(o, "rb") as f:
                got = f.read()
            judge("a limit of %d for %d bytes (%s)" % (lim, size, how), p.returncode, p.stderr, got == base.out)
    # a reader that goes away
    rd, wr = os.pipe()
    os.close(rd)
    p = subprocess.run([b] + opts + files, stdout=wr, **q)
    os.close(wr)
    judge("a closed pipe", p.returncode, p.stderr, False)
    # a store below a file
    f = ctx.write("plainfile", b"x")
    p = subprocess.run([b] + opts + ["--store", f] + files, stdout=subprocess.PIPE, **q)
    judge("a store that is a file", p.returncode, p.stderr, False)
