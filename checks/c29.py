"""C29: disturbed reading never yields a wrong dump."""
import errno
import hashlib
import json
import os
import shutil
import threading
import time

from vlib import cab, common, gen, macho, msf, work
from vlib.elf import headers_first

RULE = ("one case = one run that reads files (an input of each container, a pair, a batch, a cabinet, a bundle, a fat file, an executable or PDB beside the input, a mapping file, a source file for its digest, "
        "a server configuration, a cached file), repeated with a shim that shortens every read, interrupts reads, or lets one operation (open or read, all of them in turn up to a bound) on one file fail, "
        "for good or once; also inputs that are pipes. The outcome must be the undisturbed one or, when a file fails, that of the documented fallback. distinct = distinct (kind, file, disturbance, operation class, outcome) classes")
ASSUMPTIONS = ["faults are injected in the C library's open and read functions, by path", "a failing read of a file that is not required counts as if this file did not exist"]
TECHNIQUE = "fault injection on reads (LD_PRELOAD), differential monitor of outputs, status and messages"
LEVEL = "exploration"
LEVEL_NOTE = "generated modules; operations of every file read are failed one by one, sampled when there are many"
MIN_DISTINCT = 60
QUICK_S, THOROUGH_S = 90, 840
NEEDS = ["plain", "rshim"]

KINDS = ["one", "pair", "batch", "cab", "dsym", "fat", "exepdb", "pdbexe", "mapfile", "digest", "config", "cached", "list", "one", "fifo", "fifopair", "byid"]
MAPPING = {"variables": {"rev": "12ab"}, "mappings": [{"source": "^(.*)/([^/]*)$", "destination": "x:{rev}:{2}:{1}", "files": []}]}
ERRS = [errno.EIO, errno.EIO, errno.EACCES, errno.EISDIR, errno.ENOMEM, errno.ESTALE]


def cases(ctx):
    n = 340 if ctx.tier == "quick" else 6800
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, d)] = g.read()
    return out


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    root = ctx.path("in", "x")[:-2]
    os.makedirs(root, exist_ok=True)
    home = ctx.path("home", "x")[:-2]
    os.makedirs(home, exist_ok=True)
    watch = root
    inl = ["--inlines"] if rng.random() < 0.4 else []

    def put(name, b):
        p = os.path.join(root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b if isinstance(b, bytes) else b.encode())
        return p

    def single(name="m", conts=("elf", "elf", "elf32", "macho", "mingw", "pdb64", "pdb32")):
        w = work.Work(ctx, rng.choice(conts), rng.choice(["plain", "plain", "dense", "split"]), name=name, dir=root)
        if w.exe:
            os.unlink(w.exe)
        if w.container == "elf":
            put(os.path.basename(w.path), elf(open(w.path, "rb").read()))
        return w.path

    def elf(b):
        # with its section headers in front, the part of a file which has been read looks complete
        return headers_first(b) if rng.random() < 0.7 else b

    opts, files = list(inl), []
    required = set()          # the run fails without these
    without = []              # the run does without these
    if kind in ("one", "fifo"):
        files = [single()]
    elif kind in ("pair", "fifopair"):
        m = gen.Mod(rng, **dict(dyn=2, build_id=rng.randbytes(20)))
        files = [put("m.so", elf(m.stripped())), put("m.debug", elf(m.debug_only()))]
        if rng.random() < 0.5:
            files.reverse()
    elif kind == "batch":
        for k in range(rng.choice([2, 3, 5])):
            m = gen.Mod(rng, build_id=rng.randbytes(20))
            files.append(put("d%d/m%d.so" % (k, k), elf(m.full())))
        opts += ["-j", str(rng.choice([1, 2, 4]))]
    elif kind == "cab":
        p = single(conts=("pdb64", "mingw"))
        e = {"pdb": "pd_", "dll": "dl_"}[p.rsplit(".", 1)[1]]
        files = [put("m." + e, cab.build([[(os.path.basename(p), open(p, "rb").read())]], mszip=rng.random() < 0.5))]
        os.unlink(p)
    elif kind == "dsym":
        w = work.Work(ctx, "dsymfile", "plain", dir=ctx.path("t", "x")[:-2])
        put("m.dSYM/Contents/Resources/DWARF/m", open(w.path, "rb").read())
        files = [os.path.join(root, "m.dSYM")]
    elif kind in ("fat", "list"):
        sl = []
        for c in rng.sample(["x86_64", "arm64"], rng.choice([1, 2])):
            sl.append((c, macho.MachO(macho.adapt(gen.Mod(rng, **macho.opts())), cpu=c, uuid=rng.randbytes(16)).build()))
        files = [put("f.dylib", macho.fat(sl))]
        opts += ["--arch", sl[-1][0]] if kind == "fat" else ["--list-arch"]
    elif kind in ("exepdb", "pdbexe"):
        w = work.Work(ctx, rng.choice(["pdb64", "pdb32"]), "plain", name="m", dir=root)
        files, other = ([w.exe], w.path) if kind == "exepdb" else ([w.path], w.exe)
        without.append(other)
    elif kind == "mapfile":
        files = [single(conts=("elf",))]
        mf = put("map.json", json.dumps(MAPPING))
        opts += ["--mapping-file", mf]
        required.add(mf)
    elif kind == "digest":
        m = gen.Mod(rng)
        src = put("src/real.c", rng.randbytes(rng.choice([10, 5000, 90000])))
        for cu in m.cus:
            cu.files = [(d, src.encode()) for d, _ in cu.files]
        files = [put("m.so", elf(m.full()))]
        opts += ["--mapping-src", "^(.*)$", "--mapping-dest", "d:{digest}:{1}"]
        without.append(src)
    elif kind in ("config", "cached"):
        w = work.Work(ctx, "pdb64", "plain", name="m", dir=root)
        g, age = rng.randbytes(16), 1
        pdb = msf.with_id(open(w.path, "rb").read(), g, age)
        exe = msf.pe_with_id(open(w.exe, "rb").read(), g, age)
        os.unlink(w.path)
        files = [put("m.dll", exe)]
        if os.path.basename(w.exe) != "m.dll":
            os.unlink(w.exe)
        c = put("cache/m.pdb/%s/m.pdb" % msf.text(g, age), pdb)
        spec = "SRV*%s*http://127.0.0.1:1" % os.path.join(root, "cache")
        if kind == "config":
            home = os.path.join(root, "home")
            required.add(put("home/.dump_syms/config", spec))
        else:
            opts += ["--symbol-server", spec]
        without.append(c)
    elif kind == "byid":
        m = gen.Mod(rng)
        key = "".join(rng.choices("0123456789ABCDEF", k=33))
        required.add(put("cache/m.so/%s/m.so" % key, elf(m.full())))
        opts += ["--symbol-server", "SRV*%s*http://127.0.0.1:1" % os.path.join(root, "cache"), rng.choice(["--debug-id", "--code-id"]), key]
    for f in files:
        required.add(f if os.path.isfile(f) else os.path.join(f, "Contents/Resources/DWARF/m"))

    if kind == "byid":
        files = ["m.so"]
    outs = rng.choice(["store", "file", "stdout", "both"]) if kind != "batch" else "store"
    if kind == "list":
        outs = "stdout"
    n = [0]

    def go(env, fs=files):
        n[0] += 1
        d = ctx.path("out%d" % n[0], "x")[:-2]
        os.makedirs(d, exist_ok=True)
        a = {"store": ["--store", os.path.join(d, "st")], "file": ["-o", os.path.join(d, "o.sym")], "stdout": [], "both": ["-o", os.path.join(d, "o.sym"), "--store", os.path.join(d, "st")]}[outs]
        e = {"HOME": home}
        if env is not None:
            e.update(LD_PRELOAD=ctx.bins["rshim"], RSHIM_ROOT=os.path.realpath(watch), RSHIM_LOG=os.path.join(ctx.work, "log"), **env)
        if os.path.exists(os.path.join(ctx.work, "log")):
            os.unlink(os.path.join(ctx.work, "log"))
        r = ctx.dump(*opts, *a, *fs, env=e, cwd=home)
        if r.hang == "slow":
            raise common.Inconclusive("watchdog: " + r.describe())
        t = tree(d)
        if r.out:
            t["<stdout>"] = r.out
        shutil.rmtree(d)
        log = []
        if env is not None and os.path.exists(os.path.join(ctx.work, "log")):
            with open(os.path.join(ctx.work, "log"), errors="surrogateescape") as f:
                log = [l.rstrip("\n").split(" ", 2) for l in f]
        return r, t, log

    ref, want, _ = go(None)
    if ref.hang or ref.rc or not want:
        raise RuntimeError("the undisturbed run fails: " + ref.describe())

    if kind.startswith("fifo"):
        pdir = ctx.path("pipes", "x")[:-2]
        os.makedirs(pdir, exist_ok=True)
        pipes, stop = [], []
        for f in files:
            p = os.path.join(pdir, os.path.basename(f))
            os.mkfifo(p)
            pipes.append(p)

        def feed(p, b, step):
            fd = os.open(p, os.O_WRONLY)
            try:
                for o in range(0, len(b), step):
                    os.write(fd, b[o:o + step])
                    if stop:
                        return
                    if rng.random() < 0.05:
                        time.sleep(0.001)
            except OSError:
                pass
            finally:
                os.close(fd)
        ths = [threading.Thread(target=feed, args=(p, open(f, "rb").read(), rng.choice([100, 4096, 65536, 1 << 20])), daemon=True) for p, f in zip(pipes, files)]
        for t in ths:
            t.start()
        r, got, _ = go(None, pipes)
        stop.append(1)
        for p in pipes:          # free a feeder nobody listens to
            try:
                os.close(os.open(p, os.O_RDONLY | os.O_NONBLOCK))
            except OSError:
                pass
        judge(ctx, "%s, read from pipes" % kind, r, got, [(ref.rc, want)], None)
        ctx.tick("pipes", len(pipes))
        ctx.seen(kind, files[0].rsplit(".", 1)[-1], outs)
        return

    # what the run gives without the files it can do without
    fallback = {}
    for f in without:
        os.rename(f, f + ".away")
        r, t, _ = go(None)
        os.rename(f + ".away", f)
        if r.rc or not t or t == want:
            raise RuntimeError("the run without %s: %s" % (f, r.describe()))
        if kind == "digest" and any(b"\nFILE " in b and b" d:" in b for b in t.values()):
            ctx.violation("digest: a source file which is not there has a digest")
        fallback[os.path.realpath(f)] = t

    r, got, log = go({"RSHIM_MODE": "none"})
    judge(ctx, "%s, watched" % kind, r, got, [(0, want)], None)
    need = {os.path.realpath(f) for f in required}
    ops = {}
    for what, _, f in log:
        ops.setdefault(f, []).append(what)
    for f in list(need) + list(fallback):
        if f not in ops:
            raise RuntimeError("%s is not read" % f)
    ctx.tick("operations observed", len(log))

    for mode, capn in [("short", rng.choice([7, 61, 100])), ("short", rng.choice([512, 4097, 30000])), ("eintr", 0)]:
        r, got, l2 = go({"RSHIM_MODE": "none" if mode == "short" else mode, "RSHIM_CAP": str(capn)})
        judge(ctx, "%s, %s reads %s" % (kind, mode, capn or ""), r, got, [(0, want)], None)
        ctx.tick("%s reads" % mode, len(l2))
        ctx.seen(kind, mode, capn)

    for f in sorted(need | set(fallback)):
        # read at once, or in a few pieces
        size = os.path.getsize(f)
        for capn in (0, size // rng.choice([2, 3, 4, 7]) + 1, size - rng.randrange(1, max(2, size // 6))):
            todo = ops[f]
            if capn:
                r, got, log = go({"RSHIM_MODE": "none", "RSHIM_CAP": str(capn)})
                judge(ctx, "%s, reads of at most %d" % (kind, capn), r, got, [(0, want)], None)
                todo = [w for w, _, g in log if g == f]
            at = list(range(1, len(todo) + 1))
            if len(at) > 6:
                at = at[:3] + rng.sample(at[3:-1], 2) + at[-1:]
            for p in at:
                mode = rng.choice(["err", "errall", "errall"])
                en = rng.choice(ERRS)
                r, got, l2 = go({"RSHIM_MODE": mode, "RSHIM_FILE": f, "RSHIM_AT": str(p), "RSHIM_ERR": str(en), "RSHIM_CAP": str(capn)})
                hit = sum(1 for x in l2 if x[1] == "1")
                what = "%s, operation %d (%s) of %s fails with %s" % (kind, p, todo[p - 1], os.path.relpath(f, root), errno.errorcode[en])
                oks = [(0, want)]
                if f in fallback:
                    oks.append((0, fallback[f]))
                which = judge(ctx, what, r, got, oks, want if f in need else None)
                ctx.tick("failed operations", hit)
                ctx.seen(kind, os.path.basename(f), mode, bool(capn), todo[p - 1], p if p < 4 else "+", which)
    ctx.sample = {"kind": kind, "files": {os.path.relpath(f, root): len(x) for f, x in ops.items()}, "output": outs}


def judge(ctx, what, r, got, oks, refuse):
    """oks: acceptable (status, outputs); refuse: the complete outputs when a refusal is acceptable too."""
    for k, (rc, t) in enumerate(oks):
        if not r.hang and r.rc == rc and got == t:
            return "same" if not k else "fallback"
    if refuse is not None and not r.hang and r.rc is not None and r.rc > 0:
        if not r.err.strip():
            ctx.violation("%s: no message" % what)
        for name, b in got.items():
            if refuse.get(name) != b:
                ctx.violation("%s: the failing run leaves %s with %d bytes, which is not what a good run writes" % (what, name, len(b)))
        if len(refuse) == 1 and got:
            ctx.violation("%s: the run fails and still writes %s" % (what, sorted(got)))
        return "refused"
    ctx.violation("%s: status %s, hang %s, outputs %s; acceptable: %s%s; stderr %r" % (
        what, r.rc, r.hang, {n: (len(b), hashlib.sha256(b).hexdigest()[:8]) for n, b in got.items()},
        [(rc, {n: (len(b), hashlib.sha256(b).hexdigest()[:8]) for n, b in t.items()}) for rc, t in oks], " or a refusal" if refuse is not None else "", r.err[-300:]))
    return "wrong"
