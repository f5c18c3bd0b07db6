"""C12: a failing input never hangs a batch and never passes as success."""
import errno
import os
import shutil

from vlib import batch, gen, work
from vlib.common import Inconclusive

RULE = ("one case = one batch of 1-12 good modules plus 1-3 inputs or outputs that must fail (missing file, dangling link, directory, empty dSYM bundle, empty, unknown format, cut short, "
        "broken cabinet, wrong architecture of a fat file, no unwind data under --check-cfi, everything merged into one module without them, blocked store directory, symbol file or output file, a failing write, open or mkdir), at random positions, with 0-64 jobs, run by the ordinary build and "
        "by the instrumented build under seeded schedules; it must end by itself, exit non-zero with a message, and every symbol file it left for a module without failing input must "
        "equal that module's own dump. distinct = (fault kinds, position, jobs, #modules, what was left) classes and interleavings")
ASSUMPTIONS = ["unreadable means missing, a directory or a dangling link: the checks run as root, for whom permissions do not exist"]
TECHNIQUE = "fault injection into batches under schedule fuzzing, with a deadlock detector on thread states and an equality oracle on what is left behind"
LEVEL = "exploration"
LEVEL_NOTE = "random fault kinds and positions under perturbed schedules"
MIN_DISTINCT = 150
QUICK_S, THOROUGH_S = 100, 840
NEEDS = ["plain", "sched", "shim"]
JOBS = 16

INPUT_FAULTS = ["missing", "dangling", "dir", "emptydsym", "empty", "junk", "cut", "cab", "fat", "nocfi", "nocfionly"]
OUTPUT_FAULTS = ["storefile", "symdir", "namefile", "outdir", "outnodir", "nospace", "outnospace"]


def cases(ctx):
    n = 260 if ctx.tier == "quick" else 6000
    shapes = ["few", "pairs", "one", "few", "many", "pairs", "few", "few"]
    ks = INPUT_FAULTS + OUTPUT_FAULTS
    return [{"i": i, "shape": shapes[(i // 3) % len(shapes)], "fault": ks[i % len(ks)]} for i in range(n)]


def bad_input(ctx, kind, k):
    rng = ctx.rng
    p = ctx.path("bad", str(k), rng.choice(["bad.so", "x.dll", "y.pdb", "noext", "z.dSYM"]))
    if kind == "missing":
        return p
    if kind == "dangling":
        os.symlink("nothing", p)
    elif kind == "dir":
        os.makedirs(p)
    elif kind == "emptydsym":
        os.makedirs(p + "/Contents/Resources/DWARF")
    elif kind == "empty":
        open(p, "w").close()
    elif kind == "junk":
        with open(p, "wb") as f:
            f.write(rng.choice([b"hello world, no object file", b"\x7fELG" + b"\0" * 200, bytes(rng.randrange(1, 255) for _ in range(999)), b"MODULE Linux x86_64 000 x\n"]))
    elif kind == "cut":
        m = gen.Mod(rng)
        with open(p, "wb") as f:
            f.write(m.full()[:rng.choice([4, 16, 40, 63])])
    elif kind == "cab":
        from vlib import cab
        c = cab.build([[("other.pdb", b"x" * 300)]])
        p = ctx.path("bad", str(k), "m.pd_")
        with open(p, "wb") as f:
            f.write(c)
    elif kind == "fat":
        from vlib import macho
        a = macho.MachO(macho.adapt(gen.Mod(rng, cus=1, **macho.opts())), cpu="arm64").build()
        b = macho.MachO(macho.adapt(gen.Mod(rng, cus=1, **macho.opts())), cpu="x86_64").build()
        with open(p, "wb") as f:
            f.write(macho.fat([("arm64", a), ("x86_64", b)]))
    elif kind == "nocfi":
        m = gen.Mod(rng, fdes=False, soname=b"nocfi%d.so" % k)
        with open(p, "wb") as f:
            f.write(m.full())
    return p


def run_case(ctx, case):
    rng = ctx.rng
    b = batch.Batch(ctx, case["shape"])
    opts = ["--inlines"] if rng.random() < 0.3 else []
    kind = case["fault"]
    b.reference(*opts)
    faults = [kind] if kind in INPUT_FAULTS else []
    while rng.random() < 0.25:
        faults.append(rng.choice(INPUT_FAULTS[:7]))
    if "fat" in faults:
        opts += ["--arch", "i386"]
    if "nocfi" in faults or "nocfionly" in faults:
        opts += ["--check-cfi"]
    files = list(b.files)
    if "nocfionly" in faults:
        # everything is merged into one module, which has no unwind data
        faults = ["nocfionly"]
        m = gen.Mod(rng, fdes=False, soname=b"nocfi.so", dyn=2)
        files = [ctx.write("bad/s.so", m.stripped()), ctx.write("bad/d.so", m.debug_only())] + ([ctx.write("bad/f.so", m.full())] if rng.random() < 0.4 else [])
        rng.shuffle(files)
    for k, f in enumerate(faults if faults != ["nocfionly"] else []):
        files.insert(rng.choice([0, len(files), rng.randrange(len(files) + 1)]), bad_input(ctx, f, k))
    pos = [files.index(f) for f in files if f not in b.files]
    victims = set()
    n = 4 if ctx.tier == "quick" else 6
    for k in range(n):
        jobs = rng.choice([0, 1, 2, 2, 3, 4, 4, 8, 64])
        top = ctx.path("run%d" % k, "x")[:-2]
        st = os.path.join(top, "st")
        out = ["--store", st]
        blocked = None
        if kind == "storefile":
            open(st, "w").close()
        elif kind in ("symdir", "namefile"):
            v = rng.choice(sorted(b.expect))
            if kind == "symdir":
                os.makedirs(os.path.join(st, v))
            else:
                blocked = os.path.join(st, v.split("/")[0])
                os.makedirs(st)
                open(blocked, "w").close()
        elif kind in ("outdir", "outnodir"):
            # the module is written to the store and to a file that cannot be opened
            o = os.path.join(top, "o")
            if kind == "outdir":
                os.makedirs(o)
            else:
                o += "/no/file.sym"
            out = rng.choice([["--store", st, "-o", o], ["-o", o]])
        env = {}
        if kind in ("nospace", "outnospace"):
            # the n-th writing operation fails, and in half of the runs each one after it
            env = dict(LD_PRELOAD=ctx.bins["shim"], SHIM_ROOT=top, SHIM_LOG=os.path.join(ctx.work, "shimlog%d" % k), SHIM_MODE=rng.choice(["err", "errall"]), SHIM_ERR=str(rng.choice([errno.ENOSPC, errno.EIO])))
            o = os.path.join(top, "o.sym")
            os.makedirs(st)
            if kind == "outnospace":
                # several modules in one file: only the failure matters
                out += ["-o", rng.choice(["-", o])]
                if out[-1] == "-":
                    env["SHIM_STDOUT"] = "1"
            env["SHIM_AT"] = str(rng.randrange(1, 4 * len(b.mods) + 1))
        fl = files if len(files) > 1 else files * 2
        args = opts + ["-j", str(jobs)] + out + fl
        what = "faults=%s at %r of %d, jobs=%d" % (faults or kind, pos, len(files), jobs)
        if k == 0:
            r = ctx.dump(*args, env=env)
        else:
            mode, seed = rng.choice(batch.MODES), rng.randrange(1 << 30)
            what += " schedule=%s/%d" % (mode, seed)
            r, _ = batch.perturbed(ctx, mode, seed, *args, env=env)
        if r.hang == "slow":
            raise Inconclusive("watchdog: " + r.describe())
        if r.hang:
            ctx.violation("%s: the batch never ends (%s)" % (what, r.hang))
            return
        hit = None
        if env:
            try:
                with open(env["SHIM_LOG"]) as f:
                    hit = [l.split() for l in f.read().splitlines()]
                os.unlink(env["SHIM_LOG"])
            except OSError:
                hit = []
            hit = [x for x in hit if x[3] != "go"]
            if not hit:
                ctx.tick("runs with fewer operations than the chosen one")
                shutil.rmtree(top, ignore_errors=True)
                continue
            what += " after %s" % " ".join(hit[0][1:2] + hit[0][4:])
            ctx.tick("output operations made to fail", len(hit))
        if r.rc == 0:
            ctx.violation("%s: exit status 0" % what)
        elif r.rc < 0:
            ctx.violation("%s: ended by signal %d" % (what, -r.rc))
        elif not r.err.strip():
            ctx.violation("%s: no message on standard error" % what)
        left = batch.tree(st) if os.path.isdir(st) else {}
        good = 0
        for p, t in left.items():
            if blocked and os.path.join(st, p) == blocked:
                continue
            if p in b.expect:
                if hit and any(os.path.join(st, p).startswith(" ".join(x[4:])) for x in hit):
                    continue
                if t != b.expect[p]:
                    ctx.violation("%s: the symbol file %s left behind is not the module's dump" % (what, p))
                good += 1
            else:
                if p.startswith("nocfi"):
                    ctx.violation("%s: a module without unwind data was stored under --check-cfi" % what)
                else:
                    ctx.violation("%s: unexpected file %s left behind" % (what, p))
        ctx.tick("failed batches")
        ctx.tick("files left and verified", good)
        ctx.tick("exit status %s" % r.rc)
        ctx.seen(*sorted(set(faults)), kind, "j%d" % jobs, len(b.mods), "first" if 0 in pos else "last" if len(files) - 1 in pos else "mid", "left" if good else "none")
        shutil.rmtree(top, ignore_errors=True)
        if ctx.violations:
            return
    if case["i"] < 5:
        ctx.sample = {"case": case, "faults": faults, "positions": pos, "files": len(files), "stderr": r.err[-200:]}
