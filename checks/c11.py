"""C11: a batch stores every module exactly once, as if dumped alone, and ends."""
import os
import shutil
import subprocess

from vlib import batch
from vlib.common import Inconclusive

RULE = ("one case = one batch (1-150 modules in ELF, Mach-O and PDB form, in bundles and cabinets, 1-4 files each: pairs, triples, repeated files, equal names, ids that differ in the age only, outputs larger than any buffer) run with 0-64 jobs to a store, standard output or both, "
        "first by the ordinary build and then by the build whose every atomic operation calls a seeded perturber (delays at chosen sites or at chosen operations, yields); the store / stream must hold "
        "exactly the bytes each module gives when dumped alone with one job; then 2-5 instances store the same or different modules in one directory at once, with delayed system calls. distinct = distinct interleavings (hash over the thread and site of every change of the "
        "running thread between atomic operations) plus distinct batch shapes")
ASSUMPTIONS = ["schedules are those reachable by delaying threads at atomic operations and by the kernel's own choices"]
TECHNIQUE = "schedule fuzzing with a custom instrumentation runtime (delays at every atomic operation of the real program), exactly-once / equality oracle on the resulting store, deadlock detector on thread states"
LEVEL = "exploration"
LEVEL_NOTE = "thousands of perturbed schedules per run; complete outputs compared with one-job references"
MIN_DISTINCT = 100
QUICK_S, THOROUGH_S = 100, 840
NEEDS = ["plain", "sched", "shim"]
JOBS = 16


def cases(ctx):
    n = 160 if ctx.tier == "quick" else 4000
    shapes = ["few", "pairs", "one", "large", "many", "pairs", "few", "wide"]
    return [{"i": i, "shape": shapes[i % len(shapes)]} for i in range(n)]


def compare(ctx, b, what, r, store, text):
    """One finished run against the references."""
    if r.hang == "slow":
        raise Inconclusive("watchdog: " + r.describe())
    if r.hang:
        ctx.violation("%s: the batch never ends (%s)" % (what, r.hang))
        return False
    if r.rc != 0:
        ctx.violation("%s: the batch fails: rc=%r %s" % (what, r.rc, r.err[-300:]))
        return False
    ok = True
    if store is not None:
        got = batch.tree(store)
        miss, extra = sorted(set(b.expect) - set(got)), sorted(set(got) - set(b.expect))
        if miss:
            ctx.violation("%s: %d of %d modules are not in the store, e.g. %s" % (what, len(miss), len(b.expect), miss[0]))
        if extra:
            ctx.violation("%s: unexpected files in the store: %s" % (what, extra[:3]))
        bad = [p for p in got if p in b.expect and got[p] != b.expect[p]]
        if bad:
            ctx.violation("%s: %d modules differ from their own dump, e.g. %s" % (what, len(bad), bad[0]))
        ok = not (miss or extra or bad)
        ctx.tick("modules compared", len(got))
    if text is not None:
        bl = batch.blocks(text)
        want = sorted(b.expect.values())
        if bl is None or sorted(bl) != want:
            ctx.violation("%s: standard output is not one contiguous block per module: %s blocks, %d modules" % (what, None if bl is None else len(bl), len(want)))
            ok = False
        ctx.tick("blocks compared", len(want))
    return ok


def instances(ctx, b, opts):
    """The modules handed out to several instances which store in one directory at the same time."""
    rng = ctx.rng
    n = rng.choice([2, 3, 5])
    mine = [[] for _ in range(n)]
    for m in b.mods:
        for k in rng.sample(range(n), rng.choice([1, 1, 2])):
            mine[k] += m["files"]
    # files of one module are merged in the order in which they are given
    mine = [[f for f in b.files if f in x] for x in mine if x]
    st = ctx.path("shared", "store")
    ps = []
    for fs in mine:
        e = dict(os.environ, NO_PROXY="*", LD_PRELOAD=ctx.bins["shim"], SHIM_ROOT=st, SHIM_MODE=rng.choice(["delay", "delay", "none"]))
        ps.append(subprocess.Popen([ctx.bins["plain"]] + opts + ["-j", str(rng.choice([1, 2, 4])), "--store", st] + fs, env=e, cwd=ctx.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
        ctx.evals += 1
    bad = []
    for p in ps:
        try:
            o, e = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            raise Inconclusive("an instance takes too long")
        if p.returncode or o:
            bad.append("rc=%d %s" % (p.returncode, e.decode("utf-8", "replace")[-300:]))
    if bad:
        ctx.violation("%d instances storing in one directory at the same time: %d fail: %s" % (len(ps), len(bad), bad[0]))
    else:
        got = batch.tree(st)
        if got != b.expect:
            d = sorted(set(got) ^ set(b.expect)) or [p for p in got if got[p] != b.expect[p]]
            ctx.violation("%d instances storing in one directory at the same time: %d files differ from the dumps of single modules, e.g. %s" % (len(ps), len(d), d[0]))
    shutil.rmtree(st, ignore_errors=True)
    ctx.tick("instances sharing a store", len(ps))
    ctx.seen("instances", len(ps), len(b.mods))


def run_case(ctx, case):
    rng = ctx.rng
    b = batch.Batch(ctx, case["shape"])
    opts = (["--inlines"] if rng.random() < 0.5 else []) + (["--mapping-src=/nonexist/(.*)", "--mapping-dest=map:{1}"] if rng.random() < 0.2 else [])
    if rng.random() < 0.1:
        opts += ["--extra-info", "BATCH x"]
    b.reference(*opts)
    n = 5 if ctx.tier == "quick" else 8
    if case["shape"] == "wide":
        n = 3
    for k in range(n):
        jobs = rng.choice([0, 1, 2, 2, 3, 4, 4, 8, 16, 64, ""])
        out = rng.choice(["store", "store", "stdout", "both"] if case["shape"] != "large" else ["store", "stdout", "stdout", "both"])
        st = ctx.path("st%d" % k)
        args = list(opts) + (["-j", str(jobs)] if jobs != "" else [])
        if out != "stdout":
            args += ["--store", st]
        if out == "both":
            args += ["-o", "-"]
        args += b.files
        what = "%s modules=%d files=%d jobs=%s %s" % (case["shape"], len(b.mods), len(b.files), jobs, out)
        if k == 0:
            r = ctx.dump(*args)
        else:
            mode, seed = rng.choice(batch.MODES), rng.randrange(1 << 30)
            what += " schedule=%s/%d" % (mode, seed)
            r, stats = batch.perturbed(ctx, mode, seed, *args)
        ok = compare(ctx, b, what, r, st if out != "stdout" else None, r.out if out != "store" else None)
        ctx.seen("batch", case["shape"], len(b.mods), len(b.files), jobs, out)
        if not ok:
            break
        shutil.rmtree(st, ignore_errors=True)
    if not ctx.violations and case["shape"] != "wide":
        instances(ctx, b, opts)
    ctx.tick("batches")
    if case["i"] < 5:
        ctx.sample = {"case": case, "modules": len(b.mods), "files": len(b.files), "last": what}
