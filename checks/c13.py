"""C13: equal inputs and options give identical bytes."""
import hashlib
import os
import shutil

from vlib import batch, gen, httpd, macho, msf, work
from vlib.common import Inconclusive

RULE = ("one case = one module (any container, alone or as 2-3 files to merge, up to 60 source files) or one batch, with random options, dumped once as a reference and then again many times with one or more "
        "circumstances changed: plain repetition (fresh hash seeds), number of jobs, seeded thread schedule, working directory, form of the paths (relative, ./, doubled slash, .., linked directory), environment "
        "(HOME, LANG, TZ, TMPDIR, RUST_BACKTRACE, COLUMNS, stdin, umask), verbosity, and form of output (standard output, -o -, -o FILE, --store, both, over an older longer or shorter file), and for an executable whose PDB two or three symbol servers have in different versions, the order in which they answer; all bytes must be equal. "
        "distinct = (container, circumstance) classes, digests of what was compared and interleavings")
ASSUMPTIONS = ["HOME never holds a .dump_syms/config, which is an option rather than environment", "one machine: pointer size and file system do not vary", "the working directory never holds a PDB, for which the program looks there (C19)"]
TECHNIQUE = "metamorphic monitoring: repeated real runs under changed circumstances and perturbed schedules, byte-equality oracle"
LEVEL = "exploration"
LEVEL_NOTE = "each run draws fresh hash seeds; circumstances and schedules are sampled"
MIN_DISTINCT = 200
QUICK_S, THOROUGH_S = 100, 840
NEEDS = ["plain", "sched"]
JOBS = 12

KINDS = ["elf", "pair", "pdb64", "macho", "batch", "triple", "mingw", "pairswap", "elfbe", "batch", "dsymfile", "pdb32", "pdbpe", "server", "debugs"]


def cases(ctx):
    n = 150 if ctx.tier == "quick" else 4000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def many_files(rng, c, k):
    return rng.choice([b"m%d_%d.c", b"d/n%d_%d.h", b"q%d %d.cpp", b"%d/%d.rs"]) % (c, k)


def rich(rng, **o):
    """A module with many source files, inlines and symbols, so that any order taken from a hash map shows."""
    return gen.Mod(rng, cus=rng.choice([1, 4, 8]), funcs=rng.choice([3, 6]), text=0x8000, file_namer=many_files, publics=8, dyn=3, inl_prob=0.7, **o)


def inputs(ctx, kind):
    rng = ctx.rng
    d = ctx.path("in", "x")[:-2]
    if kind == "batch":
        b = batch.Batch(ctx, rng.choice(["few", "pairs", "many"]))
        return b.files
    if kind in ("pair", "triple", "pairswap"):
        m = rich(rng, soname=b"lib p.so")
        fs = [("a.so", m.stripped()), ("a.debug", m.debug_only())] + ([("a.full", m.full())] if kind == "triple" else [])
        if kind == "pairswap":
            fs.reverse()
        return [work.Work._w(d, n, b) for n, b in fs]
    if kind == "debugs":
        # files of one module with debug information each, which have some of their sources in common
        bid = rng.randbytes(20)
        return [work.Work._w(d, "d%d.so" % k, rich(rng, build_id=bid, soname=b"d.so", pie=True).full()) for k in range(rng.choice([2, 2, 3]))]
    if kind == "elf" and rng.random() < 0.5:
        # sources with relative paths, which exist (through a link) in one of the working directories only
        m = rich(rng)
        names = set()
        for cu in m.cus:
            cu.comp_dir, cu.dirs = b"", [b"rel" for _ in cu.dirs]
            names |= {n for _, n in cu.files}
        at = ctx.path("elsewhere", "x")[:-2]
        os.makedirs(at + "/real")
        os.symlink("real", at + "/rel")
        for n in names:
            q = os.path.join((at + "/real").encode(), n)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb"):
                pass
        return [work.Work._w(d, "rel.so", m.full())]
    if kind == "elf":
        return [work.Work._w(d, "rich.so", rich(rng, soname=rng.choice([None, b"x.so.1"])).full())]
    if kind == "pdbpe":
        w = work.Work(ctx, "pdb64", "nested", dir=d)
        os.makedirs(d + "/e")
        os.rename(w.exe, d + "/e/m.dll")
        return [w.path, d + "/e/m.dll"]
    w = work.Work(ctx, kind, rng.choice(["nested", "plain", "manysyms", "dense"]), dir=d)
    return [w.path]


def forms(rng, files, top, cwd):
    """The same files, named differently."""
    out = []
    for f in files:
        rel = os.path.relpath(f, top)
        d, b = os.path.split(f)
        out.append(rng.choice([
            f, os.path.relpath(f, cwd), os.path.join(d, ".", b), d + "//" + b, os.path.join(d, "..", os.path.basename(d), b),
            os.path.join(os.path.dirname(top), "linked", rel), os.path.join(".", os.path.relpath(f, cwd))]))
    return out


ENVS = [
    {"HOME": "/nonexistent"}, {"LANG": "C", "LC_ALL": "C"}, {"LANG": "de_DE.UTF-8"}, {"LC_ALL": "tr_TR.UTF-8", "TZ": "Asia/Tokyo"}, {"RUST_BACKTRACE": "1"},
    {"RUST_BACKTRACE": "full", "RUST_LIB_BACKTRACE": "1"}, {"RUST_LOG": "trace"}, {"COLUMNS": "20", "TERM": "xterm-256color", "CLICOLOR_FORCE": "1"}, {"TMPDIR": "/nonexistent", "PATH": ""}, {"NO_COLOR": "1"},
    {"USER": "x", "PWD": "/elsewhere", "SOURCE_DATE_EPOCH": "0"}, {"RUST_MIN_STACK": "1000000"}, {"MALLOC_ARENA_MAX": "1", "MALLOC_PERTURB_": "165"}, {"NUMBER_OF_PROCESSORS": "1"},
]


def collect(out, store, r, many):
    """Canonical content of one run's outputs: list of (where, {path-or-block: bytes})."""
    res = []
    if store:
        res.append(("the store", batch.tree(store)))
    if out == "stdout":
        res.append(("standard output", r.out))
    elif out:
        with open(out, "rb") as f:
            res.append(("the output file", f.read()))
    return res


def servers(ctx, case):
    """Several symbol servers have different PDBs under the same id, and answer sooner or later."""
    from checks import c18
    rng = ctx.rng
    s = c18.Setup(ctx)
    pdbs = [s.pdb]
    for k in range(rng.choice([1, 2])):
        w = work.Work(ctx, "pdb64", "plain", dir=ctx.path("v%d" % k, "x")[:-2])
        pdbs.append(msf.with_id(open(w.path, "rb").read(), s.g, s.age))
    rng.shuffle(pdbs)
    url = s.urls()[0]
    srvs = [httpd.Server().__enter__() for _ in pdbs]
    try:
        want, delays = None, [0, 0.08, 0.16][:len(pdbs)]
        for k in range(5):
            for x, b in zip(srvs, pdbs):
                x.add(url, b)
            rng.shuffle(delays)
            for x, d in zip(srvs, delays):
                x.res[httpd.urllib.parse.unquote(url)]["hdelay"] = d
            r = ctx.dump(*s.inl, "--symbol-server", ";".join("SRV*" + x.url for x in srvs), s.exe, env=s.env, cwd=s.home)
            if r.hang == "slow":
                raise Inconclusive("watchdog: " + r.describe())
            if r.hang or r.rc != 0:
                ctx.violation("servers: the run fails: %s" % r.describe())
                return
            if want is None:
                want = r.out
            elif r.out != want:
                ctx.violation("the output depends on which symbol server answers first (delays %r)" % (delays,))
                return
            ctx.tick("outputs compared")
            ctx.seen("server", len(pdbs), tuple(delays))
    finally:
        for x in srvs:
            x.__exit__()


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    if kind == "server":
        return servers(ctx, case)
    files = inputs(ctx, kind)
    top = ctx.path("in", "x")[:-2]
    os.symlink("in", ctx.path("linked"))
    opts = []
    if rng.random() < 0.6:
        opts.append("--inlines")
    if rng.random() < 0.4:
        opts += ["--mapping-src", "/nonexist/(.*)", "--mapping-dest", "{v}/{w}:{1}", "--mapping-var", "v=1", "--mapping-var", "w=2"]
    if rng.random() < 0.3:
        opts += ["--extra-info", "B second", "--extra-info", "A first"]
    if rng.random() < 0.2:
        opts.append("--no-generator")
    many = kind == "batch"
    ref = ctx.path("ref")
    r = ctx.dump_ok(*opts, "-j", "1", "--store", ref, *files)
    want = batch.tree(ref)
    texts = sorted(want.values())
    if not want:
        ctx.violation("no symbol file for %s" % kind)
        return
    n = 14 if ctx.tier == "quick" else 24
    many = many and len(want) > 1
    for k in range(n):
        what = []
        cwd = rng.choice([ctx.work, top, "/", ctx.path("elsewhere", "x")[:-2], os.path.dirname(files[0])])
        if any(f.endswith(".pdb") for f in os.listdir(cwd)):
            # the working directory is a documented place to look for the PDB of an executable
            cwd = ctx.work
        fs = list(files)
        if rng.random() < 0.5:
            fs = forms(rng, files, top, cwd)
            what.append("paths")
        else:
            what.append("cwd")
        env = {}
        if rng.random() < 0.5:
            env = dict(rng.choice(ENVS))
            what.append("env %s" % sorted(env)[0])
        a = list(opts)
        if rng.random() < 0.3:
            v = rng.choice(["off", "warn", "info", "debug", "trace"])
            a += ["--verbose", v]
            what.append("verbose")
        j = rng.choice(["1", "2", "3", "8", "", "0"])
        if j:
            a += ["-j", j]
        form = rng.choice(["store", "both"] if many else ["store", "stdout", "dash", "file", "both", "bothdash", "store"])
        if many and rng.random() < 0.3:
            form = rng.choice(["stdout", "bothdash"])
        elif many:
            form = "store"
        st = ctx.path("run%d" % k, "st") if form in ("store", "both", "bothdash") else None
        out = None
        if form in ("stdout", "dash", "bothdash"):
            out = "stdout"
        elif form in ("file", "both"):
            out = ctx.path("run%d" % k, "o.sym")
        if st:
            a += ["--store", rng.choice([st, os.path.relpath(st, cwd), st + "/"])]
            if rng.random() < 0.4:
                # an earlier run left something there
                what.append("older store")
                for p, t in want.items():
                    q = os.path.join(st, p)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, "wb") as f:
                        f.write(rng.choice([b"", b"old\n", t + b"FUNC 1 1 0 old\n" * 500]))
        if out and out != "stdout":
            a += ["-o", rng.choice([out, os.path.relpath(out, cwd)])]
            if rng.random() < 0.5:
                what.append("older file")
                with open(out, "wb") as f:
                    f.write(rng.choice([b"", b"old\n", texts[0] + b"FUNC 1 1 0 old\n" * 500]))
        elif form in ("dash", "bothdash"):
            a += ["-o", "-"]
        a += fs
        if k % 3 == 2 and len(files) > 1:
            mode, seed = rng.choice(batch.MODES), rng.randrange(1 << 30)
            what.append("schedule %s/%d" % (mode, seed))
            r, _ = batch.perturbed(ctx, mode, seed, *a, env=env, cwd=cwd)
        else:
            r = ctx.dump(*a, env=env, cwd=cwd)
        desc = "%s, %d files, jobs=%s, output=%s, changed: %s" % (kind, len(files), j or "default", form, ", ".join(what))
        if r.hang == "slow":
            raise Inconclusive("watchdog: " + r.describe())
        if r.hang or r.rc != 0:
            ctx.violation("%s: the run fails, though the reference run does not: %s" % (desc, r.describe()))
            return
        for where, got in collect(out, st, r, many):
            if where == "the store":
                if got != want:
                    bad = sorted(p for p in set(got) | set(want) if got.get(p) != want.get(p))
                    ctx.violation("%s: the store differs from the reference in %r" % (desc, bad[:3]))
            elif many:
                bl = batch.blocks(got)
                if bl is None or sorted(bl) != texts:
                    ctx.violation("%s: standard output is not one block of equal bytes per module" % desc)
            elif got != texts[0]:
                ctx.violation("%s: %s differs from the reference" % (desc, where))
            ctx.tick("outputs compared")
        if out != "stdout" and r.out:
            ctx.violation("%s: bytes on standard output, which was not asked for" % desc)
        for w in what:
            ctx.seen(kind, form, w.split("/")[0])
        shutil.rmtree(ctx.path("run%d" % k, "x")[:-2], ignore_errors=True)
        if ctx.violations:
            return
    ctx.seen("bytes", hashlib.sha256(b"".join(texts)).hexdigest()[:16])
    if case["i"] < 5:
        ctx.sample = {"case": case, "files": len(files), "modules": len(want), "bytes": sum(map(len, texts)), "opts": opts}
