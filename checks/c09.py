"""C09: stripped + debug file == unsplit."""
import os
import subprocess

from vlib import gen, macho, sym, work

RULE = ("one case = one generated module (ELF in all word sizes and byte orders, or Mach-O) written whole and as a stripped/debug pair (by our writer or by "
        "GNU strip/objcopy or llvm-objcopy, all symbols or only debug stripped), dumped whole and as a pair in both orders with 1-4 jobs, with or without inlines, to a "
        "store; the three outputs are compared in a normal form free of ids. distinct = distinct (container, splitter, #funcs, #publics, order, jobs) classes")
ASSUMPTIONS = ["the module has a build id / UUID (a debug file carries no code to derive an id from)"]
TECHNIQUE = "differential monitor: dumps of the pair against the dump of the unsplit binary, both by the real program"
LEVEL = "exploration"
LEVEL_NOTE = "generated modules; complete outputs compared"
MIN_DISTINCT = 20
QUICK_S, THOROUGH_S = 60, 600

KINDS = ["own", "gnu", "own", "strip-debug", "llvm", "macho", "own32", "moresyms", "ownbe"]


def cases(ctx):
    n = 1800 if ctx.tier == "quick" else 12000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def stored(st):
    out = []
    for root, ds, fs in os.walk(st):
        for f in sorted(fs):
            with open(os.path.join(root, f), "rb") as h:
                out.append(h.read())
    return out


def sh(*a):
    subprocess.run(list(a), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    o = dict(dyn=rng.choice([0, 4]), soname=rng.choice([None, b"libx.so.1"]), publics=8, dup_funcs=rng.choice([0, 0.3]), dynfuncs=rng.choice([0, 0.6]), dyninner=rng.choice([0, 0.5]))
    if rng.random() < 0.5:
        o.update(work.SHAPES[rng.choice(["nested", "dense", "split", "suffix"] + work.EXTREME)])
    u = ctx.path("u", "m.so")
    s1, s2 = ctx.path("s", "m.so"), ctx.path("s", rng.choice(["m.so.debug", "m.dbg", "a.debug", "z"]))

    def put(p, d):
        with open(p, "wb") as f:
            f.write(d)
    if kind == "macho":
        o.update(macho.opts())
        o.update(dyn=0, dynfuncs=0, soname=None, dyninner=0, gap=0)
        m = macho.adapt(gen.Mod(rng, **o))
        uid = bytes(rng.randrange(256) for _ in range(16))
        cpu = rng.choice(["x86_64", "arm64"])
        inst = rng.choice([None, b"/usr/lib/libm.dylib"])
        put(u, macho.MachO(m, cpu, 6, uid, inst).build())
        put(s1, macho.MachO(m, cpu, 6, uid, inst, dwarf=False, symtab=rng.random() < 0.5).build())
        put(s2, macho.MachO(m, cpu, 10, uid, inst, eh=False).build())
    else:
        if kind == "own32":
            o.update(bits=32, machine="x86")
        if kind == "ownbe":
            o.update(little=False, machine="ppc64")
        if kind == "moresyms":
            # the stripped file has more symbols than the debug file
            o.update(dyn=12, cus=1, funcs=2, publics=0, dynfuncs=1.0)
        m = gen.Mod(rng, **o)
        put(u, m.full())
        if kind in ("gnu", "strip-debug"):
            sh("objcopy", "--only-keep-debug", u, s2)
            sh("strip", "--strip-debug" if kind == "strip-debug" else "--strip-all", "-o", s1, u)
        elif kind == "llvm":
            sh("/usr/lib/llvm-18/bin/llvm-objcopy", "--only-keep-debug", u, s2)
            sh("/usr/lib/llvm-18/bin/llvm-objcopy", "--strip-all", u, s1)
        else:
            put(s1, m.stripped())
            put(s2, m.debug_only())
    inl = ["--inlines"] if rng.random() < 0.6 else []
    a = sym.parse(ctx.dump_ok(*inl, u).out)
    ca = sym.canon(a)
    for n, order in enumerate(((s1, s2), (s2, s1))):
        j = rng.choice([1, 2, 4])
        st = ctx.path("st%d" % n)
        ctx.dump_ok(*inl, "-j", str(j), "--store", st, *order, what="a stripped/debug pair")
        got = stored(st)
        if len(got) != 1:
            ctx.violation("the pair %r gives %d symbol files" % ([os.path.basename(x) for x in order], len(got)))
            continue
        b = sym.parse(got[0])
        d = sym.diff(ca, sym.canon(b), "unsplit", "pair")
        if d:
            ctx.write("unsplit.sym", ctx.last_run.out)
        for x in d[:4]:
            ctx.violation("%s, %s first: %s" % (kind, "stripped" if n == 0 else "debug", x))
        ctx.tick("pairs compared")
        ctx.tick("records compared", len(a.records))
        ctx.seen(kind, "j%d" % j, n, "f%d" % min(len(a.funcs), 9), "p%d" % min(len(a.publics), 9), "s%d" % min(9, len(a.stack)), bool(inl))
    if case["i"] < 2:
        ctx.sample = {"case": case, "functions": len(a.funcs), "publics": len(a.publics), "stack": len(a.stack)}
