"""C02: references, numbering, ordering, overlap."""
import os

from vlib import gen, hostile, sym, work
from vlib.common import Inconclusive

RULE = ("one case = one dump: a single generated module of any container, a stripped/debug pair, or two to five different modules with the same id "
        "merged (shared and different source files and inlined functions, overlapping functions), with and without inlines, path mappings and "
        "hostile names; the whole output is checked for numbering, dangling references, order, overlap and nesting. distinct = distinct (kind, "
        "container, inlines, #files, #origins, #funcs buckets)")
ASSUMPTIONS = ["the rules on line and INLINE ranges are checked for modules whose debug information is well formed (what the generators write)"]
TECHNIQUE = "whole-output referential and ordering monitor over real runs, single and merged"
LEVEL = "exploration"
LEVEL_NOTE = "generated modules and merges; every record of every output is checked"
MIN_DISTINCT = 20
QUICK_S, THOROUGH_S = 60, 600

KINDS = ["single", "merge", "merge", "split", "hostile", "mapped", "merge5"]


def cases(ctx):
    n = 3500 if ctx.tier == "quick" else 24000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def merged(ctx, files, args):
    st = ctx.path("store")
    r = ctx.dump_ok(*args, "--store", st, "-j", str(ctx.rng.choice([1, 2, 4])), *files, what="a merge of modules with one id")
    out = []
    for root, ds, fs in os.walk(st):
        for f in fs:
            with open(os.path.join(root, f), "rb") as h:
                out.append(h.read())
    if len(out) != 1:
        raise Inconclusive("%d files in the store" % len(out))
    return out[0]


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    inl = rng.random() < 0.7
    args = ["--inlines"] if inl else []
    mapped = False
    refs = False
    c = "elf"
    if kind in ("single", "mapped"):
        c = rng.choice(work.CONTAINERS)
        w = work.Work(ctx, c, rng.choice(work.COMMON))
        if kind == "mapped":
            args += ["--mapping-src", "^(.)(.*)$", "--mapping-dest", rng.choice(["same", "{1}", "x{2}"])]
            mapped = True
        data = ctx.dump_ok(*args, w.path).out
    elif kind == "split":
        m = gen.Mod(rng, **work.SHAPES[rng.choice(["plain", "nested", "manysyms"] + work.EXTREME)])
        f = [ctx.write("m.so", m.stripped()), ctx.write("m.so.debug", m.debug_only())]
        rng.shuffle(f)
        data = merged(ctx, f, args)
    elif kind in ("merge", "merge5"):
        n = 2 if kind == "merge" else rng.randrange(3, 6)
        fs = []
        pool = [b"shared_inl", b"other_inl"]
        for k in range(n):
            m = gen.Mod(rng, **dict(dict(build_id=b"\x77" * 20, pie=True, text=0x4000, debug=rng.random() < 0.85, origin_pool=pool,
                                         funcs=rng.choice([1, 4, 10])), **work.SHAPES[rng.choice(["plain", "nested", "split", "dups", "deep", "shuffled", "manyfiles", "manyorigins", "icf"])] if rng.random() < 0.5 else {}))
            fs.append(ctx.write("m%d.so" % k, m.full()))
        data = merged(ctx, fs, args)
    else:
        m = hostile.poison(gen.Mod(rng, text=0x3000), rng)
        r = ctx.dump(*args, ctx.write("m.so", m.full()))
        if not r.ok:
            ctx.tick("hostile input refused")
            return
        data = r.out
    ctx.write("out.sym", data)
    s = sym.parse(data)
    for e in sym.integrity_errors(s, inl, refs_only=refs, mapped=mapped)[:5]:
        ctx.violation("%s: %s" % (kind, e))
    ctx.tick("outputs checked")
    ctx.tick("references checked", sum(len(f.lines) + 2 * len(f.inlines) for f in s.funcs))
    ctx.seen(kind, c, inl, "F%d" % min(20, len(s.files)), "o%d" % min(10, len(s.origins)), "f%d" % min(20, len(s.funcs)))
    if case["i"] < 2:
        ctx.sample = {"case": case, "files": len(s.files), "origins": len(s.origins), "funcs": len(s.funcs)}
