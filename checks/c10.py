"""C10: merging loses and corrupts nothing."""
import os
import re

from vlib import gen, sym, work
from vlib.sym import F
from .c09 import stored

RULE = ("one case = 2-4 inputs with one debug id and different contents (functions with debug information, plain symbols and section placeholders at equal, "
        "nested and distinct addresses, shared and distinct source files and inlined functions, different unwind tables, with/without names; ELF files, or a "
        "PE and its PDB in different directories) merged by the real program in random order with 1-4 jobs; the result is checked rule by rule against the "
        "dumps of the single inputs. distinct = distinct (kind, #inputs, conflict kinds seen, jobs, inlines) classes")
ASSUMPTIONS = ["dumps of single inputs are right (C03-C06, C22)"]
TECHNIQUE = "conservation monitor: records of every input against the merged output of the real program"
LEVEL = "exploration"
LEVEL_NOTE = "generated conflicting inputs; every record of every input is looked up in the result"
MIN_DISTINCT = 20
QUICK_S, THOROUGH_S = 60, 600

KINDS = ["two", "three", "two", "four", "funcpub", "pepdb", "two", "same", "vary"]
PLACE = re.compile(r"^<(.* ELF section|unknown) in .*>$|^<unknown>$")


def cases(ctx):
    n = 2400 if ctx.tier == "quick" else 14000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def blocks(stack):
    """Unwind records grouped into entries."""
    out, cur = [], None
    for l in stack:
        if l.startswith("STACK CFI INIT") or l.startswith("STACK WIN") or cur is None:
            cur = [l]
            out.append(cur)
        else:
            cur.append(l)
    return [tuple(b) for b in out]


def full(s, f):
    """What a consumer gets from a FUNC: everything but ids."""
    return (f.size, f.psize, f.name, tuple((a, z, l, s.file(i)) for a, z, l, i in f.lines),
            tuple(sorted((d, cl, s.file(cf), s.origins.get(o), tuple(rs)) for d, cl, cf, o, rs in f.inlines)))


def vary(rng, m):
    for fn, cu, lo, hi in m.decl:
        k = rng.randrange(6)
        if k == 0 and hi - lo > 4 and len(fn.ranges) == 1:
            fn.ranges[0] = (lo, hi - 1 - rng.randrange(3))
            fn.inlines = []
        elif k == 1 and fn.name:
            fn.name += b"x"
    for cu in m.cus:
        keep = [f for f in cu.funcs if rng.random() < 0.7]
        cu.funcs = keep or cu.funcs
        cu.files = [(d, rng.choice([n, n, n.rstrip() or n, n + b" ", n.upper(), b"x" + n, n + b"x"])) for d, n in cu.files]
    for s in m.syms:
        if s.typ == 2 and rng.random() < 0.1:
            s.name += b"x"


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    inl = ["--inlines"] if rng.random() < 0.6 else []
    files, sizes, stripped = [], {}, []
    if kind == "pepdb":
        w = work.Work(ctx, rng.choice(["pdb64", "pdb64", "pdb32"]), rng.choice(["plain", "nested", "dense"]), dir=ctx.path("b", "x")[:-2])
        os.makedirs(ctx.path("a", "x")[:-2], exist_ok=True)
        dll = ctx.path("a", "m.dll")
        os.rename(w.exe, dll)
        files = [dll, w.path]
    else:
        n = {"two": 2, "three": 3, "four": 4, "funcpub": 2, "same": 2, "vary": 2}[kind]
        bid = bytes(rng.randrange(256) for _ in range(20))
        seed_same = None
        for k in range(n):
            o = dict(build_id=bid, pie=True, text=0x4000, dup_funcs=0.2, origin_pool=[b"pool_a", b"pool_b"], fdes=rng.random() < 0.7,
                     debug=rng.random() < 0.7, soname=rng.choice([None, b"libso%d.so" % k]), dyn=rng.choice([0, 2]), publics=rng.choice([0, 6, 12]),
                     funcs=rng.choice([1, 3, 8]), dyninner=rng.choice([0, 0.4]))
            if rng.random() < 0.25:
                o.update(work.SHAPES[rng.choice(["deep", "shuffled", "manyfiles", "manyorigins", "longnames", "longdirs", "icf", "manycus"])])
            m = gen.Mod(rng, **o)
            if kind == "vary" and not k:
                for cu in m.cus:
                    cu.files = [(d, n + rng.choice([b"", b" "])) for d, n in cu.files]
            if kind == "same" and k:
                m = m0
            elif kind == "vary" and k:
                # the first input with small differences: sizes, names of functions and of source files
                m = m0
                vary(rng, m)
            elif rng.random() < 0.12:
                # functions, but not a single line
                for fn, cu, lo, hi in m.decl:
                    fn.rows, fn.inlines = [], []
            m0 = m
            if kind == "funcpub" and k == 1:
                # plain symbols of the second file at and inside the functions of the first, and the reverse
                extra = []
                for fn, cu, lo, hi in first.decl:
                    if rng.random() < 0.6:
                        extra.append(gen.Sym(b"at_%x" % lo, lo, rng.choice([0, hi - lo])))
                    if hi - lo > 3 and rng.random() < 0.4:
                        extra.append(gen.Sym(b"in_%x" % lo, lo + 1 + rng.randrange(hi - lo - 1), 0))
                for s in [x for x in first.pub if x.sec == ".text"]:
                    if rng.random() < 0.4:
                        extra.append(gen.Sym(b"same_or_not" if rng.random() < 0.5 else s.name, s.addr, s.size, sec=s.sec))
                m.syms = m.syms + extra
                m.kw["syms"] = m.syms
            first = m if k == 0 else first
            for s in m.syms + m.dynsyms:
                if s.typ == 2:
                    sizes.setdefault(s.addr - m.base, set()).add(s.size)
            files.append(ctx.write("m%d.so" % k, m.full()))
            stripped.append(not m.cus)
    singles = [sym.parse(ctx.dump_ok(*inl, f, cwd=ctx.work).out) for f in files]
    order = list(range(len(files)))
    rng.shuffle(order)
    j = rng.choice([1, 2, 4])
    ctx.dump_ok(*inl, "-j", str(j), "--store", ctx.path("st"), *[files[k] for k in order], cwd=ctx.work, what="a merge")
    got = stored(ctx.path("st"))
    if len(got) != 1:
        ctx.violation("%d symbol files for %d inputs with one debug id" % (len(got), len(files)))
        return
    r = sym.parse(got[0])
    for e in sym.grammar_errors(r)[:2]:
        ctx.violation("merged: %r" % (e,))
    res = r.by_addr()
    addrs = {}
    for s in singles:
        for x in s.records:
            addrs.setdefault(x.addr, []).append((s, x))
    conf = set()

    def inside(a):
        for b, xs in addrs.items():
            if b < a and any(a < b + z for z in [x.size for _, x in xs if isinstance(x, F)] + list(sizes.get(b, ()))):
                return True
        return False

    def cls(x):
        return "f" if isinstance(x, F) and not PLACE.match(x.name) else ("h" if PLACE.match(x.name) else "p")
    for a, xs in sorted(addrs.items()):
        kinds = sorted({cls(x) for _, x in xs})
        if len(xs) > 1:
            conf.add("".join(kinds))
        y = res.get(a)
        if y is None:
            if not inside(a):
                ctx.violation("address %x has a symbol in an input (%r) and none in the result" % (a, xs[0][1].name))
            else:
                conf.add("inside")
            continue
        k = cls(y)
        best = "f" if "f" in kinds else ("p" if "p" in kinds else "h")
        if k != best and not (best != "f" and inside(a)):
            ctx.violation("address %x: inputs have %s (%r), the result has %r" % (a, kinds, [x.name for _, x in xs], y.name))
            continue
        cand = [(s, x) for s, x in xs if cls(x) == k]
        if isinstance(y, F):
            fy = full(r, y)
            cand = [(s, x) for s, x in cand if isinstance(x, F)]
            if not any(full(s, x) == fy for s, x in cand):
                ctx.violation("FUNC %x of the result is in no input: %r; inputs: %r" % (a, fy, [full(s, x) for s, x in cand][:2]))
            if best == "f":
                want = any(x.multiple for _, x in cand) or len({(x.name, x.size) for _, x in cand}) > 1
                if y.multiple != want:
                    ctx.violation("FUNC %x: multiple=%s, expected %s" % (a, y.multiple, want))
        elif k == "p":
            names = {x.name for _, x in cand}
            if y.name not in names:
                ctx.violation("PUBLIC %x %r of the result is in no input: %r" % (a, y.name, names))
            want = any(x.multiple for _, x in cand) or len(names) > 1
            if y.multiple != want and best == "p" and not inside(a):
                ctx.violation("PUBLIC %x: multiple=%s, expected %s (inputs: %r)" % (a, y.multiple, want, [(x.name, x.multiple) for _, x in xs]))
    for a, y in res.items():
        if a not in addrs:
            ctx.violation("the record at %x (%r) is in no input" % (a, y.name))
    have = set(blocks(r.stack))
    want = set()
    for s in singles:
        want |= set(blocks(s.stack))
    if have != want:
        ctx.violation("unwind entries: missing %r, invented %r" % (sorted(want - have)[:2], sorted(have - want)[:2]))
    codes = {s.code_id for s in singles if s.code_id}
    if r.code_id not in (codes or {None}):
        ctx.violation("code id %r, the inputs have %r" % (r.code_id, codes))
    if r.module[:3] != singles[0].module[:3]:
        ctx.violation("module %r, the inputs have %r" % (r.module, singles[0].module))
    names = [s.module[3] for s in singles]
    if kind != "pepdb":
        st = [n for n, z in zip(names, stripped) if z]
        if r.module[3] not in (st if len(st) == 1 else names):
            ctx.violation("module name %r, expected one of %r (all: %r)" % (r.module[3], st, names))
        conf.add("stripped%d" % min(2, len(st)))
    ctx.tick("merges")
    ctx.tick("addresses compared", len(addrs))
    ctx.tick("addresses in several inputs", sum(len(x) > 1 for x in addrs.values()))
    ctx.seen(kind, "j%d" % j, "+".join(sorted(conf)), bool(inl))
    if case["i"] < 2:
        ctx.sample = {"case": case, "addresses": len(addrs), "conflicts": sorted(conf)}
