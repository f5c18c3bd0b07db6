"""C06: PUBLIC records from symbol tables, and section placeholders."""
import lzma

from vlib import gen, oracle, sym, work
from vlib.elf import Elf

RULE = ("one case = one generated module (full ELF, ELF without debug information, ELF with .gnu_debugdata, Mach-O; regular and dynamic symbol "
        "tables, aliases, sized and size-0 symbols, data/undefined symbols, several executable sections, sections below the image base, image base 0 and non-0); PUBLIC records "
        "are compared with the symbol tables and sections of the specification in both directions. distinct = distinct (kind, #symbols, "
        "#placeholders, #symbols hidden by functions, base, word size) classes")
ASSUMPTIONS = ["which of two overlapping sized symbols without debug information wins is left open (the one visited first)"]
TECHNIQUE = "PUBLIC-set monitor of real runs against the symbol tables each module was generated from"
LEVEL = "exploration"
LEVEL_NOTE = "randomly generated modules; the whole set of PUBLIC records is compared"
MIN_DISTINCT = 20
QUICK_S, THOROUGH_S = 60, 600

KINDS = ["full", "nodebug", "mini", "minidebug", "dynonly", "macho", "full", "machonodebug", "dense"]


def cases(ctx):
    n = 3600 if ctx.tier == "quick" else 20000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def run_case(ctx, case):
    rng, k = ctx.rng, case["kind"]
    o = dict(publics=rng.choice([0, 3, 10, 20]), dyn=rng.choice([0, 0, 3]), symtab=rng.choice([0.2, 0.9]), dynfuncs=rng.choice([0, 0, 0.5]), dyninner=rng.choice([0, 0, 0.5]))
    if rng.random() < 0.3:
        o.update(rng.choice([dict(bits=32, machine="x86"), dict(bits=32, little=False, machine="ppc"), dict(little=False, machine="ppc64")]))
    kw, place = {}, True
    if k in ("macho", "machonodebug"):
        for x in ("bits", "little", "machine"):
            o.pop(x, None)
        if k == "machonodebug":
            o["debug"] = False
        w = work.Work(ctx, "macho", **o)
        m, p, place = w.m, w.path, False
    else:
        if k in ("nodebug", "mini", "dynonly"):
            o["debug"] = False
        if k == "dynonly":
            o.update(dyn=6)
        if k == "dense":
            o.update(work.SHAPES[rng.choice(["dense", "manyfuncs", "big", "far", "icf", "longnames", "split", "sign", "vastnames", "manysections", "manysections"])])
        m = gen.Mod(rng, **o)
        # symbols inside functions which have debug information: never listed
        inner = []
        for fn, cu, lo, hi in m.decl[:4]:
            if hi - lo > 2:
                s = gen.Sym(b"inner_%x" % lo, lo + 1 + rng.randrange(hi - lo - 1), 0)
                inner.append(s)
        tail = [x for x in m.pub if x.sec == ".text"]
        if tail and rng.random() < 0.25:
            # a symbol whose size reaches into the next executable section
            last = max(tail, key=lambda x: x.addr)
            for x in m.syms + m.dynsyms:
                if x.addr == last.addr and x.typ == 2:
                    x.size = m.text_end - x.addr + 0x20
        if m.decl and rng.random() < 0.2 and len(m.execs) == 1 and m.o["bits"] == 64 and not m.o["gap"]:
            # a function of megabytes to gigabytes
            fn, cu, lo, hi = max(m.decl, key=lambda d: d[2])
            if sum(d[2] == lo for d in m.decl) == 1 and len(fn.ranges) == 1:
                size = rng.choice([0x10000, 0x1000000, 0x1800001, 0x7fffffff, 0x80000000, 0x9fffff00])
                fn.ranges = [(lo, lo + size)]
                m.decl[[d[0] for d in m.decl].index(fn)] = (fn, cu, lo, lo + size)
                inner += [gen.Sym(b"innermost_%x" % d, lo + d, 0) for d in (size - 1, size // 2, size, size + 0x10)]
                m.pub += inner[-2:]
                ctx.tick("functions of 64 KB to 2.5 GB")
        for x in m.syms:
            if x.typ == 2 and getattr(x, "expect", None) is None and rng.random() < 0.01:
                x.name += b"w" * rng.choice([1000, 5000, 70000])
        m.syms = m.syms + inner
        if m.base and rng.random() < 0.3:
            # executable sections which don't belong to the image: below its base
            m.kw["extra_sections"] = [(".below%d" % x, bytes(32), 6, m.base - d) for x, d in enumerate(rng.sample([0x10, 0x20, 0x1000, 0x2000, m.base - 0x10000, m.base], 2))]
            ctx.tick("sections below the image base", 2)
        m.kw["syms"] = m.syms
        if k in ("mini", "minidebug"):
            # the regular symbols only exist in the compressed section
            inside = Elf(**dict(m.kw, dynsyms=(), soname=None, interp=False, compress=False)).build()
            chk = rng.choice([lzma.CHECK_CRC32, lzma.CHECK_CRC64])
            kk = dict(m.kw, syms=(), debugdata=lzma.compress(inside, format=lzma.FORMAT_XZ, check=chk))
            data = Elf(cus=m.cus, fdes=m.fdes, **kk).build()
        elif k == "dynonly":
            data = m.stripped()
            kw["symtab"] = False
        else:
            data = m.full()
        p = ctx.write("m.so", data)
        if k in ("mini", "minidebug"):
            # the main file's own tables come first there
            order = m.table_order()
            dyn = [s for s in order if s in m.dynsyms]
            reg = [s for s in order if s not in m.dynsyms]
            m.table_order = lambda: dyn + reg
            if k == "minidebug":
                # names of functions come from the debug information alone: not compared here
                pass
    r = ctx.dump_ok(*(["--inlines"] if rng.random() < 0.3 else []), p)
    ctx.write("out.sym", r.out)
    s = sym.parse(r.out)
    bad, ne, npl, nf = oracle.publics(m, s, place=place, **kw)
    for b in bad[:5]:
        ctx.violation(b)
    ctx.tick("symbols compared", ne)
    ctx.tick("placeholders", npl)
    ctx.tick("symbols hidden by a function", nf)
    ctx.seen(k, "s%d" % min(ne, 12), "p%d" % npl, "h%d" % min(nf, 3), "base%x" % m.base, m.o["bits"])
    if case["i"] < 2:
        ctx.sample = {"case": case, "publics": [l for l in r.out.decode("utf-8", "replace").split("\n") if l.startswith("PUBLIC ")][:8]}
