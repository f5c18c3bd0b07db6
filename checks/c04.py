"""C04: address -> complete inline stack, with inlines."""
from vlib import oracle, sym, work
from .c03 import plan

RULE = ("one case = one generated module as in C03 (ELF, Mach-O, dSYM, MinGW PE, PDB), dumped with --inlines; for each address the stack of "
        "(function, file, line) is rebuilt from INLINE/INLINE_ORIGIN/line records and compared with the specification. distinct = distinct "
        "(container, shape, dwarf versions, depths seen, #INLINE bucket) classes")
ASSUMPTIONS = ["the module writers in vlib/ encode the specification (ELF: cross-checked with readelf; PDB: written by llvm-mc and lld-link)"]
TECHNIQUE = "inline-stack monitor of real runs against the specification each module was generated from"
LEVEL = "exploration"
LEVEL_NOTE = "randomly generated modules; every address of every function is compared"
MIN_DISTINCT = 20
QUICK_S, THOROUGH_S = 60, 600

SHAPES = ["plain", "nested", "dense", "split", "long", "unrolled", "suffix"] + work.EXTREME


def cases(ctx):
    return plan(2376 if ctx.tier == "quick" else 20000, SHAPES)


def run_case(ctx, case):
    o = {} if case["shape"] in ("nested", "unrolled") else dict(inl_prob=0.9)
    w = work.Work(ctx, case["c"], case["shape"], **o)
    m = w.m
    r = ctx.dump_ok("--inlines", w.path)
    ctx.write("out.sym", r.out)
    s = sym.parse(r.out)
    bad, n, depths = oracle.lines_inl(m, s)
    ctx.tick("addresses resolved", n)
    ctx.tick("modules in " + case["c"])
    ninl = sum(len(f.inlines) for f in s.funcs)
    ctx.tick("INLINE records", ninl)
    for b in bad[:5]:
        ctx.violation(b)
    if n and ninl:
        ctx.seen(w.sig(), case["shape"], "depths%s" % sorted(depths), "i%d" % min(9, ninl // 4))
    if case["i"] < 2:
        ctx.sample = {"case": case, "functions": len(s.funcs), "addresses": n, "inlines": ninl,
                      "first": [l for l in r.out.decode("utf-8", "replace").split("\n") if l.startswith("INLINE ")][:6]}
