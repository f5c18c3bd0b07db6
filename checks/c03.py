"""C03: address -> outermost source line, without inlines."""
from vlib import oracle, sym, work

RULE = ("one case = one generated module (ELF 32/64 bit in both byte orders, Mach-O, dSYM, MinGW PE with DWARF 4/5, PDB x64/x86; random units, "
        "rows, nested/adjacent/multi-range inlined calls, line-0 rows, compressed sections) dumped without inlines; each address of each "
        "function is resolved in the dump and compared with the specification the module was written from. distinct = distinct "
        "(container, shape, dwarf versions, image base, #functions, #line records bucket) classes with at least one resolved address")
ASSUMPTIONS = ["the module writers in vlib/ encode the specification (ELF: cross-checked with readelf; PDB: written by llvm-mc and lld-link)"]
TECHNIQUE = "address-to-line monitor of real runs against the specification each module was generated from"
LEVEL = "exploration"
LEVEL_NOTE = "randomly generated modules; every address of every function is compared"
MIN_DISTINCT = 20
QUICK_S, THOROUGH_S = 60, 600

SHAPES = ["plain", "zero", "nested", "dense", "split", "long", "unrolled"] + work.EXTREME


def plan(n, shapes, containers=work.CONTAINERS):
    return [{"i": i, "shape": shapes[i % len(shapes)], "c": containers[(i // len(shapes)) % len(containers)]} for i in range(n)] + \
        [{"i": n + i, "shape": s, "c": c} for i, (s, c) in enumerate((s, c) for s in work.RARE for c in ("elf", "elf32"))]


def cases(ctx):
    return plan(2376 if ctx.tier == "quick" else 20000, SHAPES)


def run_case(ctx, case):
    w = work.Work(ctx, case["c"], case["shape"])
    m = w.m
    r = ctx.dump_ok(w.path)
    ctx.write("out.sym", r.out)
    s = sym.parse(r.out)
    bad, n = oracle.lines_noinl(m, s)
    ctx.tick("addresses resolved", n)
    ctx.tick("modules in " + case["c"])
    nl = sum(len(f.lines) for f in s.funcs)
    ctx.tick("line records", nl)
    for b in bad[:5]:
        ctx.violation(b)
    if n:
        ctx.seen(w.sig(), case["shape"], "base%x" % m.base, "f%d" % min(20, len(s.funcs)), "l%d" % min(9, nl // 5))
    if case["i"] < 2:
        ctx.sample = {"case": case, "functions": len(s.funcs), "addresses": n, "first": r.out.decode("utf-8", "replace").split("\n")[:12]}
