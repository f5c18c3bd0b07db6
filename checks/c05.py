"""C05: FUNC records are exactly the functions of the debug information."""
from vlib import oracle, sym, work
from .c03 import plan

RULE = ("one case = one generated module (ELF, Mach-O, dSYM, MinGW PE, PDB; several units, split functions, identical code folding, dead code, also of functions in two pieces, at "
        "address 0, compiler suffixes, symbol tables naming some functions) dumped with or without --inlines; the FUNC records are compared "
        "as a set with the functions of the specification (address, size, name, multiplicity, parameter size). distinct = distinct (container, "
        "shape, versions, image base, #functions, #multiple) classes")
ASSUMPTIONS = ["the module writers in vlib/ encode the specification", "offsets into the image below 4 GiB (the record format's address width)"]
TECHNIQUE = "FUNC-set monitor of real runs against the specification each module was generated from"
LEVEL = "exploration"
LEVEL_NOTE = "randomly generated modules; the whole set of FUNC records is compared"
MIN_DISTINCT = 20
QUICK_S, THOROUGH_S = 60, 600

SHAPES = ["plain", "dups", "split", "dense", "suffix", "manysyms", "long"] + work.EXTREME


def cases(ctx):
    return plan(2376 if ctx.tier == "quick" else 20000, SHAPES)


def run_case(ctx, case):
    rng = ctx.rng
    o = {}
    if case["c"] not in work.PDB and rng.random() < 0.4:
        o.update(dead=(0,), dead2=0.5)
    if case["shape"] == "dups" and rng.random() < 0.5:
        o["multi_range"] = 0.5
    damage = None
    if case["c"].startswith("elf") and rng.random() < 0.2:
        o.update(cus=rng.choice([2, 3, 5]), compress=False)
        damage = rng.choice(["abbrev", "stmt", "size"])
    w = work.Work(ctx, case["c"], case["shape"], **o)
    m = w.m
    if damage:
        # one unit of the debug information cannot be read
        cu = rng.choice(m.cus)
        if damage != "size" or len(cu.funcs[0].ranges) == 1 and cu.funcs[0].ranges[0][0]:
            cu.damage = damage
            w.path = ctx.write("m.so", m.full())
            m.decl = [d for d in m.decl if d[1] is not cu]
            lost = {lo - m.base for f in cu.funcs for lo, hi in f.ranges}
            ctx.tick("modules with an unreadable unit")
        else:
            damage = None
    args = ["--inlines"] if rng.random() < 0.5 else []
    r = ctx.dump_ok(*args, w.path)
    ctx.write("out.sym", r.out)
    s = sym.parse(r.out)
    if damage:
        s.records = [f for f in s.records if f.addr not in lost]
    bad, n = oracle.funcs(m, s)
    ctx.tick("functions compared", n)
    ctx.tick("modules in " + case["c"])
    for b in bad[:5]:
        ctx.violation(b)
    mult = sum(f.multiple for f in s.funcs)
    ctx.tick("multiple", mult)
    ctx.tick("functions in several pieces", sum(len(f.ranges) > 1 for c in m.cus for f in c.funcs))
    if n:
        ctx.seen(w.sig(), case["shape"], "base%x" % m.base, "f%d" % min(n, 20), "m%d" % min(mult, 3), "dead" if o.get("dead") else "")
    if case["i"] < 2:
        ctx.sample = {"case": case, "functions": n, "first": [l for l in r.out.decode("utf-8", "replace").split("\n") if l.startswith("FUNC ")][:6]}
