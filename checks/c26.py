"""C26: INFO lines and the generator line."""
import os
import re

from vlib import gen, sym, work
from vlib.common import REPO
from .c09 import stored

RULE = ("one case = a module or a batch (any container, pairs included) dumped with a random list of --extra-info values (valid ones with any text, repeated, long, non-ASCII; or with one "
        "malformed value among them) with and without --no-generator, to a file, a store, standard output or both; the INFO block of every symbol file is compared with the "
        "expected text line by line, the rest of the file with a run without the options. distinct = distinct (container, #values, generator, output, malformed class) classes")
ASSUMPTIONS = ["a keyword is one or more of A-Z and _; values whose text is empty are not used"]
TECHNIQUE = "output monitor: INFO block of real runs against the command line"
LEVEL = "exploration"
LEVEL_NOTE = "generated command lines in every container"
MIN_DISTINCT = 40
QUICK_S, THOROUGH_S = 60, 600

GOOD = ["URL https://example.org/x?y=1&z", "RELEASE 1.2", "VENDOR Mozilla Corp  double  space", "A b", "_ x", "MULTI_WORD_KEY v", "UNICODE caf\u00e9 \u2713 \U0001f980", "CODE_ID 1234 x",
        "GENERATOR other 1.0", "LONG " + "x" * 5000, "QUOTE \"a\" 'b' \\n", "TRAILING x ", "NUMBERS 0 1 2", "MODULE Linux x86 0 y", "BRACE {} {0} %s", "DUP a", "DUP a"]
BAD = {"lower": ["url x", "release 1.2"], "mixed": ["Url x", "uRL x"], "notext": ["URL"], "empty": [""], "space": [" ", " URL x"], "newline": ["URL x\nFUNC 0 1 0 evil", "URL x\n", "URL\nx"],
       "cr": ["URL x\ry", "URL x\r"], "tabsep": ["URL\tx"], "punct": ["URL: x", "A-B x"], "control": ["URL x\x01", "URL \x1b[0m"]}


def cases(ctx):
    n = 2800 if ctx.tier == "quick" else 12000
    return [{"i": i, "bad": i % 4 == 3} for i in range(n)]


def version():
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    return re.search(r'(?ms)^\[package\].*?^version\s*=\s*"([^"]+)"', t).group(1)


def run_case(ctx, case):
    rng = ctx.rng
    c = rng.choice(work.CONTAINERS + ["pair", "batch"])
    if c in ("pair", "batch"):
        m = gen.Mod(rng, dyn=2)
        files = [ctx.write("m.so", m.stripped()), ctx.write("m.dbg", m.debug_only())]
        if c == "batch":
            files += [ctx.write("n%d.so" % k, gen.Mod(rng).full()) for k in range(2)]
    else:
        w = work.Work(ctx, c, "plain")
        files = [w.path]
    vals = [rng.choice(GOOD) for _ in range(rng.choice([0, 1, 1, 2, 3, 6, 20, 70]))]
    badk = None
    if case["bad"]:
        badk = rng.choice(sorted(BAD))
        vals.insert(rng.randrange(len(vals) + 1), rng.choice(BAD[badk]))
    nogen = rng.random() < 0.5
    out = rng.choice(["store", "stdout", "file", "both"])
    if len(files) > 1:
        out = "store"
    st, fo = ctx.path("st"), ctx.path("o.sym")
    args = {"store": ["--store", st], "file": ["-o", fo], "stdout": [], "both": ["--store", st, "-o", fo]}[out]
    if nogen:
        args.append("--no-generator")
    for v in vals:
        args += ["--extra-info=" + v] if rng.random() < 0.5 or v.startswith("-") else ["--extra-info", v]
    rng.random()
    if badk is not None:
        r = ctx.dump(*args, *files)
        if r.hang or r.rc == 0:
            ctx.violation("malformed --extra-info (%s) in %r is accepted (rc %r, hang %r)" % (badk, vals, r.rc, r.hang))
        if r.out or os.path.exists(st) or os.path.exists(fo):
            ctx.violation("malformed --extra-info (%s): output is written all the same" % badk)
        if not r.err.strip():
            ctx.violation("malformed --extra-info (%s): no message" % badk)
        ctx.tick("refused")
        ctx.seen("bad", badk, out, len(vals))
        return
    r = ctx.dump_ok(*args, *files)
    outs = stored(st) + ([open(fo, "rb").read()] if out in ("file", "both") else []) + ([r.out] if out == "stdout" else [])
    ctx.dump_ok("--no-generator", "--store", ctx.path("ref"), *files)
    ref = {sym.parse(x).module: x.decode().split("\n") for x in stored(ctx.path("ref"))}
    if out != "both" and len(outs) != len(ref) or out == "both" and len(outs) != 2:
        ctx.violation("%d outputs" % len(outs))
    tail = ["INFO " + v for v in vals] + ([] if nogen else ["INFO GENERATOR mozilla/dump_syms " + version()])
    for x in outs:
        s = sym.parse(x)
        base = ref.get(s.module)
        if base is None:
            ctx.violation("unknown module %r" % (s.module,))
            continue
        k = 1
        if len(base) > 1 and base[1].startswith("INFO CODE_ID"):
            k = 2
        exp = base[:k] + tail + base[k:]
        have = x.decode("utf-8", "replace").split("\n")
        if have != exp:
            n = next((i for i, (p, q) in enumerate(zip(have, exp)) if p != q), min(len(have), len(exp)))
            ctx.violation("line %d is %r, expected %r (values %r, generator %s)" % (n + 1, have[n:n + 1], exp[n:n + 1], vals[:5], not nogen))
        ctx.tick("symbol files compared")
        ctx.tick("INFO lines compared", len(tail))
    ctx.seen(c, len(vals), nogen, out, k)
    if case["i"] < 3:
        ctx.sample = {"case": case, "container": c, "infos": s.infos[:4]}
