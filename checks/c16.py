"""C16: path mappings rewrite source paths exactly as configured."""
import hashlib
import json
import os
import re

from vlib import gen, oracle, sym, work
from vlib.elf import dec

RULE = ("one case = a module (ELF with real and imaginary source files, Mach-O, PE with DWARF, or PDB) and a random configuration: mapping file with variables, general and file-specific "
        "rules, command-line rules and variables, destinations mixing text, groups, variables, digests and stray braces; the file text at every code address is compared with an "
        "independent evaluation of the configuration; malformed configurations must be refused. distinct = (container, rules by origin, kinds of destination parts, deciding origins, "
        "outcome) classes")
ASSUMPTIONS = ["regular expressions are drawn from constructs with the same meaning in Rust's regex and Python's re",
               "variables named like a group number or digest, empty results and command-line rules using variables of the file are not generated"]
TECHNIQUE = "output monitor with a reference evaluator of the mapping configuration, over generated configurations and modules with ground truth"
LEVEL = "exploration"
LEVEL_NOTE = "random rule sets; every address of every function resolved and compared"
MIN_DISTINCT = 150
QUICK_S, THOROUGH_S = 60, 600

BRACE = re.compile(r"\{([^{}]*)\}")


class Refused(Exception):
    pass


def cases(ctx):
    n = 900 if ctx.tier == "quick" else 16000
    kinds = ["elf", "elf", "macho", "mingw", "pdb64", "elf", "refuse", "batch"]
    return [{"i": i, "k": kinds[i % len(kinds)]} for i in range(n)]


def evaluate(rules, path):
    """(text, origin): rules = [(origin, regex, dest, vars, files)], already in order of precedence."""
    for origin, rx, dest, var, files in rules:
        if files is not None and path not in files:
            continue
        mm = re.search(rx, path)
        if not mm:
            continue
        failed = None
        out, pos = [], 0
        for b in BRACE.finditer(dest):
            out.append(dest[pos:b.start()])
            pos = b.end()
            a = b.group(1)
            if a in ("digest", "DIGEST"):
                try:
                    with open(path, "rb") as f:
                        h = hashlib.sha512(f.read()).hexdigest()
                    out.append(h if a == "digest" else h.upper())
                except OSError:
                    return path, origin + ":nofile"
            elif a in var:
                out.append(var[a])
            else:
                g = mm.group(int(a)) if int(a) <= mm.re.groups else None
                if g is None:
                    failed = True
                    break
                out.append(g)
        if failed:
            continue
        out.append(dest[pos:])
        return "".join(out), origin
    return path, "-"


def regexes(rng, paths):
    p = rng.choice(paths)
    base = p.rsplit("/", 1)[-1].rsplit("\\", 1)[-1]
    return rng.choice([
        r"^/nonexist/build/(.*)$", r"/nonexist/(b)/obj-x/(.+)", r"(.*)/([^/]*)\.(c|h|cpp)$", r"src/(.*)", r".*", r"(zz)?util", r"^.*nomatch.*$",
        r"main\.c", r"[a-z]+/(.)", "^" + re.escape(p) + "$", r"(?i)MAIN", r"^(.*)/build/(.*)$", re.escape(base) + "$", r"([^/\\]+)[/\\]([^/\\]+)$",
        r"^(/abs|/nonexist)/(.*)$", r"(.*)\.rs$", "(" + re.escape(base) + ")|(util)", r"^(.)(.)(.)", "^" + re.escape(p[:len(p) // 2]) + "(.*)$", r"(x)|(y)|(.)",
        r"^(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.*)$", "(" * 30 + ".*" + ")" * 30])


def dest(rng, rx, var):
    n = re.compile(rx).groups
    out = []
    for _ in range(rng.randrange(1, 6) if rng.random() < 0.9 else rng.choice([12, 40, 150])):
        out.append(rng.choice([
            "https://h.example/", "git:repo:", "/", "a b", "é", "\\", ":", "{", "}", "{{", "-", "x{y", "$1", "%s", "{0}",
            "{%d}" % rng.randrange(0, n + 1), "{%d}" % rng.randrange(0, n + 2), "{%d}" % rng.randrange(0, n + 1), "{digest}", "{DIGEST}",
        ] + ["{%s}" % v for v in var] * 3))
    d = "".join(out)
    ok = all(a in ("digest", "DIGEST") or a in var or a.isdigit() for a in BRACE.findall(d))
    return d if ok and d.strip() else "dst/{0}"


def run_case(ctx, case):
    rng = ctx.rng
    if case["k"] == "refuse":
        return refuse(ctx)
    cont = "elf" if case["k"] == "batch" else case["k"]
    mods = []
    for k in range(2 if case["k"] == "batch" else 1):
        if cont == "elf":
            big = rng.random() < 0.2
            m = gen.Mod(rng, **dict(dict(nfiles=rng.choice([40, 320]), cus=1, rows=30, funcs=6) if rng.random() < 0.05 else {}, one_seq=False, dup_funcs=0, soname=("m%d.so" % k).encode() if case["k"] == "batch" else None))
            src = ctx.path("srcs", "x")[:-2]
            os.makedirs(src, exist_ok=True)
            for cu in m.cus:
                if rng.random() < 0.6:
                    cu.comp_dir = src.encode()
                elif rng.random() < 0.2:
                    cu.comp_dir = b"/nonexist/build" + b"/some long directory \xc3\xa9" * rng.choice([9, 20, 60])
                for j, (d, n) in enumerate(cu.files):
                    if cu.comp_dir == src.encode() and rng.random() < 0.7:
                        p = m.path(cu, j)
                        if p.startswith(src + "/") and not os.path.exists(p):
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                            if rng.random() < 0.1:
                                os.makedirs(p)
                            else:
                                with open(p, "wb") as f:
                                    f.write(rng.randbytes(rng.choice([0, 1, 300, 300, 5000, 5000, 70000, 300000] if big else [0, 1, 300, 5000])))
            path = ctx.write("m%d.so" % k, m.full())
            place = True
        else:
            w = work.Work(ctx, cont, "plain")
            m, path = w.m, w.path
        mods.append((m, path))
    used = sorted({m.path(cu, j) for m, _ in mods for cu in m.cus for j in range(len(cu.files))})
    cli_var = {n: rng.choice(["123abc", "a=b", "", "{1}", "v w", "é", " both ", "=", "a==", "x" * 3000]) for n in rng.sample(["rev", "x", "long_name", "é", "a-b", "a b", "REV", "1x", "digest", "DIGEST", "Digest", "1", "2"] + ["v%d" % k for k in range(20)], rng.choice([0, 0, 1, 1, 2, 2, 18]))}
    file_var = {n: rng.choice(["filerev", "", "/p/", "{0}", " s ", "y" * 2000]) for n in rng.sample(["rev", "x", "y", "é", "digest", "1"], rng.randrange(0, 4))}
    rules, args = [], []
    use_file = rng.random() < 0.7
    if use_file:
        var = dict(file_var, **cli_var)
        spec, gen_, js = [], [], []
        many = rng.choice([15, 40]) if rng.random() < 0.06 else 0          # most of which match nothing
        for k in range(many + rng.randrange(0, 5)):
            rx = regexes(rng, used) if k >= many else "nothing%d(.*)" % k
            d = dest(rng, rx, var)
            files = None
            if rng.random() < 0.5:
                files = [rng.choice(used + [used[0] + "x", "/nonexist/other", os.path.basename(used[0])]) for _ in range(rng.choice([1, 2, 3, 3, 60]))]
            (spec if files else gen_).append(("file-specific" if files else "file", rx, d, var, files))
            js.append({"source": rx, "destination": d, "files": files or []})
        rules += spec + gen_
        args += ["--mapping-file", ctx.write("map.json", json.dumps({"variables": file_var, "mappings": js}, ensure_ascii=rng.random() < 0.5))]
    ncli = rng.randrange(0 if use_file else 1, 4)
    cli = []
    many = rng.choice([15, 40]) if rng.random() < 0.06 else 0
    for k in range(many + ncli):
        rx = regexes(rng, used) if k >= many else "nothing%d(.*)" % k
        cli.append(("cli", rx, dest(rng, rx, cli_var), cli_var, None))
    rules += cli
    inter = rng.random() < 0.5
    if inter:
        for r in cli:
            args += ["--mapping-src=" + r[1], "--mapping-dest=" + r[2]]
    else:
        args += ["--mapping-dest=" + r[2] for r in cli] + ["--mapping-src=" + r[1] for r in cli]
    for k, v in cli_var.items():
        if rng.random() < 0.15:
            args.append("--mapping-var=%s=overridden-later" % k)
        args.append("--mapping-var=%s=%s" % (k, v))
    origins = set()

    def mapped(orig):
        def f(cu, j):
            t, o = evaluate(rules, orig(cu, j))
            origins.add(o)
            return t
        return f
    if any(evaluate(rules, p)[0].strip() == "" for p in used):
        return
    inl = ["--inlines"] if rng.random() < 0.5 else []
    if case["k"] == "batch":
        st = ctx.path("store", "x")[:-2]
        ctx.dump_ok(*inl, *args, "--store", st, "-j", str(rng.choice([1, 2, 4])), *[p for _, p in mods], what="mapping %r" % (rules,))
        outs = []
        for k in range(2):
            d = os.path.join(st, "m%d.so" % k)
            outs.append(open(os.path.join(d, os.listdir(d)[0], "m%d.so.sym" % k), "rb").read())
    else:
        outs = [ctx.dump_ok(*inl, *args, mods[0][1], what="mapping %r" % (rules,)).out]
    for (m, _), out in zip(mods, outs):
        m.path = mapped(m.path)
        s = sym.parse(out)
        errs, n = (oracle.lines_inl if inl else oracle.lines_noinl)(m, s)[:2]
        ctx.tick("addresses resolved", n)
        for e in errs[:2]:
            ctx.violation("rules %r: %s" % (rules, e))
        extra = set(s.files.values()) - {m.path(cu, j) for cu in m.cus for j in range(len(cu.files))}
        if extra:
            ctx.violation("rules %r: FILE records %r result from no source file" % (rules, sorted(extra)[:3]))
        for o in origins:
            ctx.tick("decided by " + o)
    if rules:
        kinds = {("var" if a in cli_var or a in file_var else a.lower() if a.lower() == "digest" else "group") for r in rules for a in BRACE.findall(r[2])}
        ctx.seen(case["k"], len(cli), len(rules) - len(cli), *sorted(kinds), "->", *sorted(origins), bool(inl))
    if case["i"] < 4:
        ctx.sample = {"case": case, "rules": [r[:3] for r in rules], "example": {p: evaluate(rules, p)[0] for p in used[:3]}}


def refuse(ctx):
    rng = ctx.rng
    w = work.Work(ctx, "elf", "plain")
    good = {"source": "(.*)", "destination": "{0}", "files": []}
    kind, args = rng.choice([
        ("regex", ["--mapping-src=(", "--mapping-dest=x"]),
        ("regex", ["--mapping-src=[z-a]", "--mapping-dest=x"]),
        ("action", ["--mapping-src=.*", "--mapping-dest={unknown}"]),
        ("action", ["--mapping-src=.*", "--mapping-dest=a{}b"]),
        ("action", ["--mapping-src=.*", "--mapping-dest={-1}"]),
        ("action", ["--mapping-src=a", "--mapping-dest={0}", "--mapping-src=b", "--mapping-dest={Digest}"]),
        ("var", ["--mapping-var=rev", "--mapping-src=.*", "--mapping-dest=x"]),
        ("var", ["--mapping-var=", "--mapping-src=.*", "--mapping-dest=x"]),
        ("var", ["--mapping-var=a=b", "--mapping-var=bad", "--mapping-src=.*", "--mapping-dest={a}"]),
        ("var", ["--mapping-var=rev"]),
        ("count", ["--mapping-src=.*"]),
        ("count", ["--mapping-dest=x"]),
        ("count", ["--mapping-src=a", "--mapping-src=b", "--mapping-dest=x"]),
        ("count", ["--mapping-src=a", "--mapping-dest=b", "--mapping-dest=x"]),
        ("file", ["--mapping-file", "/nonexist/map.json"]),
        ("file", ["--mapping-file", ctx.write("bad1.json", "{")]),
        ("file", ["--mapping-file", ctx.write("bad2.json", "")]),
        ("file", ["--mapping-file", ctx.write("bad3.json", json.dumps({"variables": {}, "mappings": [dict(good, source="(")]}))]),
        ("file", ["--mapping-file", ctx.write("bad4.json", json.dumps({"variables": {}, "mappings": [good, dict(good, destination="{nope}")]}))]),
        ("file", ["--mapping-file", ctx.write("bad5.json", json.dumps({"variables": {}, "mappings": [dict(good, destination="{nope}", files=["/x"])]}))]),
        ("file", ["--mapping-file", ctx.write("bad6.json", json.dumps({"variables": {}, "mappings": [{"destination": "x", "files": []}]}))]),
        ("file", ["--mapping-file", ctx.write("bad7.json", json.dumps([]))]),
        ("file", ["--mapping-file", ctx.work]),
    ])
    n = rng.choice([1, 1, 2])
    out = ctx.path("o", "x")[:-2]
    os.makedirs(out, exist_ok=True)
    o = rng.choice([[], ["-o", out + "/f.sym"], ["--store", out + "/st"]])
    r = ctx.dump(*args, *o, *[w.path] * n)
    if r.hang or r.rc == 0 or r.rc < 0:
        ctx.violation("malformed mapping (%s) %r is not refused: %s" % (kind, args, r.describe()))
    elif not r.err.strip():
        ctx.violation("malformed mapping %r: no message" % (args,))
    if r.out or os.listdir(out):
        ctx.violation("malformed mapping %r: output was written" % (args,))
    ctx.tick("refused")
    ctx.seen("refuse", kind, args[-1][:20], n, bool(o))
