"""C08: Windows symbols: decorations, parameter sizes, constants, placeholders."""
import re

from vlib import gen, pe, sym, win

RULE = ("one case = one generated PE (32 or 64 bit, with or without DWARF functions, exports with generated names, exception table entries before, inside, at and across functions and each other) or one PDB "
        "(linked by lld-link, public symbols with generated names inside, at and outside functions with and without type) dumped by the real program. Names: all four calling-convention decorations with sizes from 0 to 2^32-1, "
        "near-decorations that must stay, Microsoft C++ names with known meaning, names with : or ( , compiler constants and names that look like them, non-ASCII. Every FUNC and PUBLIC record is "
        "compared with the expected set in both directions: address, size, parameter size, multiplicity, name. distinct = (container, record, name class, position class)")
ASSUMPTIONS = ["the name and parameter size shown when several symbols share one address is that of any of them", "forwarded exports and MinGW C++ names (whose underscore is removed, as the project's own expected outputs have it) are not covered",
               "the exception table is only used for an executable dumped without a PDB"]
TECHNIQUE = "record-set monitor of real runs on generated PE and PDB files against the names, symbols and exception tables they were generated from"
LEVEL = "exploration"
LEVEL_NOTE = "thousands of generated modules; complete record sets compared"
MIN_DISTINCT = 60
QUICK_S, THOROUGH_S = 60, 600

KINDS = ["pe64", "pe64", "pe32", "dwarf", "dwarf", "pdb64", "pdb32", "pdb32"]


def cases(ctx):
    n = 960 if ctx.tier == "quick" else 16000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


U32 = 1 << 32


def size(rng):
    return rng.choice([0, 4, 8, 12, 16, 20, 100, 255, 256, 260, 1024, 65535, 65536, 0x7fffffff, 0x80000000, U32 - 1, rng.randrange(U32), rng.randrange(64) * 4])


def ident(rng, k):
    return rng.choice(["Foo%d", "do_it%d", "x%d", "a_b_%d", "A%d_", "na\u00efve%d", "f.%d", "$f%d", "Get%dW", "__main%d", "\u00e9t%d", "\u65e5%d", "\U0001f980%d", "q@%da", "r@@%dx", "p%d@b"]) % k


MS = [("?%s@@YAXXZ", "%s(void)"), ("?%s@ns@@YAHH@Z", "ns::%s(int)"), ("?%s@C@@QEAAXN@Z", "C::%s(double)"), ("??0%s@@QEAA@XZ", "%s::%s(void)"), ("??1%s@@UEAA@XZ", "%s::~%s(void)"),
      ("??_G%s@@UEAAPEAXI@Z", "%s::`scalar deleting destructor'(unsigned int)"), ("??_E%s@@UEAAPEAXI@Z", "%s::`vector deleting destructor'(unsigned int)"), ("?%s@C@@SAXH@Z", "C::%s(int)"),
      ("??$%s@H@@YAXH@Z", "%s<int>(int)"), ("??H%s@@QEAAHH@Z", "%s::operator+(int)"), ("?%s@@YAXPEBDAEAH@Z", "%s(char const*, int&)")]


def name(rng, k):
    """(class, text in the file, printed text, parameter size); text None: not listed."""
    c = rng.choice(["cdecl", "stdcall", "stdcall", "fastcall", "fastcall", "vectorcall", "vectorcall", "plain", "plain", "near", "near", "ms", "ms", "verbatim", "const", "likeconst"])
    i = ident(rng, k)
    n = size(rng)
    pad = "0" * rng.choice([0, 0, 0, 0, 2])
    if c == "cdecl":
        if re.search(r"@\d+$", i):
            i = "y%d" % k
        return c, "_" + i, i, 0
    if c == "stdcall":
        return c, "_%s@%s%d" % (i, pad, n), i, n
    if c == "fastcall":
        return c, "@%s@%s%d" % (i, pad, n), i, n
    if c == "vectorcall":
        p = rng.choice(["", "", "_", "@", "__", "v@@8"])
        return c, "%s%s@@%s%d" % (p, i, pad, n), p + i, n
    if c == "plain":
        t = ident(rng, k)
        if t.startswith("_"):
            return "cdecl", t, t[1:], 0
        return c, t, t, 0
    if c == "near":
        b = "n%d" % k
        t, e, s = rng.choice([(b + "@12", b + "@12", 0), ("_%s@" % b, b + "@", 0), ("_%s@4x" % b, b + "@4x", 0), ("@" + b, "@" + b, 0), ("@%s@x" % b, "@%s@x" % b, 0), (b + "@@", b + "@@", 0),
                              ("_%s@%d" % (b, U32 + rng.randrange(10 ** 9)), None, 0), (b + "@@x4", b + "@@x4", 0), ("__" + b, "_" + b, 0), ("___%s@8" % b, "__" + b, 8), ("@_%s@8" % b, "_" + b, 8),
                              ("_@%s@8" % b, "@" + b, 8), (b + "@@%d" % U32, b + "@@%d" % U32, 0), ("@%s@@16" % b, "@" + b, 16), ("_%s@-4" % b, b + "@-4", 0), ("_%s@4@8" % b, b + "@4", 8), (b + " @@4", b + " ", 4)])
        if e is None:
            e = t[1:]
        return c, t, e, s
    if c == "ms":
        a, b = rng.choice(MS)
        w = "M%d" % k
        return c, a % w, b % ((w,) * b.count("%s")), 0
    if c == "verbatim":
        t = rng.choice(["_f%d(int)", "ns::_g%d@8", "_C%d::f@4", "@(x%d)@8", "_h%d(char, int)@@16", "a%d::b@@4", "_x%d:y@4"]) % k
        return c, t, t, 0
    if c == "const":
        t = rng.choice(["??_C@_0%d@ABC@str?$AA@", "??_C@_1%d@XYZ@", "__real@%08x", "__xmm@%032x", "__ymm@%064x", "__real@%d@4"]) % k
        return c, t, None, 0
    t, e = rng.choice([("__realx%d", "_realx%d"), ("_real@q%d", "real@q%d"), ("real@r%d", "real@r%d"), ("__xmm_%d", "_xmm_%d"), ("__yMM@q%d", "_yMM@q%d"), ("___real@w%d", "__real@w%d"), ("x??_C@_%d", "x??_C@_%d"),
                       ("__ymmr%d", "_ymmr%d")])
    return c, t % k, e % k, 0


def model(funcs, pdata, names, module, final, order=True):
    """funcs: {rva: (size, name, needs_name)}; pdata: [(lo, hi)] in table order; names: [(cls, raw, text, psize, rva)].
    Returns {rva: (kind, size, allowed psizes, multiple or None, allowed names, class)}."""
    out = {}
    placeholder = "<unknown in %s>" % module

    def inside(a):
        b = [x for x in out if x < a]
        return bool(b) and a - max(b) < out[max(b)][1]

    for a, (sz, nm, bare) in funcs.items():
        out[a] = ["FUNC", sz, {0}, False, {nm}, "function" + (" without type" if bare else ""), bare]
    for lo, hi in pdata:
        if hi < lo or inside(lo) or lo in out:
            continue
        out[lo] = ["FUNC", hi - lo, {0}, False, {placeholder}, "placeholder", True]
    pubs = {}
    for cls, raw, text, ps, rva in names:
        if text is None or inside(rva):
            continue
        pubs.setdefault(rva, []).append((cls, text, ps, raw))
    for rva, l in pubs.items():
        if rva in out:
            o = out[rva]
            if o[6]:
                o[4] = {t for _, t, _, _ in l}
                o[5] += " named by " + l[0][0]
            ps = {p for _, _, p, raw in l if p or re.search(r"@0*0$", raw)}
            if len(l) == 1:
                o[2] = {l[0][2]}
            elif ps:
                o[2] = ps
        else:
            ts = {t for _, t, _, _ in l}
            out[rva] = ["PUBLIC", 0, {p for _, _, p, _ in l}, len(ts) > 1, ts, ("several" if len(l) > 1 else l[0][0]), False]
    if out:
        last = max(out)
        a = last + max(out[last][1], 1)
        out[a] = ["PUBLIC", 0, {0}, False, {"<unknown in %s>" % final}, "final", False]
    return out


def compare(ctx, s, want, kind):
    got = s.by_addr()
    for a in sorted(set(want) - set(got)):
        ctx.violation("%s: no record at %x for %s" % (kind, a, want[a]))
    for a in sorted(set(got) - set(want)):
        ctx.violation("%s: unexpected record at %x: %r" % (kind, a, got[a].name))
    for a in set(got) & set(want):
        k, sz, ps, mult, names, cls, _ = want[a]
        g = got[a]
        gk = "FUNC" if isinstance(g, sym.F) else "PUBLIC"
        if gk != k:
            ctx.violation("%s: %x is %s %r instead of %s %s" % (kind, a, gk, g.name, k, names))
            continue
        if k == "FUNC" and g.size != sz:
            ctx.violation("%s: FUNC %x has size %x instead of %x" % (kind, a, g.size, sz))
        if g.psize not in ps:
            ctx.violation("%s: %s %x %r has parameter size %x, expected one of %s" % (kind, k, a, g.name, g.psize, ["%x" % p for p in ps]))
        if g.name.strip() not in {n.strip() for n in names}:
            ctx.violation("%s: %s %x is named %r, expected %s" % (kind, k, a, g.name, sorted(names)[:4]))
        if mult is not None and bool(g.multiple) != mult:
            ctx.violation("%s: %s %x %r: multiple is %s" % (kind, k, a, g.name, g.multiple))
        ctx.seen(kind, k, cls)
        ctx.tick("records compared")
        if cls.startswith("placeholder"):
            ctx.tick("exception table functions")
        if max(ps) > 0:
            ctx.tick("parameter sizes")


def spots(rng, ranges, lo, hi, n):
    """Addresses in, at the borders of, and between the ranges."""
    out = []
    for _ in range(n):
        r = rng.random()
        if ranges and r < 0.5:
            a, b = rng.choice(ranges)
            out.append(rng.choice([a, a, a + 1, b - 1, b, b, b + 1, (a + b) // 2]))
        elif out and r < 0.6:
            out.append(rng.choice(out))
        else:
            out.append(rng.randrange(lo, hi))
    return [min(max(x, lo), hi - 1) for x in out]


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    k0 = [0]

    def nm():
        k0[0] += 1
        return name(rng, k0[0])

    nn = rng.choice([0, 1, 4, 12, 30])
    if kind in ("pe64", "pe32", "dwarf"):
        m, funcs, extra = None, {}, []
        lo, hi = 0x2000, 0x4000
        if kind == "dwarf":
            o = dict(pe.opts())
            o.update(dyn=0, langs=(rng.choice(["c", "cpp"]),), multi_range=0, dup_funcs=0, suffix=0, inl_prob=0.3)
            m = gen.Mod(rng, **o)
            m.path = pe.win_path
            hi = lo + m.execs[0][2]
            for a, e in m.expected_funcs().items():
                # an export at its address names the function
                funcs[a] = (e["size"], e["name"], True)
        fr = [(a, a + f[0]) for a, f in funcs.items()]
        pdata = []
        if kind != "pe32":
            for _ in range(rng.choice([0, 1, 3, 8, 20])):
                ranges = fr + pdata
                if ranges and rng.random() < 0.6:
                    a, b = rng.choice(ranges)
                    p = rng.choice([a, a + 1, b - 1, b, b, (a + b) // 2, max(lo, a - 3)])
                else:
                    p = rng.randrange(lo, hi - 0x100)
                p = min(max(p, lo), hi - 0x100)
                e = p + rng.choice([1, 2, 7, 16, 0x40, 0xff])
                if not any(a <= p < b for a, b in fr):
                    # between functions: it ends before the next one
                    e = min([e] + [a for a, b in fr if a > p])
                pdata.append((p, e))
            pdata = sorted(set(pdata))
        ns = [nm() + (a,) for a in spots(rng, fr + pdata, lo, hi, nn)]
        ns = [x for x in ns if not (x[0] == "const" and x[4] in funcs)]
        # the export table is sorted by name: no two equal names
        ns = list({x[1].encode(): x for x in ns}.values())
        rec = rng.choice([b"C:\\obj\\rec.pdb", b"rec.pdb", None]) if kind != "dwarf" else b"C:\\obj\\rec.pdb"
        p = pe.Pe(m, machine=0x14c if kind == "pe32" else 0x8664, exports=[(x[1].encode(), x[4]) for x in ns], pdata=pdata, pdb_path=rec, text_size=0x2000, is_dll=True, guid=rng.randbytes(16))
        path = ctx.write("mod.dll", p.build())
        want = model(funcs, pdata, ns, "mod.dll", "rec.pdb" if rec else "mod.dll")
    else:
        arch = "x64" if kind == "pdb64" else "x86"
        m = gen.Mod(rng, langs=("c",), pie=True, multi_range=0, publics=0, extra_exec=0, text=0x1000, dyn=0, version=4, dup_funcs=0, suffix=0, cus=rng.choice([0, 1, 2]), inl_prob=0.2, symtab=0)
        m.syms[:] = []
        t0 = m.execs[0][1]
        labels, untyped, at = {}, set(), {}
        for k, (fn, cu, lo, hi) in enumerate(m.decl):
            if rng.random() < 0.5:
                untyped.add(k)
            while True:
                x = nm()
                if '"' not in x[1] and not x[1].startswith("@feat"):
                    break
            labels[k] = x[1]
            at[k] = x
        fr = [(lo - t0, hi - t0) for fn, cu, lo, hi in m.decl]
        ex = []
        for a in spots(rng, fr, 0, 0x1000, nn):
            x = nm()
            if x[1] not in labels.values() and x[1] not in [e[1] for e in ex]:
                ex.append(x + (a,))
        w = win.WinMod(m, arch=arch, extra_pub=[(x[1], x[4]) for x in ex], labels=labels, untyped=untyped)
        exe, path = w.build(ctx.work, "m")
        funcs = {}
        for a, e in m.expected_funcs().items():
            k = [i for i, d in enumerate(m.decl) if d[0] is e["fn"]][0]
            funcs[a] = (e["size"], e["name"], k in untyped)
        ns = [at[k] + (lo - m.base,) for k, (fn, cu, lo, hi) in enumerate(m.decl)] + [x[:4] + (x[4] + t0 - m.base,) for x in ex]
        want = model(funcs, [], ns, "m.dll", "m.pdb")
        if rng.random() < 0.5:
            path = exe
    r = ctx.dump_ok(*(["--inlines"] if rng.random() < 0.3 else []), path)
    ctx.write("out.sym", r.out)
    compare(ctx, sym.parse(r.out), want, kind)
    ctx.tick("modules " + kind)
    if case["i"] < 8:
        ctx.sample = {"case": case, "records": [l for l in r.out.decode("utf-8", "replace").split("\n") if l[:5] in ("FUNC ", "PUBLI")][:6]}
