"""C23: arbitrary input files never crash, hang or yield a false success."""
import os
import re
import shutil
import struct

from vlib import cab, gen, hostile, macho, mutate, pe, sym, work
from vlib.common import VERIF, Inconclusive

RULE = ("one case = a valid module (ELF, Mach-O, fat, MinGW PE, PE with its PDB, PDB, dSYM bundle, cabinet, compressed debug sections) and a series of damaged versions of it (single bits to "
        "garbage, boundary integers, truncations, splices, aimed at each header, table, section and stream), or raw bytes behind a known signature; each is given to the real program with "
        "varying options, as the only input, next to its partner, or merged with an intact one; observed: signal, CPU time, memory, message, output file, and the "
        "complete output on success. distinct = distinct (container, damaged part, kind of damage, outcome) classes")
ASSUMPTIONS = ["ending with status 101 and a message (a caught panic) is a failure with a message, not a crash, unless it is a failed index, unwrap or arithmetic in the program's own source files; such failures inside the libraries it calls are counted only", "limits: 30 s of CPU time and 6 GB of address space for inputs below 300 kB",
               "sections that expand on decompression are small"]
TECHNIQUE = "mutation workload against the real program; monitors on signals, CPU time, address space, messages, output files, and grammar and references of whatever is printed"
LEVEL = "exploration"
LEVEL_NOTE = "seeded mutations of generated files; no enumeration"
MIN_DISTINCT = 200
QUICK_S, THOROUGH_S = 75, 840

KINDS = ["elf", "elf32", "elfbe", "macho", "fat", "mingw", "barepe", "pdb64", "pdb32", "pair", "cab", "bundle", "zlib", "merge", "raw", "names", "elfdebug", "machodebug", "pdbdebug", "deep"]
PER = 14
MB = 6144


def cases(ctx):
    n = 400 if ctx.tier == "quick" else 14000
    return [{"i": -1, "kind": "known"}] + [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def findings():
    """Call sites listed in known_findings.txt for this property: {site: text}."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=C23 site=(\S+) (.*)", l)
            if m:
                out[m.group(1)] = m.group(2).strip()
    return out


def site(ctx, args):
    """Where an allocation that failed was asked for: crate/file/function of the innermost frame outside the standard library."""
    r = ctx.dump(*args, cpu_limit=60.0, watchdog=200.0, mem_mb=MB, env={"RUST_BACKTRACE": "1"})
    if r.rc != -6 or "memory allocation of" not in r.err:
        return None
    for fn, at in re.findall(r"^ *\d+: (.*)\n *at (.*)$", r.err, re.M):
        if "rustlib" in at or "/rustc/" in at:
            continue
        m = re.search(r"/registry/src/[^/]*/([^/]+?)-\d[^/]*/src/(.*?):\d", at)
        return "%s/%s/%s" % (m.group(1), m.group(2), fn.split("::")[-1]) if m else at
    return None


def known(ctx, r, args):
    """True if the run ended at a listed call site."""
    if r.rc == -6 and "memory allocation of" in r.err:
        k = site(ctx, args)
        ctx.tick("failed allocations")
        f = findings()
        if k in f:
            ctx.known.append("site=%s %s" % (k, f[k]))
            return True
    return False


# what the language says when code goes wrong, as opposed to a panic raised with a text of its own
ACCIDENT = re.compile(r"panic occurred at (src/[^:\s]+:\d+): (called `|index out of bounds|attempt to |range (start|end)|slice index|(start|end) byte index|byte index|internal error|explicit panic|not (yet )?implemented|"
                      r"(mid|at|index) > len|removal index|insertion index|swap_remove|assertion |already (mutably )?borrowed|source slice length|destination|copy_from_slice|chunk|capacity overflow|division|remainder)")


def accident(ctx, r, what):
    """A failed index, unwrap or arithmetic in the program's own code is no way to refuse an input."""
    m = ACCIDENT.search(re.sub(r"\x1b\[[0-9;]*m", "", r.err))
    if m:
        ctx.violation("%s: the program itself goes wrong: %s: %s" % (what, m.group(0)[9:], r.describe()))
        return True
    return False


def listed(ctx, key, args, what, mem_mb):
    """An input that is itself listed as a known finding: {input=key}."""
    r = ctx.dump(*args, cpu_limit=30.0, watchdog=200.0, mem_mb=mem_mb)
    if r.hang == "slow":
        raise Inconclusive("watchdog: " + r.describe())
    if r.hang or r.rc < 0:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            m = re.search(r"^known: property=C23 input=%s (.*)$" % re.escape(key), f.read(), re.M)
        if m:
            ctx.known.append("input=%s %s" % (key, m.group(1)))
        else:
            ctx.violation("%s: %s" % (what, r.describe()))


def nested(rng, n):
    """(family, a mangled name of about n bytes which is as deep as possible)"""
    k = rng.choice(["ms pointers", "ms templates", "ms functions", "ms arrays", "ms references", "ms scopes", "templates", "pointers", "scopes", "functions", "expressions", "locals", "arrays", "rust generics", "rust paths", "rust references"])
    f = {"ms pointers": (b"?f@@YAX", b"PA", b"H", b"", b"@Z"), "ms templates": (b"??$f@", b"V?$A@", b"H", b"@@", b"@YAXXZ"), "ms functions": (b"?f@@YAX", b"P6AX", b"", b"H@Z", b""), "ms arrays": (b"?f@@YAX", b"QAY01", b"H", b"", b"@Z"),
         "ms references": (b"?f@@YAX", b"$$QA", b"H", b"", b"@Z"), "ms scopes": (b"?f@", b"?1?", b"g@@YAXXZ", b"", b""), "templates": (b"_Z1f", b"I1A", b"IiE", b"E", b"vv"), "pointers": (b"_Z1f", b"P", b"i", b"", b""),
         "scopes": (b"_ZN", b"1a", b"", b"", b"E"), "functions": (b"_Z1f", b"PFvP", b"i", b"E", b""), "expressions": (b"_Z1fIX", b"ng", b"Li1E", b"", b"EEvv"), "locals": (b"_Z", b"Z1fvE", b"1x", b"", b""), "arrays": (b"_Z1f", b"A1_", b"i", b"", b""),
         "rust generics": (b"_R", b"I", b"NvC1a1b", b"lE", b""), "rust paths": (b"_R", b"Nv", b"C1a", b"1b", b""), "rust references": (b"_RINvC1a1b", b"R", b"l", b"", b"E")}[k]
    d = max(1, (n - len(f[0] + f[2] + f[4])) // len(f[1] + f[3]))
    return k, f[0] + f[1] * d + f[2] + f[3] * d + f[4]


def deep(ctx):
    rng = ctx.rng
    for _ in range(5):
        n = rng.choice([200, 400, 1000, 1600, 2500, 4000, 4090, 4096, 5000, 30000])
        fam, nm = nested(rng, n)
        where = rng.choice(["symbol", "function", "inline", "export"])
        if where == "export":
            data, name = pe.Pe(gen.Mod(rng, **dict(pe.opts(), debug=False)), pdb_path=b"C:\\x\\rec.pdb", guid=bytes(16), pdata=[(0x2000, 0x2010)], exports=[(nm, 0x2000)]).build(), "b.dll"
        else:
            m = gen.Mod(rng, langs=(rng.choice(["cpp", "rust", "unknown"]),), cus=1)
            if where == "symbol":
                m.syms = m.syms + [gen.Sym(nm, m.text_end - 8, 4)]
                m.kw["syms"] = m.syms
            for cu in m.cus:
                fs = cu.funcs if where == "function" else cu.abstracts if where == "inline" else []
                for f in fs[:2]:
                    if where == "inline":
                        f.update(name=b"x", linkage=nm)
                    else:
                        f.linkage = nm
            data, name = m.full(), "n.so"
        p = ctx.write(name, data)
        a, out = options(ctx, rng)
        if where == "inline" and "--inlines" not in a:
            a.append("--inlines")
        if rng.random() < 0.5 and (out is None or out.endswith("store")) and where != "export":
            # by the threads for several files, which make one module of them
            a += ["-j", "2", ctx.write("other.so", m.stripped())]
        watch(ctx, a + [p], "a name of %d bytes with nested %s as %s" % (len(nm), fam, where), ("deep", fam, where, n), [p], out)


def watch(ctx, args, what, cls, files, out, refs_ok=True):
    """One run; files: the names an observer would look at after a failure."""
    r = ctx.dump(*args, cpu_limit=30.0, watchdog=200.0, mem_mb=MB)
    if r.hang == "slow":
        raise Inconclusive("watchdog: " + r.describe())
    if r.hang:
        ctx.violation("%s: the run does not end (%s): %s" % (what, r.hang, r.describe()))
        return "hang"
    if r.rc < 0:
        if known(ctx, r, args):
            return "known"
        ctx.violation("%s: ended by signal %d: %s" % (what, -r.rc, r.describe()))
        return "signal"
    o = None
    if out and os.path.exists(out):
        o = open(out, "rb").read() if os.path.isfile(out) else b"".join(open(os.path.join(a, f), "rb").read() for a, _, fs in os.walk(out) for f in fs)
    elif not out:
        o = r.out
    if r.rc != 0:
        if not r.err.strip():
            ctx.violation("%s: status %d without a message" % (what, r.rc))
        if o or (out and os.path.exists(out) and os.path.isfile(out)):
            ctx.violation("%s: status %d, but output was written: %s" % (what, r.rc, r.describe()))
        ctx.tick("refused")
        res = "panic" if r.rc == 101 else "refused"
        if res == "panic":
            ctx.tick("refused by a panic")
            accident(ctx, r, what)
            m = re.search(r"panic occurred at (\S+:\d+)", r.err)
            if m:
                ctx.tick("panic in " + re.sub(r".*/registry/src/[^/]*/", "", m.group(1)))
    else:
        ctx.tick("dumped")
        if not o:
            ctx.violation("%s: status 0 without output: %s" % (what, r.describe()))
        else:
            s = sym.parse(o)
            e = sym.grammar_errors(s)
            if e:
                ctx.write("bad.sym", o)
                ctx.violation("%s: line %d: %s: %s" % ((what,) + e[0]))
            else:
                e = sym.integrity_errors(s, "--inlines" in args, refs_only=True, mapped=True)
                if e:
                    ctx.write("bad.sym", o)
                    ctx.violation("%s: %s" % (what, e[0]))
            ctx.tick("records in dumps", len(s.funcs) + len(s.publics) + len(s.files) + len(s.stack))
        res = "dumped"
    ctx.seen(*cls, res)
    return res


def options(ctx, rng):
    a = ["--inlines"] if rng.random() < 0.6 else []
    if rng.random() < 0.1:
        a += ["--check-cfi"]
    if rng.random() < 0.15:
        a += ["--mapping-src", "^(.*)$", "--mapping-dest", rng.choice(["x/{1}", "{digest}"])]
    k = rng.random()
    out = None
    if k < 0.35:
        out = ctx.path("o.sym")
        a += ["-o", out]
    elif k < 0.6:
        out = ctx.path("store")
        a += ["--store", out]
    if out and os.path.isdir(out):
        shutil.rmtree(out)
    elif out and os.path.exists(out):
        os.unlink(out)
    return a, out


def debugish(n):
    """Parts whose damage must never matter beyond the records derived from them."""
    return n.startswith((".debug", "__debug", ".symtab", ".strtab", ".dynsym", ".dynstr", "symtab", "strtab", ".eh_frame", "__eh_frame", ".edata")) or n in ("stream%d" % k for k in range(4, 80))


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    if kind == "known":
        # the inputs of the listed findings
        b = bytearray(gen.Mod(rng, compress="zlib", funcs=4).full())
        for n, lo, hi in mutate.regions(b):
            if n == ".debug_info":
                struct.pack_into("<Q", b, lo + 8, 1 << 44)
        p = ctx.write("size.so", bytes(b))
        watch(ctx, [p], "a compressed section that claims 16 TB", ("known", "size"), [p], None)
        w = work.Work(ctx, "pdb64", "plain", dir=ctx.path("t", "x")[:-2])
        b = bytearray(open(w.path, "rb").read())
        for n, lo, hi in mutate.regions(b):
            if n == "stream2":
                for o in range(lo, hi - 8, 4):
                    if b[o + 2:o + 4] == b"\x01\x12":
                        struct.pack_into("<I", b, o + 4, 0xffffffff)
        p = ctx.write("args.pdb", bytes(b))
        watch(ctx, [p], "an argument list that claims 2^32-1 entries", ("known", "args"), [p], None)
        m = gen.Mod(rng)
        m.kw["syms"] = m.syms + [gen.Sym(b"?f@@YAXPAPAH" + b"".join(b"P6AX" + b"%d" % i * 10 + b"@Z" for i in range(9)) + b"@Z", m.text_end - 8, 4)]
        p = ctx.write("laughs.so", m.full())
        listed(ctx, "backreferences", [p], "a Microsoft name with 9 levels of 10 back references each", 1500)
        m = gen.Mod(rng, cus=1, funcs=1)
        while not (m.cus and m.cus[0].abstracts and m.cus[0].funcs):
            m = gen.Mod(rng, cus=1, funcs=1)
        m.cus[0].funcs[0].nest = 20000
        p = ctx.write("levels.so", m.full())
        listed(ctx, "nested-inlines", ["--inlines", p], "20000 nested inlined calls", MB)
        return
    if kind == "deep":
        return deep(ctx)
    if kind == "raw":
        for k in range(PER):
            sig = rng.choice([b"", b"\x7fELF", b"\x7fELF\x02\x01\x01", b"\x7fELF\x01\x02\x01", b"MZ", b"MZ" + b"\0" * 58 + b"\x40\0\0\0PE\0\0", b"\xcf\xfa\xed\xfe", b"\xce\xfa\xed\xfe", b"\xfe\xed\xfa\xcf",
                              b"\xca\xfe\xba\xbe", b"\xca\xfe\xba\xbf\0\0\0\x02", b"Microsoft C/C++ MSF 7.00\r\n\x1aDS\0\0\0", b"Microsoft C/C++ program database 2.00\r\n\x1aJG\0\0", b"MSCF\0\0\0\0",
                              b"MODULE Linux x86_64 0 x\n", b"\0asm\x01\0\0\0", b"BSJB", b"SQLite format 3\0", b"PK\x03\x04", b"MDMP", b"<?xml", b"SYMC", b"ILOG", b"\x1f\x8b"])
            n = rng.choice([0, 1, 3, 16, 64, 200, 1000, 5000])
            body = bytes(rng.choice([0, 0, 0, 1, 255, rng.randrange(256)]) for _ in range(n))
            ext = rng.choice(["so", "dll", "exe", "pdb", "pd_", "dl_", "dylib", "", "sym", "dSYM"])
            p = ctx.write("raw." + ext if ext else "raw", sig + body)
            a, out = options(ctx, rng)
            watch(ctx, a + [p], "raw bytes %r... as .%s" % (sig[:12], ext), ("raw", sig[:8], ext), [p], out)
            os.unlink(p)
        return
    part = None
    if kind in ("elfdebug", "machodebug", "pdbdebug"):
        part = debugish
        kind = {"elfdebug": rng.choice(["elf", "elf32", "elfbe"]), "machodebug": "macho", "pdbdebug": rng.choice(["pdb64", "pdb32"])}[kind]
    partner, name = None, None
    if kind in ("elf", "elf32", "elfbe", "macho", "mingw", "merge", "bundle", "cab"):
        if kind in ("merge",):
            c = "elf"
        elif kind == "bundle":
            c = "dsymfile"
        elif kind == "cab":
            c = rng.choice(["mingw", "pdb64"])
        else:
            c = kind
        w = work.Work(ctx, c, rng.choice(["plain", "nested", "dense", "manysyms", "split"] if c not in work.PDB else ["plain", "nested"]), dir=ctx.path("t", "x")[:-2])
        data, name = open(w.path, "rb").read(), os.path.basename(w.path)
        if kind == "merge":
            partner = w.m.stripped()
        if kind == "cab":
            e = name[-3:]
            data = cab.build([[(name, data)]], mszip=rng.random() < 0.6, sums=rng.random() < 0.5)
            # whatever the cabinet file itself is called
            name = rng.choice([name[:-1] + "_"] * 5 + [name, "m", "m.", ".pd_", "M.PD_", "m.cab", "m.p\u00e9"])
    elif kind == "names":
        m = hostile.poison(gen.Mod(rng, text=0x3000), rng)
        data, name = m.full(), "n.so"
    elif kind == "zlib":
        m = gen.Mod(rng, compress=rng.choice(["zlib", "gnu"]))
        data, name = m.full(), "z.so"
    elif kind == "fat":
        ms = []
        for cpu in ("x86_64", "arm64"):
            ms.append((cpu, macho.MachO(macho.adapt(gen.Mod(rng, **macho.opts())), cpu=cpu, uuid=bytes(rng.randrange(256) for _ in range(16))).build()))
        data, name = macho.fat(ms), "f.dylib"
    elif kind == "barepe":
        ex = [(b"?f%d@@YAHXZ" % i, 0x2000 + 16 * i) for i in range(rng.randrange(0, 9))]
        data = pe.Pe(gen.Mod(rng, **dict(pe.opts(), debug=False)), pdb_path=b"C:\\x\\rec.pdb", guid=bytes(16), pdata=[(0x2000 + 64 * i, 0x2010 + 64 * i) for i in range(6)], exports=ex,
                     machine=rng.choice([0x8664, 0x14c])).build()
        name = "b.dll"
    elif kind in ("pdb64", "pdb32", "pair"):
        w = work.Work(ctx, kind if kind != "pair" else "pdb64", rng.choice(["plain", "nested"]), dir=ctx.path("t", "x")[:-2])
        which = rng.choice(["pdb", "dll"]) if kind == "pair" else "pdb"
        f, g = (w.path, w.exe) if which == "pdb" else (w.exe, w.path)
        data, name = open(f, "rb").read(), os.path.basename(f)
        if kind == "pair":
            partner, kind = (os.path.basename(g), open(g, "rb").read()), "pair-" + which
    for k in range(PER):
        b, reg, mut = mutate.damage(data, rng, part)
        if b is None:
            break
        d = ctx.path("d", "x")[:-2]
        for x in os.listdir(d):
            q = os.path.join(d, x)
            shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
        p = os.path.join(d, name)
        if kind == "bundle":
            os.makedirs(os.path.join(d, "B.dSYM/Contents/Resources/DWARF"))
            q = os.path.join(d, "B.dSYM/Contents/Resources/DWARF/m")
            with open(q, "wb") as f:
                f.write(b)
            p = os.path.join(d, "B.dSYM")
        else:
            with open(p, "wb") as f:
                f.write(b)
        a, out = options(ctx, rng)
        args = [p]
        if kind == "merge":
            q = ctx.write("d/partner.so", partner)
            args = rng.choice([[p, q], [q, p]])
            if out and out.endswith("o.sym"):       # two modules when the damage hits the identity
                a, out = [x for x in a if x not in ("-o", out)] + ["--store", ctx.path("store")], ctx.path("store")
                shutil.rmtree(out, ignore_errors=True)
        elif isinstance(partner, tuple):
            with open(os.path.join(d, partner[0]), "wb") as f:
                f.write(partner[1])
            if rng.random() < 0.4:
                args = [os.path.join(d, partner[0])]
        if kind == "fat" and rng.random() < 0.5:
            a += ["--arch", rng.choice(["arm64", "x86_64"])]
        if kind == "fat" and rng.random() < 0.1:
            a += ["--list-arch"]
            r = ctx.dump("--list-arch", p, cpu_limit=30.0, mem_mb=MB)
            if r.hang or r.rc < 0 or (r.rc and not r.err.strip()):
                ctx.violation("--list-arch of a damaged file: %s" % r.describe())
            accident(ctx, r, "--list-arch of a damaged file")
            continue
        if kind == "merge":
            # one damaged input of two: what is stored may be the intact one alone; only well-formedness and ends are judged
            r = ctx.dump(*a, *args, cpu_limit=30.0, watchdog=200.0, mem_mb=MB)
            if r.hang == "slow":
                raise Inconclusive(r.describe())
            if known(ctx, r, a + args):
                continue
            if accident(ctx, r, "merge with a damaged file (%s, %s)" % (reg, mut)):
                pass
            elif r.hang or r.rc < 0 or (r.rc and not r.err.strip()):
                ctx.violation("merge with a damaged file (%s, %s): %s" % (reg, mut, r.describe()))
            elif r.rc == 0:
                texts = [r.out] if not out else [open(os.path.join(x, f), "rb").read() for x, _, fs in os.walk(out) for f in fs]
                blocks = []
                for t in texts:
                    blocks += [b"MODULE " + x for x in t.split(b"MODULE ")[1:]] if not out else [t]
                for t in blocks:
                    s = sym.parse(t)
                    e = sym.grammar_errors(s)
                    e = ["line %d: %s: %s" % e[0]] if e else sym.integrity_errors(s, "--inlines" in a, refs_only=True, mapped=True)
                    if e:
                        ctx.write("bad.sym", t)
                        ctx.violation("merge with a damaged file (%s, %s): %s" % (reg, mut, e[0]))
            ctx.seen("merge", reg, mut, r.rc)
        else:
            before = len(ctx.violations)
            watch(ctx, a + args, "%s damaged at %s (%s)" % (kind, reg, mut), (kind, reg, mut), [p], out)
        if ctx.violations:
            return
    if case["i"] < 3:
        ctx.sample = {"case": case, "last": "%s %s" % (reg, mut), "outcomes": dict(ctx.counts)}
