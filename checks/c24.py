"""C24: wrapped inputs dump like what they wrap."""
import lzma
import os
import subprocess

from vlib import cab, gen, macho, pe, sym, work
from vlib.elf import Elf

RULE = ("one case = one generated module dumped plain and wrapped: in a cabinet (stored or MSZIP, one or several files and folders, before and after the right one, larger than one block), in a "
        ".dSYM bundle, with zlib or GNU style compressed debug sections, with its symbols in a compressed mini-debuginfo section; outputs are compared byte for byte (the cabinet's own "
        "name apart); or an unusable wrapper, which must be refused without output. distinct = distinct (wrapper, container, variant, outcome) classes")
ASSUMPTIONS = ["the module name of a cabinet is the cabinet's own file name: names are compared after replacing it by the content's", "lower-case cabinet extensions"]
TECHNIQUE = "differential monitor: dumps of wrapped files against dumps of their content, both by the real program"
LEVEL = "exploration"
LEVEL_NOTE = "generated modules and wrappers; complete outputs compared"
MIN_DISTINCT = 40
QUICK_S, THOROUGH_S = 60, 600

KINDS = ["cab", "cab", "dsym", "zlib", "mini", "badcab", "badbundle", "cabpair", "gnuz"]
EXT = {"pdb": "pd_", "dll": "dl_", "exe": "ex_", "dbg": "db_"}


def cases(ctx):
    n = 720 if ctx.tier == "quick" else 14000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def refused(ctx, what, *files):
    st = ctx.path("st")
    fo = ctx.path("o.sym")
    a = ctx.rng.choice([["--store", st], ["-o", fo], []])
    r = ctx.dump(*a, *files)
    if r.hang or r.rc == 0:
        ctx.violation("%s is not refused: %s" % (what, r.describe()))
    if r.out or os.path.exists(fo) or os.path.exists(st):
        ctx.violation("%s: output is written" % what)
    if not r.err.strip():
        ctx.violation("%s: no message" % what)
    ctx.tick("refused")


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    inl = ["--inlines"] if rng.random() < 0.5 else []
    rep = []

    def put(p, b):
        p = ctx.path(*p.split("/"))
        with open(p, "wb") as f:
            f.write(b)
        return p

    def content():
        """(plain extension, bytes)"""
        k = rng.choice(["pdb", "pdb", "dll", "exe", "dbg", "mingw"])
        if k == "pdb":
            w = work.Work(ctx, rng.choice(["pdb64", "pdb32"]), "plain", dir=ctx.path("t%d" % rng.randrange(1 << 30), "x")[:-2])
            return "pdb", open(w.path, "rb").read(), w
        if k == "dbg":
            m = gen.Mod(rng)
            return "dbg", m.debug_only(), None
        if k == "mingw":
            w = work.Work(ctx, "mingw", "plain", dir=ctx.path("t%d" % rng.randrange(1 << 30), "x")[:-2])
            return "dll", open(w.path, "rb").read(), None
        g = bytes(rng.randrange(256) for _ in range(16))
        ex = [(b"e%d" % i, 0x2000 + 16 * i) for i in range(rng.randrange(0, 5))]
        return k, pe.Pe(pdb_path=b"C:\\x\\rec.pdb", guid=g, pdata=[(0x2000, 0x2010), (0x2400, 0x2410)], exports=ex, timestamp=rng.randrange(1 << 32)).build(), None

    if kind in ("cab", "cabpair", "badcab"):
        stem = rng.choice(["m", "a.b", "x y", "caf\u00e9", "mod"])
        if kind == "cabpair":
            w = work.Work(ctx, "pdb64", rng.choice(["plain", "dense"]), dir=ctx.path("t", "x")[:-2], name="m")
            stem = "m"
            plain = {"pdb": open(w.path, "rb").read(), "dll": open(w.exe, "rb").read()}
            wrapped = rng.choice([["pdb"], ["dll"], ["pdb", "dll"]])
            main = rng.choice(["pdb", "dll"])
            for e, b in plain.items():
                put("plain/%s.%s" % (stem, e), b)
                if e in wrapped:
                    put("cab/%s.%s" % (stem, EXT[e]), cab.build([[("%s.%s" % (stem, e), b)]], mszip=rng.random() < 0.7))
                else:
                    put("cab/%s.%s" % (stem, e), b)
            pa = os.path.join(ctx.work, "plain", stem + "." + main)
            pb = os.path.join(ctx.work, "cab", stem + "." + (EXT[main] if main in wrapped else main))
            rep = [(stem + "." + EXT[e], stem + "." + e) for e in plain]
            cls = ["+".join(wrapped), main]
        else:
            ext, b, w = content()
            name = stem + "." + ext
            cabname = stem + "." + EXT[ext]
            if kind == "cab" and rng.random() < 0.25:
                # a cabinet with any other name holds a file of that very name
                name = cabname = rng.choice([stem.replace(".", "_"), "m.bin", "lib.so.1", "M", "a-b.CAB", "x."])
            others = [("readme.txt", b"x" * rng.randrange(1, 60000)), ("other." + ext, gen.Mod(rng).full()), ("x" + name, b"junk"), (name + ".bak", b"junk" * 9), (stem, b"zzz"),
                      ("other.pdb", b"Microsoft C/C++ MSF 7.00\r\n\x1aDS\0\0\0" + b"\0" * 500)]
            others = [o for o in others if o[0] != name]
            rng.shuffle(others)
            k = rng.randrange(0, len(others))
            files = others[:k]
            mszip, sums = rng.random() < 0.7, rng.random() < 0.8
            if kind == "cab":
                # the right one anywhere, in one or several folders
                files.insert(rng.randrange(len(files) + 1), (name, b))
            folders = []
            for f in files:
                if folders and rng.random() < 0.6:
                    folders[-1].append(f)
                else:
                    folders.append([f])
            if kind == "badcab":
                var = rng.choice(["missing", "empty", "damaged", "damaged", "broken", "broken", "truncated", "noext", "wrongcase"])
                if var == "missing":
                    data = cab.build(folders or [[("zzz", b"q")]], mszip, sums)
                elif var == "empty":
                    data = cab.build([], mszip, sums)
                else:
                    if rng.random() < 0.5:
                        b += bytes(rng.choice([40000, 70000]))      # complete long before the last block
                    folders.append([(name, b)])
                    data = bytearray(cab.build(folders, mszip, True))
                    if var == "damaged":
                        p = len(data) - 1 - rng.randrange(min(len(data) // 3, 3000))
                        data[p] ^= 1 << rng.randrange(8)
                    elif var == "broken":
                        # within the last data block, which has a checksum
                        data[-1 - rng.randrange(8)] ^= 1 << rng.randrange(8)
                    elif var == "truncated":
                        del data[len(data) - rng.randrange(1, 2000):]
                    data = bytes(data)
                fn = {"noext": stem.replace(".", "_")}.get(var, stem + "." + EXT[ext])
                if var == "wrongcase":
                    data = cab.build([[(name.swapcase(), b)]], mszip, sums)
                    if name.swapcase() == name:
                        return
                if var == "damaged":
                    # padding bytes a reader never looks at may differ: compare with the undamaged dump
                    p = put("cab/" + fn, data)
                    r = ctx.dump(*inl, p)
                    if r.hang:
                        ctx.violation("damaged cabinet: hang")
                    if r.rc == 0:
                        put("cab/" + fn, cab.build(folders, mszip, True))
                        if ctx.dump_ok(*inl, p).out != r.out:
                            ctx.violation("a damaged cabinet gives another dump with exit status 0")
                    ctx.seen(kind, var, ext, mszip, r.rc == 0)
                    ctx.tick("damaged cabinets")
                    return
                refused(ctx, "an unusable cabinet (%s)" % var, put("cab/" + fn, data))
                ctx.seen(kind, var, ext, mszip)
                return
            pa = put("plain/" + name, b)
            pb = put("cab/" + cabname, cab.build(folders, mszip, sums))
            rep = [(cabname, name)] if cabname != name else []
            cls = [ext, cabname.rsplit(".", 1)[-1] if cabname == name else "_", mszip, len(folders), len(files)]
    elif kind in ("dsym", "badbundle"):
        m = macho.adapt(gen.Mod(rng, **dict(macho.opts(), dyn=0)))
        uid = bytes(rng.randrange(256) for _ in range(16))
        b = macho.MachO(m, rng.choice(["x86_64", "arm64"]), 10, uid, rng.choice([None, b"libq.dylib"])).build()
        args = []
        if rng.random() < 0.3:
            b = macho.fat([("x86_64", macho.MachO(m, "x86_64", 10, uid).build()), ("arm64e", macho.MachO(m, "arm64e", 10, bytes(16)).build())])
        bn = rng.choice(["m.dSYM", "M.app.dSYM", "x y.dSYM", "noext"])
        inner = rng.choice(["m", "M", "other name", "m.dwarf"])
        if kind == "badbundle":
            var = rng.choice(["none", "two", "nodwarf", "plaindir", "subdir"])
            d = "b/" + bn + "/Contents/Resources/DWARF/"
            if var == "two":
                put(d + "a", b)
                put(d + "b", b)
            elif var == "none":
                ctx.path(*(d + "x").split("/"))
            elif var == "nodwarf":
                put("b/" + bn + "/Contents/Resources/" + inner, b)
            elif var == "plaindir":
                put("b/" + bn + "/" + inner, b)
            else:
                put(d + "sub/" + inner, b)
            p = ctx.path("b", bn)
            refused(ctx, "an unusable bundle (%s)" % var, p if rng.random() < 0.7 else p + "/")
            ctx.seen(kind, var, bn)
            return
        put("b/" + bn + "/Contents/Resources/DWARF/" + inner, b)
        if rng.random() < 0.7:
            put("b/" + bn + "/Contents/Info.plist", b"<plist/>")
        if rng.random() < 0.3:
            put("b/" + bn + "/Contents/Resources/Relocations/x86_64/m.yml", b"-")
        pb = ctx.path("b", bn)
        pa = put("plain/" + bn, b)
        if rng.random() < 0.3:
            pb += "/"
        cls = [bn, inner, len(b) > 40000, pb.endswith("/")]
    elif kind in ("zlib", "gnuz"):
        c = rng.choice([{}, dict(bits=32, machine="x86"), dict(little=False, machine="ppc64"), dict(bits=32, little=False, machine="ppc")]) if kind == "zlib" else rng.choice([{}, dict(bits=32, machine="x86")])
        m = gen.Mod(rng, compress=False, cus=rng.choice([1, 3, 6]), funcs=rng.choice([1, 8]), **c)
        pa = put("plain/m.so", m.full())
        if kind == "zlib":
            m.kw["compress"] = True
            pb = put("z/m.so", m.full())
            cls = [str(c)]
        else:
            pb = ctx.path("z", "m.so")
            st = rng.choice(["zlib-gnu", "zlib-gabi", "zlib", "zstd"])
            # a plain objcopy of the reference too: objcopy may reorder sections
            pa2 = ctx.path("plain2", "m.so")
            subprocess.run(["objcopy", pa, pa2], check=True)
            pa = pa2
            subprocess.run(["objcopy", "--compress-debug-sections=" + st, pa, pb], check=True)
            cls = [st, str(c)]
    elif kind == "mini":
        m = gen.Mod(rng, debug=False, publics=12, dyn=rng.choice([0, 3]), dynfuncs=rng.choice([0, 0.5]), soname=rng.choice([None, b"libm.so"]))
        pa = put("plain/m.so", m.full())
        inside = Elf(cus=(), fdes=(), **dict(m.kw, dynsyms=(), soname=None, interp=False)).build()
        chk = rng.choice([lzma.CHECK_CRC32, lzma.CHECK_CRC64])
        pre = rng.choice([0, 6, 9])
        pb = put("z/m.so", Elf(cus=(), fdes=m.fdes, **dict(m.kw, syms=(), debugdata=lzma.compress(inside, format=lzma.FORMAT_XZ, check=chk, preset=pre))).build())
        cls = [chk, pre, len(m.pub) > 4]
        # at one address the first table wins: only modules without such conflicts
        seen = {}
        for s in m.syms + m.dynsyms:
            seen.setdefault(s.addr, set()).add(s.name)
        if any(len(v) > 1 for v in seen.values()):
            return
    a = ctx.dump_ok(*inl, pa).out.decode()
    b = ctx.dump_ok(*inl, pb, what="a wrapped input (%s %s)" % (kind, cls)).out.decode()
    for x, y in rep:
        a, b = a.replace(x, y), b.replace(x, y)
    if a != b:
        la, lb = a.split("\n"), b.split("\n")
        n = next((i for i, (p, q) in enumerate(zip(la, lb)) if p != q), min(len(la), len(lb)))
        ctx.violation("%s %s: line %d is %r plain and %r wrapped" % (kind, cls, n + 1, la[n:n + 1], lb[n:n + 1]))
    s = sym.parse(a.encode())
    ctx.tick("pairs compared")
    ctx.tick("records compared", len(s.records))
    ctx.seen(kind, *cls)
    if case["i"] < 3:
        ctx.sample = {"case": case, "class": [str(c) for c in cls], "records": len(s.records), "header": s.module}
