"""C21: MODULE and CODE_ID identify the module."""
import os
import struct

from vlib import cab, gen, macho, msf, pe, sym, win, work

RULE = ("one case = one module whose identity (build id of any length, none, UUID, PDB GUID and age, executable timestamp and image size), CPU, recorded name (shared-object / "
        "install / PDB name with directories, other separators, spaces, non-ASCII, unusable) and file name we choose, dumped through different spellings of its path; "
        "MODULE and CODE_ID are compared with the expected text. distinct = distinct (container, cpu, identity class, name class, path form) classes")
ASSUMPTIONS = ["a recorded name which is empty, . or .. after removing directories is unusable and the file name is used instead"]
TECHNIQUE = "identity monitor: header records of real runs against the identity each module was generated with"
LEVEL = "exploration"
LEVEL_NOTE = "generated identities in every container"
MIN_DISTINCT = 40
QUICK_S, THOROUGH_S = 60, 600

KINDS = ["elf", "elfnoid", "macho", "pe", "pdb", "mingw", "elf", "pepdb"]
ELFS = [("x86_64", 64, True, "x86_64"), ("x86", 32, True, "x86"), ("arm", 32, True, "arm"), ("arm64", 64, True, "arm64"), ("ppc", 32, False, "ppc"),
        ("ppc64", 64, False, "ppc64"), ("mips", 32, False, "mips"), ("mips", 32, True, "mips")]
MACHOS = [("x86_64", "x86_64"), ("x86_64h", "x86_64h"), ("arm64", "arm64"), ("arm64e", "arm64e")]
NAMES = ["libx.so", "libx.so.1.2.3", "a b.so", "caf\u00e9.so", "m", "x.y.z", "-dash", "\u2713", "libX.DLL", ".hidden", "lib+c++.so", "a'b\"c", "%s", "{1}", "trail ", "two  spaces  ", "n" * 200 + ".so", "libx.so ", "x" * 130]


def cases(ctx):
    n = 4000 if ctx.tier == "quick" else 16000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def swap_id(b, little):
    b = (b + bytes(16))[:16]
    if little:
        a, c, d = struct.unpack("<IHH", b[:8])
    else:
        a, c, d = struct.unpack(">IHH", b[:8])
    return "%08X%04X%04X%s0" % (a, c, d, b[8:].hex().upper())


def text_id(img_text, little):
    h = bytearray(16)
    for i, x in enumerate(img_text[:4096]):
        h[i % 16] ^= x
    return swap_id(bytes(h), little)


def usable(n):
    return n.strip() not in ("", ".", "..")


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    fname = rng.choice(NAMES)
    d = ctx.path("d x", "sub", "f")[:-2]
    os.makedirs(d, exist_ok=True)
    cls = []
    path = os.path.join(d, fname)

    def put(p, b):
        with open(p, "wb") as f:
            f.write(b)
    code = None
    other = []
    if kind in ("elf", "elfnoid"):
        mach, bits, little, cpu = rng.choice(ELFS)
        so = rng.choice([None, None, "libreal.so.3", "dir/libreal.so", "libreal", "x.debug", "noext/Plug In", "/abs/x/lib y.so", "caf\u00e9.so", "trailing/", ".", "a/..", "", "libx.so  ", "dir /lib ", "L" * 300, " lead.so"])
        bid = None if kind == "elfnoid" else bytes(rng.randrange(256) for _ in range(rng.choice([20, 20, 16, 8, 4, 1, 32, 24])))
        m = gen.Mod(rng, machine=mach, bits=bits, little=little, build_id=bid, soname=None if so is None else so.encode(), dyn=rng.choice([0, 2]))
        put(path, m.full())
        os_ = "Linux"
        cand = [(so or "").split("/")[-1], fname]
        name = next(n for n in cand if usable(n))
        if bid is not None:
            want = swap_id(bid, little)
            code = bid.hex().upper()
        else:
            with open(path, "rb") as f:
                img = f.read()
            a = m.execs[0][1] - m.base
            want = text_id(img[a:a + m.execs[0][2]], little)
            # a stripped copy has the same identity
            put(os.path.join(d, "stripped"), m.stripped())
            other.append((os.path.join(d, "stripped"), want))
        cls = [mach, little, "id%s" % (None if bid is None else len(bid)), "so:%s" % so]
    elif kind == "macho":
        c, cpu = rng.choice(MACHOS)
        inst = rng.choice([None, "/usr/lib/libreal.dylib", "@rpath/Fr.framework/Versions/A/Fr", "plain", "caf\u00e9.dylib", "x/", "sp ", "M" * 260, "/a b/c d "])
        m = macho.adapt(gen.Mod(rng, **dict(macho.opts(), dyn=0)))
        uid = bytes(rng.randrange(256) for _ in range(16))
        put(path, macho.MachO(m, cpu=c, filetype=rng.choice([6, 10, 2]), uuid=uid, install=inst.encode() if inst else None).build())
        os_, want, code = "Mac", uid.hex().upper() + "0", uid.hex().upper()
        cand = [(inst or "").split("/")[-1], fname]
        name = next(n for n in cand if usable(n))
        cls = [c, "inst:%s" % inst]
    else:
        os_ = "windows"
        g = bytes(rng.randrange(256) for _ in range(16))
        age = rng.choice([1, 2, 9, 10, 15, 16, 255, 0xabc, 0x7fffffff])
        ts = rng.choice([0, 1, 0x5d6aa558, 0xffffffff, rng.randrange(1 << 32)])
        rec = rng.choice(["m.pdb", "C:\\build\\obj\\real.pdb", "/home/b/lin.pdb", "c:\\a/b\\c.pdb", "sp ace.pdb", "caf\u00e9.pdb", "noext", "x\\", "D" * 250 + ".pdb", "C:\\a\\tr.pdb ", None])
        if kind in ("pe", "mingw"):
            x = rng.choice([(0x8664, "x86_64"), (0x8664, "x86_64"), (0x14c, "x86"), (0xaa64, "arm64")]) if kind == "pe" else (0x8664, "x86_64")
            cpu = x[1]
            m = gen.Mod(rng, **dict(pe.opts(), dyn=0)) if kind == "mingw" else None
            p = pe.Pe(m, machine=x[0], timestamp=ts, pdb_path=None if rec is None else rec.encode(), guid=g, age=age, pdata=[(0x2000, 0x2010)] if kind == "pe" else None)
            put(path, p.build())
            size = p.size_of_image
            want = msf.text(g, age)
            if rec is None:
                want = None
                cand = [fname]
            else:
                cand = [rec.split("\\")[-1].split("/")[-1], fname]
            name = next(n for n in cand if usable(n))
            pe_name = fname
        else:
            arch = rng.choice(["x64", "x86"])
            cpu = {"x64": "x86_64", "x86": "x86"}[arch]
            w = win.WinMod(gen.Mod(rng, langs=("c",), pie=True, multi_range=0, publics=0, extra_exec=0, text=0x1000, dyn=0, version=4), arch=arch)
            stem = rng.choice(["m", "a.b", "lib x", "caf\u00e9"])
            t = ctx.path("t", "x")[:-2]
            os.makedirs(t, exist_ok=True)
            dll, pdb = w.build(t, "m", pdb_name=stem + ".pdb")
            ext = rng.choice(["dll", "exe"])
            b = bytearray(msf.pe_with_id(open(dll, "rb").read(), g, age))
            pos = struct.unpack_from("<I", b, 0x3c)[0]
            struct.pack_into("<I", b, pos + 8, ts)
            size, = struct.unpack_from("<I", b, pos + 24 + 56)
            put(os.path.join(d, stem + ".pdb"), msf.with_id(open(pdb, "rb").read(), g, age))
            exe = os.path.join(d, stem + "." + ext)
            if kind == "pepdb":
                path = rng.choice([exe, os.path.join(d, stem + ".pdb")])
                if path != exe and rng.random() < 0.5:
                    # the executable beside the PDB may be in a cabinet
                    put(exe[:-1] + "_", cab.build([[(stem + "." + ext, bytes(b))]], mszip=rng.random() < 0.5))
                else:
                    put(exe, bytes(b))
                pe_name = stem + "." + ext
            else:
                path = os.path.join(d, stem + ".pdb")
                pe_name = None
            want, name = msf.text(g, age), stem + ".pdb"
        if pe_name is not None:
            code = ("%08X%X" % (ts, size), pe_name)
        cls = [cpu, "age%d" % age, "rec:%s" % rec if kind in ("pe", "mingw") else stem, "ts%x" % (ts & 0xf)]
    form = rng.choice(["abs", "rel", "dot", "up", "link"])
    cwd = d
    base = os.path.basename(path)
    if form == "rel":
        cwd, given = os.path.dirname(d), "sub/" + base
    elif form == "dot":
        given = "./" + base
    elif form == "up":
        given = "../sub//" + base
    elif form == "link":
        os.symlink(d, os.path.join(ctx.work, "lnk"))
        given = os.path.join(ctx.work, "lnk", base)
    else:
        given = path
    for k, (p, w) in enumerate([(given, want)] + other):
        s = sym.parse(ctx.dump_ok("--no-generator", p, cwd=cwd).out)
        if s.module is None:
            ctx.violation("no MODULE record: %r" % (s.errors[:2],))
            continue
        mo, mc, mi, mn = s.module
        if mo != os_ or mc != cpu:
            ctx.violation("%s: MODULE says %s %s, the input is %s %s" % (kind, mo, mc, os_, cpu))
        if w is not None and mi != w:
            ctx.violation("%s: debug id %s, expected %s" % (kind, mi, w))
        if k == 0 and mn != name:
            ctx.violation("%s: module name %r, expected %r (file %r, %r)" % (kind, mn, name, fname, cls))
        have = [i for i in s.infos if i.startswith("CODE_ID")]
        if code is None:
            exp = []
        elif isinstance(code, tuple):
            exp = [("CODE_ID %s %s" % code).strip()]
        else:
            exp = ["CODE_ID " + code]
        if have != exp:
            ctx.violation("%s: %r, expected %r" % (kind, have, exp))
        ctx.tick("headers compared")
    ctx.seen(kind, form, *cls)
    if case["i"] < 3:
        ctx.sample = {"case": case, "module": s.module, "infos": s.infos}
