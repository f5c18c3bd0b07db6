"""C17: FILE records name the source file the debug information names."""
import os

from vlib import gen, macho, oracle, pe, sym, win
from vlib.elf import dec, normalize

RULE = ("one case = a module (ELF of any class/CPU, Mach-O, PE with DWARF, PDB) whose compilation directories, directory entries and file names are drawn from absolute, relative, dotted, "
        "doubled-separator, non-ASCII, invalid-UTF-8 and really existing ones (behind symbolic links, with .. across links, dangling links, link loops); the file text at every code "
        "address is compared with the text computed from the entry and, for existing files, with the kernel's own resolution. distinct = (container, DWARF version, kinds of "
        "compilation directory/directory/name per entry used) classes")
ASSUMPTIONS = ["names with invalid UTF-8 are compared after decoding with replacement characters, a compilation directory alternatively as Latin-1",
               "a relative name without any directory (printed as /name) is not covered", "file names that end in a separator are not generated"]
TECHNIQUE = "output monitor with an independent path resolver (kernel resolution through O_PATH for existing files) over generated modules with ground truth"
LEVEL = "exploration"
LEVEL_NOTE = "random path combinations; every address of every function resolved and compared, FILE records checked for duplicates"
MIN_DISTINCT = 300
QUICK_S, THOROUGH_S = 60, 600


def cases(ctx):
    n = 2400 if ctx.tier == "quick" else 16000
    kinds = ["elf", "elf", "elfbe", "macho", "mingw", "elf", "elf32", "pdb"]
    return [{"i": i, "k": kinds[i % len(kinds)]} for i in range(n)]


def kernel_path(p):
    try:
        fd = os.open(p, os.O_PATH)
    except OSError:
        return None
    try:
        return os.readlink("/proc/self/fd/%d" % fd)
    finally:
        os.close(fd)


def tree(root):
    """A source tree with links in all directions."""
    for d in ("real/sub", "deep/inner", "obj", "real/é", "sp ace"):
        os.makedirs(os.path.join(root, d))
    for f in ("real/a.c", "real/sub/b.h", "deep/inner/a.c", "deep/x.c", "real/é/ü.c", "sp ace/a.c", "a.c", "obj/gen.c"):
        with open(os.path.join(root, f), "w") as h:
            h.write(f)
    for l, t in (("link", "deep/inner"), ("flink.c", "real/a.c"), ("loop", "loop"), ("dangling.c", "nothing.c"), ("real/up", ".."), ("obj/abs", root + "/real"), ("chain", "link")):
        os.symlink(t, os.path.join(root, l))
    # a file whose path is long, both ways round a link
    far = root + "/far/" + "/".join(["a rather long directory name %d" % j for j in range(12)])
    os.makedirs(far)
    with open(far + "/far.c", "w") as h:
        h.write("far")
    os.symlink(far, root + "/near")
    os.symlink(root + "/real/a.c", far + "/back.c")
    return far.encode()


def comp_dec(b, alt):
    try:
        return b.decode()
    except UnicodeDecodeError:
        return b.decode("latin-1") if alt else dec(b)


def linux_path(cu, j, alt=False, real=True):
    di, name = cu.files[j]
    name = dec(name)
    if name.startswith("/"):
        p = name
    else:
        d = comp_dec(cu.comp_dir, False) if di == 0 else dec(cu.dirs[di - 1])
        if not d.startswith("/") and cu.comp_dir:
            d = comp_dec(cu.comp_dir, alt).rstrip("/") + "/" + d.lstrip("/")
        p = d.rstrip("/") + "/" + name
    if not real:
        return p
    if not p.startswith("/"):
        return "/".join(c for c in p.split("/") if c not in ("", "."))
    return kernel_path(p) or normalize(p)


def run_case(ctx, case):
    rng = ctx.rng
    root = ctx.path("r")
    far = tree(root)
    rb = root.encode()
    cwd = root
    k = case["k"]
    opt = dict(dup_funcs=0, cus=rng.choice([1, 2, 3, 3]), zero_lines=False)
    if k.startswith("elf"):
        opt.update({"elf": {}, "elf32": dict(bits=32, machine="x86"), "elfbe": dict(little=False, machine="ppc64")}[k])
    elif k == "macho":
        opt.update(macho.opts(), dyn=0)
    elif k == "mingw":
        opt.update(pe.opts(), dyn=0)
    else:
        opt.update(langs=("c",), pie=True, multi_range=0, publics=0, extra_exec=0, text=0x1000, dyn=0, version=4, dup_funcs=0, suffix=0, cus=2)
    m = gen.Mod(rng, **opt)
    unix = k != "mingw" and k != "pdb"
    bad = b"caf\xe9"
    comps = [b"/nonexist/build", b"/nonexist/b/obj/", rb + b"/obj", rb, rb + b"/obj/../link", rb + b"//obj/.", "/nonexist/é".encode(), b"/nonexist/" + bad, b"/", rb + b"/loop", b"rel/comp", b"", b"/nonexist/\x80\x9f\xff", b"/nonexist/\xc3\x28\x85", rb + b"/near", far]
    dirs = [b"src", b"../real", b"../link", b"../link/..", b"/abs/inc", rb + b"/real/sub", b"..", b".", b"./x/./y", b"a//b", b"../../../../../../../../../..", "é".encode(), b"..//real/sub/", bad,
            rb + b"/real/up/deep", rb + b"/obj/abs", b"/abs/" + bad, rb + b"/chain", b"../sp ace", b"abs", rb + b"/near", far, b"../near"]
    names = [b"a.c", b"b.h", b"x.c", b"sub/b.h", b"../a.c", b"/abs/z.c", rb + b"/flink.c", rb + b"/dangling.c", b"gen.c", "ü.c".encode(), bad + b".c", b"./a.c", b"sub//b.h", b"nope.c", b"../loop/x.c",
             b"..hidden.c", b"a b.c", b"x/../../a.c", b"...", b"a\\b.c", b"far.c", b"back.c", far + b"/back.c", rb + b"/near/far.c", rb + b"/near/back.c"]
    if rng.random() < 0.3:
        # long directories that differ only at their end, many files
        long = b"/nonexist/" + b"some/long/source/directory/" * rng.choice([3, 6, 12])
        comps = [long + b"a", long + b"b", long + b"a/", long[:-1]]
        dirs = [b"x" * 200 + b"/%d" % j for j in range(3)] + [b"../" * 5 + b"i", b"src", b".", long + b"c"]
        names = [b"n%d.c" % j for j in range(30)] + [b"v" * 200 + b"%d.c" % j for j in range(3)]
    if rng.random() < 0.15:
        # many names of the same length which are no UTF-8
        names = [bad + b"%02d.c" % j for j in range(12)] + [b"\xff" + b"%02dxyz.c" % j for j in range(4)]
        dirs = [bad + b"%d" % j for j in range(8)] + [b"src"]
    if not unix:
        comps = [rb"C:\b\obj", b"C:\\b\\", b"/home/u/build", b"C:/b/x", rb"\\srv\share", "C:\\é".encode(), b"D:", rb]
        dirs = [rb"..\inc", rb"D:\sdk\inc", b"inc/sub", b"/usr/include", b"inc", b".", rb"\root", b"E:/x/", rb + b"/real", b"..", "é".encode(), b""]
        names = [rb"sub\x.c", b"y.c", b"E:/abs.c", rb"\\srv\z.h", b"sub/w.c", b"..\\v.c", b"/usr/u.c", b"a.c", "ü.c".encode(), bad + b".c", b"a b.c"]
    if k == "pdb":
        pool = [rb"C:\b\obj\x.c", rb"C:\b\..\obj\y.c", rb"\\srv\share\z.c", b"/home/u/w.c", b"/home/u/../v.c", rb"d:\x\\z\y.c", rb + b"/real/a.c", rb + b"/link/../a.c", "C:\\é\\ü.c".encode(), b"/home//u/./q.c",
                rb"C:\a b\c.c"]
        pick = {}

        def paths(cu, j):
            key = (id(cu), j)
            if key not in pick:
                pick[key] = dec(rng.choice(pool))
            return pick[key]
        w = win.WinMod(m, arch=rng.choice(["x64", "x86"]), paths=paths)
        _, path = w.build(ctx.work, "m")
    else:
        for cu in m.cus:
            cu.comp_dir = rng.choice(comps)
            nd = len(cu.dirs)
            cu.dirs = [rng.choice([d for d in dirs if d or cu.version == 5]) for _ in range(nd)]
            cu.files = [(di, rng.choice(names)) for di, _ in cu.files]
            if cu.comp_dir == b"":
                # without compilation directory only directories that settle the matter
                cu.dirs = [rng.choice([b"src", b"real", b"/abs/inc", rb + b"/real"]) for _ in cu.dirs]
                cu.files = [(di, n if di else b"/abs/z.c") for di, n in cu.files]
                cu.files = [(di, n if not n.startswith((b"..", b"x/..")) else b"a.c") for di, n in cu.files]
            if cu.comp_dir == b"rel/comp":
                cu.dirs = [d if d.startswith(b"/") else b"real" for d in cu.dirs]
                cu.files = [(di, n if b".." not in n else b"a.c") for di, n in cu.files]
            if cu.version == 5 and not cu.comp_dir.decode("utf-8", "ignore").encode() == cu.comp_dir:
                cu.comp_dir = rng.choice(comps[:2])
        if k == "macho":
            m = macho.adapt(m)
            path = ctx.write("m.dylib", macho.MachO(m, uuid=bytes(16 * [7])).build())
            m.path = lambda cu, j: linux_path(cu, j, real=False)
        elif k == "mingw":
            m.path = pe.win_path
            path = ctx.write("m.dll", pe.Pe(m, pdb_path=b"C:\\m.pdb", exports=[(b"last_export", 0x2000 + m.o["text"] - 0x100)]).build())
        else:
            m.path = linux_path
            path = ctx.write("m.so", m.full())
    inl = ["--inlines"] if rng.random() < 0.5 else []
    s = sym.parse(ctx.dump_ok(*inl, path, cwd=cwd).out)
    for e in sym.integrity_errors(s, bool(inl))[:2]:
        ctx.violation(e)
    if unix:
        # a compilation directory that is no UTF-8 has two acceptable texts
        alts = {linux_path(cu, j, alt=True, real=k != "macho"): m.path(cu, j) for cu in m.cus for j in range(len(cu.files))}
        s.files = {i: alts.get(t, t) for i, t in s.files.items()}
    else:
        alts = {}
    errs, n = (oracle.lines_inl if inl else oracle.lines_noinl)(m, s)[:2]
    for e in errs[:2]:
        ctx.violation("%s: %s (entries: %r)" % (k, e, [(c.comp_dir, c.dirs, c.files) for c in m.cus][:3]))
    legit = {m.path(cu, j) for cu in m.cus for j in range(len(cu.files))}
    extra = set(s.files.values()) - legit
    if extra:
        ctx.violation("%s: FILE records %r result from no file entry" % (k, sorted(extra)[:3]))
    ctx.tick("addresses resolved", n)
    ctx.tick("FILE records", len(s.files))
    ctx.tick("existing files", sum(1 for t in s.files.values() if t.startswith(root)))
    if k == "pdb":
        for t in s.files.values():
            ctx.seen(k, t.replace(root, "R"))
    else:
        for cu in m.cus:
            for di, nme in cu.files:
                ctx.seen(k, cu.version, cu.comp_dir.replace(rb, b"R"), cu.dirs[di - 1].replace(rb, b"R") if di else "-", nme.replace(rb, b"R"))
    if case["i"] < 5:
        ctx.sample = {"case": case, "files": [t.replace(root, "R") for t in s.files.values()][:6]}
