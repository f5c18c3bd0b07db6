"""C15: where symbol files land."""
import hashlib
import os

from vlib import gen, macho, msf, pe, sym, win, work

RULE = ("one case = a module (or a batch) whose name we choose, hostile ones included (parent directories, absolute, backslashes, control characters, compressed-file and PDB extensions in "
        "any case, hundreds of characters), dumped to a store given in different forms (relative, nested and missing, trailing slash, through a link, already holding an older longer "
        "file), with or without an output file; the whole scratch tree is recorded before and after: exactly the expected paths may be new or changed, with the expected bytes. "
        "distinct = distinct (container, name class, store form, output form, batch) classes")
ASSUMPTIONS = ["a name that the file system cannot hold must make the run fail, not write elsewhere", "names which are empty, . or .. after removing directories are covered by containment only"]
TECHNIQUE = "file-system monitor: complete before/after record of a scratch tree around real runs"
LEVEL = "exploration"
LEVEL_NOTE = "generated names; the tree around the store, its parents and canaries is compared completely"
MIN_DISTINCT = 60
QUICK_S, THOROUGH_S = 60, 600

PLAIN = ["libx.so", "libx.so.1", "noext", "a b.so", "caf\u00e9.so", "x.PDB", "x.pdb", "x.Pdb", "x.y.pdb", "x.pd_", "x.PD_", "x.dl_", "x.DL_", "x.ex_", "x.Ex_", "x.exe", "x.dll", "x.db_", "x.dbg",
         "x.pdb.so", "pdb", "x.", "x..so", "x.pdb.pd_", ".hidden.so", "back\\slash.so", "C:", "C:\\x.so", "~", "$HOME", "*", "con", "-rf", "a" * 120, "x.sym", "\u2713.pdb", "pd_", "dl_.so", "l" * 90 + ".pd_", "l" * 150 + ".DL_", "l" * 200 + ".ex_", "m" * 140 + ".pdb", "n" * 140, "o" * 249 + ".pdb", "p" * 251]
EVIL = ["../../evil.so", "../evil", "..", ".", "...", "", "/abs/evil.so", "@SCRATCH@/canary/hit.so", "@SCRATCH@/canary", "a/../../b.so", "..\\..\\evil.so", "x\n.so", "\x01", "x\ty.so", "/", "//",
        "../", "a/..", " ", " ..", ".. ", "..\n", "\n..", "\x7f..", ".\x01.", "../../../../../../../../../up.so", "x" * 300, "x" * 230 + ".so", "\u00a0", "..\u00a0"]


def expected(name, ident):
    """Relative path of the symbol file of module `name`."""
    stem, dot, ext = name.rpartition(".")
    d, f = name, name + ".sym"
    if dot and stem:
        x = {"pd_": "pdb", "dl_": "dll", "ex_": "exe"}.get(ext.lower())
        if x:
            d = stem + "." + x
    if dot and ext.lower() == "pdb":
        f = stem + ".sym"
    return os.path.join(d, ident, f)


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = "link " + os.readlink(p) if os.path.islink(p) else "dir"
        for n in fs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = "link " + os.readlink(p)
            else:
                with open(p, "rb") as h:
                    out[os.path.relpath(p, root)] = hashlib.sha256(h.read()).hexdigest()
    return out


def cases(ctx):
    n = 2400 if ctx.tier == "quick" else 16000
    kinds = ["elfso", "file", "pe", "macho", "batch", "elfso", "pdb", "pefile"]
    return [{"i": i, "kind": kinds[i % len(kinds)]} for i in range(n)]


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    # the store lies deep inside the scratch tree: climbing out of it stays in the scratch tree
    deep = ctx.path("1", "2", "3", "4", "5", "6", "7", "w", "x")[:-2]
    os.makedirs(deep, exist_ok=True)
    ind = ctx.path("in", "x")[:-2]
    os.makedirs(ind, exist_ok=True)
    ctx.write("canary/hit.so", b"canary")
    ctx.write("canary/other", b"canary")

    def put(n, b):
        p = os.path.join(ind, n)
        with open(p, "wb") as f:
            f.write(b)
        return p

    def evil():
        n = rng.choice(EVIL) if rng.random() < 0.6 else rng.choice(PLAIN)
        return n.replace("@SCRATCH@", ctx.work)
    files, modn = [], None
    if kind == "batch":
        a = [gen.Mod(rng, soname=rng.choice([None, b"libsame.so", evil().encode()[:200]])) for _ in range(rng.randrange(2, 5))]
        files = [put("f%d.so" % k, m.full()) for k, m in enumerate(a)]
    elif kind == "elfso":
        modn = evil()
        files = [put("file.so", gen.Mod(rng, soname=modn.encode()).full())]
    elif kind == "file":
        modn = rng.choice(PLAIN)
        files = [put(modn, gen.Mod(rng).full())]
    elif kind == "macho":
        modn = evil()
        m = macho.adapt(gen.Mod(rng, **dict(macho.opts(), dyn=0)))
        files = [put("f.dylib", macho.MachO(m, uuid=bytes(rng.randrange(256) for _ in range(16)), install=modn.encode()[:900] or None).build())]
    elif kind in ("pe", "pefile"):
        modn = evil() if kind == "pe" else None
        fn = "f.dll" if kind == "pe" else rng.choice(PLAIN)
        if modn is not None:
            modn = modn.replace("/", rng.choice(["/", "\\"]))
        g = bytes(rng.randrange(256) for _ in range(16))
        files = [put(fn, pe.Pe(pdb_path=modn.encode() if modn is not None else None, guid=g, pdata=[(0x2000, 0x2020)]).build())]
        if modn is None:
            modn = fn
    elif kind == "pdb":
        modn = rng.choice(["m.pdb", "m.PDB", "m.Pdb", "m.x", "m", "m.dbg"])
        w = work.Work(ctx, "pdb64", "plain", dir=ctx.path("t", "x")[:-2])
        files = [put(modn, open(w.path, "rb").read())]
    # expected bytes: the same run to standard output
    ref = ctx.dump_ok(*files, cwd=ctx.work).out
    blocks = [b"MODULE " + x for x in ref.split(b"MODULE ")[1:]] if kind == "batch" else [ref]
    if kind == "batch":
        blocks = []
        cur = None
        for l in ref.split(b"\n")[:-1]:
            if l.startswith(b"MODULE "):
                cur = []
                blocks.append(cur)
            cur.append(l)
        blocks = [b"\n".join(b) + b"\n" for b in blocks]
    form = rng.choice(["abs", "rel", "nested", "slash", "link", "dotdot", "plain"])
    cwd = deep
    real = os.path.join(deep, "store")
    st = real
    if form == "rel":
        st = "store"
    elif form == "nested":
        real = os.path.join(deep, "new", "a b", "store")
        st = real
    elif form == "slash":
        st = real + "/"
    elif form == "link":
        real = os.path.join(deep, "realstore")
        os.makedirs(real)
        os.symlink("realstore", os.path.join(deep, "lnk"))
        st = os.path.join(deep, "lnk")
    elif form == "dotdot":
        os.makedirs(os.path.join(deep, "q"))
        st, real = "q/../store", os.path.join(deep, "store")
    ofile = None
    args = ["--store", st]
    single = kind != "batch"
    oform = rng.choice(["none", "none", "file", "stdout", "oldfile"]) if single else "none"
    if oform in ("file", "oldfile"):
        ofile = os.path.join(deep, "out.sym")
        args += ["-o", "out.sym" if rng.random() < 0.5 else ofile]
        if oform == "oldfile":
            with open(ofile, "wb") as f:
                f.write(b"MODULE old\n" * 4000)
    elif oform == "stdout":
        args += ["-o", "-"]
    # what should be there
    want, must_fail = {}, False
    for b in blocks:
        s = sym.parse(b)
        if s.module is None:
            ctx.violation("no MODULE record")
            return
        rel = expected(s.module[3], s.module[2])
        if any(len(x.encode()) > 255 for x in rel.split("/")):
            must_fail = True
        want[os.path.relpath(os.path.join(real, rel), ctx.work)] = hashlib.sha256(b).hexdigest()
        full = os.path.normpath(os.path.join(real, rel))
        if s.module[3] in (".", "..") or not full.startswith(os.path.normpath(real) + "/") or full.count("/") != os.path.normpath(real).count("/") + 3:
            ctx.violation("the module name %r leads out of the store" % s.module[3])
            return
        if "/" in s.module[3]:
            ctx.violation("the module name %r contains a directory" % s.module[3])
    old = rng.random() < 0.3 and not must_fail
    if old:
        for p in want:
            p = os.path.join(ctx.work, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b"MODULE stale\n" * 5000)
    before = snapshot(ctx.work)
    r = ctx.dump(*args, "-j", str(rng.choice([1, 2, 4])), *files, cwd=cwd)
    after = snapshot(ctx.work)
    if r.hang:
        ctx.violation("hang: " + r.describe())
        return
    relreal = os.path.relpath(real, ctx.work)
    allowed = dict(want)
    if ofile:
        allowed[os.path.relpath(ofile, ctx.work)] = hashlib.sha256(ref).hexdigest()
    dirs = set()
    for p in want:
        d = os.path.dirname(p)
        while d and d not in dirs:
            dirs.add(d)
            d = os.path.dirname(d)
    for p, v in after.items():
        if before.get(p) == v or p in allowed:
            continue
        if v == "dir" and (p in dirs):
            continue
        inside = p.startswith(relreal + "/")
        if must_fail and inside:
            continue
        ctx.violation("%s: %r %s although only %r may be (module name %r, store form %s)" % (kind, p, "created" if p not in before else "changed", sorted(allowed)[:3], modn, form))
    for p in before:
        if p not in after:
            ctx.violation("%r was removed" % p)
    if must_fail:
        if r.rc == 0:
            ctx.violation("a name too long for the file system, yet exit status 0")
    else:
        if r.rc != 0:
            ctx.violation("%s: the run fails (module name %r): %s" % (kind, modn, r.describe()))
        else:
            for p, h in allowed.items():
                if after.get(p) != h:
                    ctx.violation("%s: %r %s" % (kind, p, "is missing" if p not in after else "does not hold the bytes of the module (stale before: %s)" % old))
            if oform == "stdout" and r.out != ref:
                ctx.violation("-o - with a store: standard output differs from a run without store")
            if oform != "stdout" and r.out:
                ctx.violation("unasked standard output")
    ctx.tick("trees compared")
    ctx.tick("paths recorded", len(after))
    ctx.seen(kind, form, oform, old, (modn or "")[:40].replace(ctx.work, "@"), must_fail)
    if case["i"] < 3:
        ctx.sample = {"case": case, "module_name": (modn or "")[:80], "store_files": sorted(want)[:2]}
