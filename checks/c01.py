"""C01: every successful dump is well-formed Breakpad text."""
import os

from vlib import gen, hostile, macho, pe, sym, work
from vlib.common import Violation

RULE = ("one case = one or two generated modules (ELF, Mach-O, MinGW PE, PE without debug information, PDB) whose function, symbol, file, "
        "directory, module, install, soname and PDB names are replaced by hostile bytes (control characters, invalid UTF-8, empty, record-like, "
        "broken manglings, very long), dumped alone, merged, with inlines, with path mappings, to stdout and into a store; each output is parsed "
        "by a strict parser of the whole text. distinct = distinct (container, options, record kinds seen, hostile classes) observations")
ASSUMPTIONS = ["control characters are the ASCII ones (0-31, 127)", "a mapping rule whose destination is empty is excluded"]
TECHNIQUE = "strict grammar monitor over the complete output of real runs on hostile names"
LEVEL = "exploration"
LEVEL_NOTE = "hostile names from a fixed list, random bytes and combinations; whole outputs parsed"
MIN_DISTINCT = 20
QUICK_S, THOROUGH_S = 60, 600

KINDS = ["elf", "elf32", "elfbe", "macho", "dsymfile", "mingw", "barepe", "pdb64", "elf", "store", "merge", "mapping", "filename", "clean"]


def cases(ctx):
    n = 3360 if ctx.tier == "quick" else 24000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def look(ctx, data, what, sig):
    s = sym.parse(data)
    e = sym.grammar_errors(s)
    ctx.tick("outputs parsed")
    ctx.tick("records", len(s.records) + len(s.files) + len(s.origins) + len(s.stack))
    if e:
        ctx.write("bad.sym", data)
        ctx.violation("%s: line %d: %s: %s" % ((what,) + e[0]))
    kinds = [n for n, v in (("FILE", s.files), ("ORIGIN", s.origins), ("FUNC", s.funcs), ("PUBLIC", s.publics), ("STACK", s.stack), ("CODE_ID", s.code_id)) if v]
    ctx.seen(sig, "+".join(kinds), "f%d" % min(9, len(s.funcs)), "p%d" % min(9, len(s.publics)), "F%d" % min(9, len(s.files)))
    return s


def build(ctx, kind, rng):
    """A file of the kind with hostile names inside."""
    if kind in ("elf", "elf32", "elfbe"):
        o = {"elf32": dict(bits=32, machine="x86"), "elfbe": dict(little=False, machine="ppc64"), "elf": {}}[kind]
        so = hostile.name(rng)[:200] if rng.random() < 0.5 else None
        m = hostile.poison(gen.Mod(rng, soname=so, dyn=rng.choice([0, 3]), text=0x3000, **o), rng)
        for x in m.dynsyms:
            x.name = x.name[:1500]
        if rng.random() < 0.3:
            m.kw["extra_sections"] = ((hostile.name(rng)[:50].decode("latin-1").replace("\0", ""), b"abc"),)
        data = m.full()
        return data, ".so"
    if kind in ("macho", "dsymfile"):
        m = hostile.poison(macho.adapt(gen.Mod(rng, **macho.opts())), rng)
        inst = hostile.name(rng)[:200] if rng.random() < 0.6 else None
        return macho.MachO(m, uuid=bytes(rng.randrange(256) for _ in range(16)) if rng.random() < 0.9 else None, install=inst,
                           filetype=6 if kind == "macho" else 10).build(), ".dylib"
    if kind in ("mingw", "barepe"):
        m = hostile.poison(gen.Mod(rng, **dict(pe.opts(), debug=kind == "mingw")), rng)
        exps = {}
        for k in range(rng.randrange(0, 12)):
            exps[hostile.name(rng).replace(b"\0", b"")[:3000]] = 0x2000 + rng.randrange(m.o["text"])
        x = pe.Pe(m, pdb_path=hostile.name(rng)[:200] if rng.random() < 0.8 else None, exports=list(exps.items()),
                  machine=rng.choice([0x8664, 0x8664, 0x14c]), pdata=None if kind == "mingw" else [(0x2000 + i * 32, 0x2010 + i * 32) for i in range(rng.randrange(0, 9))])
        return x.build(), rng.choice([".dll", ".exe", ""])
    raise ValueError(kind)


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    inl = ["--inlines"] if rng.random() < 0.6 else []
    extra = []
    if rng.random() < 0.3:
        extra = ["--extra-info", "KEY %s" % rng.choice(["v", "a b", "\u00e9", "x" * 500])]
    if kind == "pdb64":
        w = work.Work(ctx, rng.choice(work.PDB), rng.choice(["plain", "nested"]))
        p = rng.choice([w.path, w.exe])
        r = ctx.dump_ok(*inl, *extra, p)
        look(ctx, r.out, "pdb", "pdb %s" % bool(inl))
        return
    if kind == "clean":
        w = work.Work(ctx, rng.choice(["elf", "macho", "mingw", "elfbe32"]), rng.choice(work.COMMON))
        r = ctx.dump_ok(*inl, *extra, w.path)
        look(ctx, r.out, "clean", "clean %s" % bool(inl))
        return
    base = rng.choice(["elf", "macho", "mingw", "barepe", "elf32"]) if kind in ("store", "merge", "mapping", "filename") else kind
    data, ext = build(ctx, base, rng)
    fn = b"in" + ext.encode()
    if kind == "filename":
        fn = (hostile.name(rng).replace(b"/", b"_").replace(b"\0", b"")[:100] or b"x")
        if fn in (b".", b".."):
            fn = b"x" + fn
        try:
            fn.decode("utf-8")
        except UnicodeDecodeError:
            fn = fn.decode("latin-1").encode("utf-8")[:200].decode("utf-8", "ignore").encode()
        if fn.startswith(b"-"):
            fn = b"./" + fn
    d = os.fsencode(ctx.work)
    p = os.path.join(d, fn)
    with open(p, "wb") as f:
        f.write(data)
    args = inl + extra
    if kind == "mapping":
        args += ["--mapping-src", rng.choice(["^(.*)$", "^/(.*)$", "(.)(.*)"]), "--mapping-dest", rng.choice(["hg:x:{1}:r", "{digest}/{1}", "a{1}{2}", "{DIGEST}"])]
    if kind == "store":
        st = ctx.path("store")
        r = ctx.dump(*args, "--store", st, p)
        if r.ok:
            n = 0
            for root, ds, fs in os.walk(os.fsencode(st)):
                for f in fs:
                    n += 1
                    with open(os.path.join(root, f), "rb") as h:
                        look(ctx, h.read(), "store of %s" % base, "store %s %s" % (base, bool(inl)))
            if n != 1:
                ctx.violation("exit status 0, but %d files in the store" % n)
    elif kind == "merge":
        # two files with the same id and different hostile names
        m1 = gen.Mod(rng, build_id=b"\x11" * 20, text=0x3000)
        m2 = gen.Mod(rng, build_id=b"\x11" * 20, text=0x3000, debug=rng.random() < 0.7)
        hostile.poison(m1, rng)
        hostile.poison(m2, rng)
        a, b = ctx.write("a.so", m1.full()), ctx.write("b.so", m2.full())
        st = ctx.path("store")
        r = ctx.dump(*args, "--store", st, a, b)
        if r.ok:
            for root, ds, fs in os.walk(os.fsencode(st)):
                for f in fs:
                    with open(os.path.join(root, f), "rb") as h:
                        look(ctx, h.read(), "merged", "merge %s" % bool(inl))
    else:
        r = ctx.dump(*args, p)
        if r.ok:
            look(ctx, r.out, "%s with hostile names" % base, "%s %s %s" % (kind, base, bool(inl)))
    if r.hang or (r.rc is not None and r.rc < 0):
        raise Violation("the run ends with %s: %s" % (r.hang or "a signal", r.describe()))
    ctx.tick("exit 0" if r.ok else "exit non-zero")
    if case["i"] < 2:
        ctx.sample = {"case": case, "rc": r.rc, "out": r.out.decode("utf-8", "replace")[:600]}
