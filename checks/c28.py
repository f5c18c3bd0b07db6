"""C28: the effort of a dump grows in proportion to its input."""
import lzma
import os
import re
import resource
import shutil
import subprocess

from vlib import cab, gen, macho, pe, win
from vlib.common import Inconclusive
from vlib.elf import Elf, Func, Inl, Sym

RULE = ("one case = one kind of content (units with functions, lines, inlined calls, ranges of one call, source files, inlined functions, symbols of each table, unwind entries of each kind, sections, equal functions, "
        "path components, bytes of a name, mapped paths, merged tables, files of a batch) in amounts n/4, n and 4n, dumped with one job; the CPU time of the larger dump is compared with that of the smaller "
        "one (runs are repeated before anything is reported), and the records are counted. distinct = distinct (kind, options) with complete outputs")
ASSUMPTIONS = ["CPU time of repeated runs: a ratio is only reported when the best of three runs exceeds it, compared with the worst of as many smaller ones",
               "functions of one compilation unit and nested inlined calls are searched one by one in the dependency which reads DWARF: units have 8 functions here and calls are not nested"]
TECHNIQUE = "cost monitor: CPU time of the real program on inputs of growing size, ratio oracle"
LEVEL = "exploration"
LEVEL_NOTE = "about 25 kinds of content, three sizes each (nine in the thorough run)"
MIN_DISTINCT = 15
QUICK_S, THOROUGH_S = 240, 860
JOBS = 6

LIMIT = 8.0           # for four times the input; n log n stays below 5, a square makes it 16


def base(r, size, **k):
    d = dict(cus=1, funcs=3, publics=2, text=size + 0x8000, version=r.choice([4, 5]), compress=False, multi_range=0, extra_exec=0, pie=True, inl_prob=0, langs=("cpp",), build_id=b"0123456789abcdefghij")
    d.update(k)
    m = gen.Mod(r, **d)
    return m, m.cus[0]


def large(r, n, step=4, **k):
    """A module with one large function for n things of `step` bytes."""
    m, cu = base(r, n * step, **k)
    lo = (m.text_end - n * step - 0x400) & ~15
    m.syms[:] = [s for s in m.syms if s.addr < lo]
    f = Func([(lo, lo + n * step)], [(lo, 0, 1)], [], name=b"large_fn")
    f.version, f.expect = cu.version, "large_fn"
    cu.funcs.append(f)
    return m, cu, f, lo


def mangled(k, where=b"alpha"):
    n = b"f%d" % k
    return b"_ZN%d%s%d%sEv" % (len(where), where, len(n), n)


def fresh(r, n, size=8, names=mangled):
    m, cu = base(r, n * size)
    t = (m.text_end - n * size) & ~15
    return m, t


# each: (n, r) -> ({file name: bytes}, options, (record, at least n of them))
def rows(n, r):
    m, cu, f, lo = large(r, n)
    f.rows = [(lo + 4 * k, k % len(cu.files), 1 + k * 7 % 60000) for k in range(n)]
    return {"m.so": m.full()}, [], ("line", n)


def calls(n, r):
    m, cu, f, lo = large(r, n)
    f.inlines = [Inl(k % len(cu.abstracts), [(lo + 4 * k, lo + 4 * k + 2)], 0, k + 1) for k in range(n)]
    f.rows = [(lo + 4 * k, 0, 5 + k % 9) for k in range(n)]
    return {"m.so": m.full()}, ["--inlines"], ("INLINE ", n)


def callranges(n, r):
    m, cu, f, lo = large(r, n)
    f.inlines = [Inl(0, [(lo + 4 * k, lo + 4 * k + 2) for k in range(n)], 0, 9)]
    return {"m.so": m.full()}, ["--inlines"], ("INLINE ", 1)


def shuffled(n, r):
    m, cu, f, lo = large(r, n)
    f.inlines = [Inl(k % len(cu.abstracts), [(lo + 4 * k, lo + 4 * k + 2)], 0, k + 1) for k in range(n)]
    r.shuffle(f.inlines)
    return {"m.so": m.full()}, ["--inlines"], ("INLINE ", n)


def files(n, r):
    m, cu, f, lo = large(r, n)
    cu.files = [(0, b"file%d.c" % k) for k in range(n)]
    f.rows = [(lo + 4 * k, k, 5) for k in range(n)]
    return {"m.so": m.full()}, [], ("FILE ", n)


def mapped(n, r):
    fs, _, want = files(n, r)
    return fs, ["--mapping-var=rev=1", "--mapping-src=^/nowhere/(.*)$", "--mapping-dest=x:{1}", "--mapping-src=^(.*)/(file[0-9]+)\\.c$", "--mapping-dest=hg:{rev}:{2}:{1}"], want


def origins(n, r):
    m, cu, f, lo = large(r, n)
    cu.abstracts = [dict(name=b"short", linkage=mangled(k), expect="") for k in range(n)]
    f.inlines = [Inl(k, [(lo + 4 * k, lo + 4 * k + 2)], 0, k + 1) for k in range(n)]
    return {"m.so": m.full()}, ["--inlines"], ("INLINE_ORIGIN ", n)


def units(n, r):
    return {"m.so": gen.Mod(r, cus=n // 8, funcs=8, text=n * 64 + 0x8000, version=r.choice([4, 5]), compress=False).full()}, r.choice([[], ["--inlines"]]), ("FUNC ", n // 2)


def symbols(n, r):
    m, t = fresh(r, n)
    m.syms += [Sym(mangled(k), t + 8 * k, r.choice([0, 8])) for k in range(n)]
    return {"m.so": m.full()}, [], ("PUBLIC ", n)


def aliases(n, r):
    m, t = fresh(r, n)
    m.syms += [Sym(b"alias_%d" % k, t + 8 * (k % 5), 8) for k in range(n)]
    return {"m.so": m.full()}, [], ("PUBLIC ", 5)


def hidden(n, r):
    """Symbols inside a function, and functions with symbols."""
    m, cu, f, lo = large(r, n)
    m.syms += [Sym(b"label_%d" % k, lo + 4 * k, 4) for k in range(n)]
    return {"m.so": m.full()}, [], ("FUNC ", 1)


def mini(n, r):
    m, t = fresh(r, n)
    m.syms += [Sym(b"mini_%d" % k, t + 8 * k, 8) for k in range(n)]
    inside = Elf(**dict(m.kw, dynsyms=(), soname=None, interp=False, compress=False)).build()
    return {"m.so": Elf(cus=m.cus, fdes=m.fdes, **dict(m.kw, syms=(), debugdata=lzma.compress(inside, preset=0))).build()}, [], ("PUBLIC ", n)


def unwind(n, r):
    m, t = fresh(r, n)
    m.fdes = [(t + 8 * k, t + 8 * k + 8) for k in range(n)]
    return {"m.so": m.full()}, r.choice([[], ["--check-cfi"]]), ("STACK CFI INIT ", n)


def sections(n, r):
    m, _ = base(r, 0x1000, extra_exec=n)
    return {"m.so": m.full()}, [], ("PUBLIC ", n // 2)


def folded(n, r):
    m, cu, f, lo = large(r, 64)
    for k in range(n):
        g = Func([(lo, lo + 16 + k % 30)], [(lo, 0, 5)], [], name=b"dup%d" % k)
        g.version, g.expect = cu.version, ""
        cu.funcs.append(g)
    return {"m.so": m.full()}, [], ("FUNC ", 1)


def deeppath(n, r):
    m, cu, f, lo = large(r, 64)
    cu.files = [(0, b"a/../b/./" * n + b"f.c")]
    f.rows = [(lo, 0, 5)]
    for g in cu.funcs:
        g.rows = [(a, 0, l) for a, _, l in g.rows]
    return {"m.so": m.full()}, [], ("FILE ", 1)


def longname(n, r):
    m, cu, f, lo = large(r, 64)
    f.name = b"long_" + b"name_" * n
    m.syms.append(Sym(b"other_" + b"name_" * n, lo + 0x200, 4))
    return {"m.so": m.full()}, [], ("FUNC ", 1)


def merged(n, r):
    m, cu = base(r, n * 8, dyn=2)
    t = (m.text_end - n * 8) & ~15
    m.syms += [Sym(b"sym_%d" % k, t + 8 * k, 8) for k in range(n)]
    m.fdes = [(t + 8 * k, t + 8 * k + 8) for k in range(n)]
    return {"m.so": m.full(), "m.debug": m.debug_only(with_eh=True)}, [], ("PUBLIC ", n)


def mergedfuncs(n, r):
    m = gen.Mod(r, cus=n // 8, funcs=8, text=n * 64 + 0x8000, version=4, compress=False, dyn=2, build_id=b"0123456789abcdefghij")
    return {"m.so": m.full(), "m.debug": m.debug_only()}, ["--inlines"], ("FUNC ", n // 2)


def mergedfiles(n, r):
    """Two files of one module, with a function of their own each; the half of their sources is shared."""
    st, out = r.getstate(), {}
    for name, at in (("m.so", 0), ("m.debug", 4 * n)):
        r.setstate(st)
        m, cu, f, lo = large(r, 2 * n)
        cu.files = [(0, b"file%d.c" % k if k % 2 else b"file%d.%s" % (k, name.encode())) for k in range(n)]
        f.rows = [(lo + at + 4 * k, k, 5) for k in range(n)]
        f.ranges = [(lo + at, lo + at + 4 * n)]
        f.name = b"large_" + name[2:].encode()
        for g in cu.funcs:
            if g is not f:
                g.rows = [(x, 0, y) for x, _, y in g.rows]
        out[name] = m.full()
    return out, [], ("FILE ", n * 5 // 4)


def copies(n, r):
    """The same file n times over."""
    b = gen.Mod(r, cus=1, funcs=3, text=0x1000).full()
    return {"m%d.so" % k: b for k in range(n)}, [], ("FUNC ", 1)


def modules(n, r):
    m = gen.Mod(r, cus=1, funcs=3, text=0x1000)
    out = {}
    for k in range(n):
        m.kw["build_id"] = r.randbytes(20)
        out["m%d.so" % k] = m.full()
    return out, [], ("FUNC ", 1)


def exceptions(n, r):
    return {"m.dll": pe.Pe(pdb_path=b"m.pdb", pdata=[(0x2000 + 16 * k, 0x2000 + 16 * k + 12) for k in range(n)], text_size=0x1000 + 16 * n, timestamp=7).build()}, [], ("STACK CFI INIT ", n)


def machos(n, r):
    m, t = fresh(r, n)
    m = gen.Mod(r, **dict(macho.opts(), cus=1, funcs=3, publics=2, text=n * 8 + 0x8000, compress=False))
    t = (m.text_end - n * 8) & ~15
    m.syms += [Sym(b"sym_%d" % k, t + 8 * k, 8) for k in range(n)]
    macho.adapt(m)
    return {"m.dylib": macho.MachO(m, uuid=b"u" * 16).build()}, [], ("PUBLIC ", n)


def pdbs(n, r, d=None):
    m = gen.Mod(r, langs=("c",), pie=True, multi_range=0, publics=0, extra_exec=0, text=n * 64 + 0x8000, dyn=0, version=4, cus=2, funcs=n // 2)
    w = win.WinMod(m, arch="x64")
    exe, pdb = w.build(d, "m")
    os.unlink(exe)
    return {"m.pdb": open(pdb, "rb").read()}, r.choice([[], ["--inlines"]]), ("FUNC ", n // 2)


def cabinet(n, r):
    w = gen.Mod(r, cus=1, funcs=3, text=0x2000)
    m, t = fresh(r, n)
    d = pe.Pe(pdb_path=b"m.pdb", pdata=[(0x2000 + 16 * k, 0x2000 + 16 * k + 12) for k in range(n)], text_size=0x1000 + 16 * n, timestamp=7).build()
    return {"m.dl_": cab.build([[("m.dll", d)]])}, [], ("STACK CFI INIT ", n)


KINDS = {"rows": (rows, 60000), "calls": (calls, 6000), "callranges": (callranges, 10000), "shuffled": (shuffled, 6000), "files": (files, 12000), "mapped": (mapped, 8000), "origins": (origins, 6000),
         "units": (units, 4000), "symbols": (symbols, 20000), "aliases": (aliases, 30000), "hidden": (hidden, 30000), "mini": (mini, 20000), "unwind": (unwind, 25000), "sections": (sections, 3000),
         "folded": (folded, 40000), "deeppath": (deeppath, 150000), "longname": (longname, 200000), "merged": (merged, 10000), "mergedfuncs": (mergedfuncs, 3200), "mergedfiles": (mergedfiles, 10000),
         "copies": (copies, 100), "modules": (modules, 60), "exceptions": (exceptions, 20000), "machos": (machos, 20000), "pdbs": (pdbs, 1000), "cabinet": (cabinet, 20000)}


def cases(ctx):
    big = [k for k in KINDS]
    return [{"kind": k, "x": x, "i": i} for x in ((2,) if ctx.tier == "quick" else (2, 4, 8)) for i, k in enumerate(big)]


def measure(ctx, files_, opts, limit, out):
    """(CPU seconds, records) or None when the limit is exceeded."""
    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (int(limit) + 1, int(limit) + 1))
    shutil.rmtree(out, ignore_errors=True)
    ctx.evals += 1
    with open(ctx.path("stderr"), "wb") as e:
        p = subprocess.Popen([ctx.bins["plain"], "-j", "1", "--store", out] + opts + files_, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e, cwd=ctx.work, preexec_fn=pre,
                             env=dict(os.environ, NO_PROXY="*"))
        _, st, ru = os.wait4(p.pid, 0)
        p.returncode = st
    t = ru.ru_utime + ru.ru_stime
    if os.WIFSIGNALED(st) and t >= limit:
        return None
    if st:
        ctx.violation("a valid input: the run ends with wait status %d: %s" % (st, open(ctx.path("stderr"), "rb").read()[-500:].decode("utf-8", "replace")))
        raise Inconclusive("no dump")
    return t


LINE = re.compile(rb"^[0-9a-f]+ [0-9a-f]+ \d+ \d+$", re.M)


def count(out, rec):
    n = 0
    for d, _, fs in os.walk(out):
        for f in fs:
            with open(os.path.join(d, f), "rb") as g:
                b = g.read()
            n += len(LINE.findall(b)) if rec == "line" else b.count(b"\n" + rec.encode())
    return n


def run_case(ctx, case):
    fn, n0 = KINDS[case["kind"]]
    n0 *= case["x"]
    if case["kind"] in ("sections", "pdbs") and case["x"] > 4:
        return                     # as many as the format and the tools take
    sizes, best, given_up = [], [], 0
    st = ctx.rng.getstate()
    for k, n in enumerate((n0 // 4, n0, 4 * n0)):
        ctx.rng.setstate(st)
        d = ctx.path("in%d" % k, "x")[:-2]
        os.makedirs(d, exist_ok=True)
        fs, opts, want = fn(n, ctx.rng, d) if fn is pdbs else fn(n, ctx.rng)
        ps = []
        for name, b in fs.items():
            with open(os.path.join(d, name), "wb") as f:
                f.write(b)
            ps.append(os.path.join(d, name))
        sizes.append(ps)
        what = "%s %s, n=%d" % (case["kind"], " ".join(opts), n)
        # given up when the time is beyond any doubt
        limit = max(12, 2 * LIMIT * best[-1]) if best else 60
        best.append(None)
        for again in range(3):
            t = measure(ctx, ps, opts, limit, ctx.path("st"))
            if t is not None:
                best[k] = min(t, best[k] or t)
            if not k or t is not None and (best[k] <= LIMIT * best[k - 1] or best[k] < 0.5):
                break
            if again < 2:
                best[k - 1] = max(best[k - 1], measure(ctx, sizes[k - 1], opts, 60, ctx.path("st")) or 0)
        if best[k] is None:
            if not k:
                raise Inconclusive(what + " takes too long")
            ctx.violation("%s takes more than %d s, a quarter of it %.2f s" % (what, limit, best[k - 1]))
            return
        if k and best[k] > LIMIT * best[k - 1] and best[k] >= 0.5:
            ctx.violation("%s takes %.2f s, a quarter of it %.2f s" % (what, best[k], best[k - 1]))
            return
        rec, least = want
        have = count(ctx.path("st"), rec)
        if have < least:
            raise RuntimeError("%s: %d %s records instead of %d" % (what, have, rec, least))
        ctx.tick("records", have)
    ctx.tick("CPU seconds of the largest runs", round(best[2], 2))
    ctx.seen(case["kind"], case["x"], *[o.split("=")[0] for o in opts])
    ctx.sample = {"kind": case["kind"], "n": n0, "cpu_s": [round(x, 3) for x in best], "ratio": round(best[2] / best[1], 2)}
