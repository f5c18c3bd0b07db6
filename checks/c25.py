"""C25: no undefined behaviour and no data race in any run."""
import os
import re
import shutil

from vlib import batch, build, cab, gen, hostile, httpd, macho, mutate, pe, sym, work
from vlib.common import Inconclusive, run

RULE = ("one case = one workload run by a sanitizer build of the real program: batches with 2-64 jobs, merges, shared mapping rules, caches and a symbol server under ThreadSanitizer "
        "(standard library instrumented too); valid, hostile and damaged files of every container under AddressSanitizer; path mappings with non-ASCII rules, variables and paths, whose output must be "
        "valid text; a sample under valgrind memcheck. A sanitizer report, a failed unsafe-precondition check or ill-formed UTF-8 refutes the property. distinct = distinct (tool, workload, shape, outcome) "
        "classes; 'observed' counts runs and threads per tool")
ASSUMPTIONS = ["races are those ThreadSanitizer's happens-before analysis sees in the executed schedules", "AddressSanitizer instruments the Rust code of the program and its dependencies, not the prebuilt standard library",
               "leaks are not errors here"]
TECHNIQUE = "ThreadSanitizer (with -Zbuild-std), AddressSanitizer and valgrind memcheck on the real program under batch, hostile and mutation workloads; UTF-8 monitor on mapped paths"
LEVEL = "exploration"
LEVEL_NOTE = "executed schedules and inputs only"
MIN_DISTINCT = 60
QUICK_S, THOROUGH_S = 200, 600
NEEDS = ["plain", "tsan", "asan"]

KINDS = ["tbatch", "amut", "ahost", "tmap", "utf8", "tbatch", "amut", "avalid", "tserver", "vg"]
TS = {"TSAN_OPTIONS": "halt_on_error=0 exitcode=0 report_signal_unsafe=0 history_size=4"}
AS = {"ASAN_OPTIONS": "detect_leaks=0 exitcode=67 allocator_may_return_null=1 abort_on_error=0 detect_stack_use_after_return=1 strict_string_checks=1"}
BAD = ["WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "unsafe precondition", "undefined behavior", "LeakSanitizer"]


def cases(ctx):
    n = 500 if ctx.tier == "quick" else 6000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def innermost(stack):
    """The source file of the innermost frame outside the standard library and the sanitizer runtime."""
    for l in stack:
        m = re.search(r"(/[^ ]*\.rs|src/[^ ]*\.rs):\d+", l)
        if m and "/rustlib/" not in m.group(1):
            return m.group(1)
    return None


def reports(err):
    """Reports of a ThreadSanitizer run that count. Dropped: both accesses inside tokio or mio, which hand the pointer of an I/O
    registration through the kernel (epoll token): a happens-before edge the tool does not know."""
    out = []
    for rep in err.split("==================\n"):
        if "WARNING: ThreadSanitizer" not in rep:
            continue
        stacks, cur = [], None
        for l in rep.split("\n"):
            if re.match(r"  (Atomic |Previous |Write |Read |read |write |atomic )", l):
                cur = []
                stacks.append(cur)
            elif l.startswith("    #") and cur is not None:
                cur.append(l)
            elif not l.strip():
                cur = None
        inner = [innermost(s) for s in stacks]
        if len(inner) >= 2 and all(i and re.search(r"/registry/src/[^/]*/(tokio|mio)-", i) for i in inner[:2]):
            continue
        out.append((inner, rep))
    return out


def judge(ctx, r, tool, what):
    """True if the run can be used further."""
    ctx.tick(tool + " runs")
    if r.hang == "slow":
        raise Inconclusive(r.describe())
    if tool == "tsan" and "ThreadSanitizer: " in r.err:
        reps = reports(r.err)
        if reps:
            ctx.write("report.txt", r.err)
            ctx.violation("%s: %s: %s\n%s" % (tool, what, reps[0][0], reps[0][1][:900]))
            return False
        if "WARNING: ThreadSanitizer" in r.err:
            ctx.tick("tsan reports inside tokio/mio set aside")
            return True
    for b in BAD:
        if b in r.err:
            ctx.write("report.txt", r.err)
            ctx.violation("%s: %s: %s" % (tool, what, r.err[r.err.index(b):][:900]))
            return False
    if r.rc in (66, 67, 99):
        ctx.write("report.txt", r.err)
        ctx.violation("%s: %s: status %d: %s" % (tool, what, r.rc, r.err[-600:]))
        return False
    if r.rc is not None and r.rc in (-11, -7, -4, -8):
        ctx.violation("%s: %s: signal %d: %s" % (tool, what, -r.rc, r.err[-600:]))
        return False
    return True


def t(ctx, what, *args, **kw):
    kw["env"] = dict(kw.get("env") or {}, **TS)
    r = ctx.dump(*args, binary=ctx.bins["tsan"], watchdog=250.0, cpu_limit=240.0, settle=20.0, **kw)
    judge(ctx, r, "tsan", what)
    return r


def a(ctx, what, *args, **kw):
    kw["env"] = dict(kw.get("env") or {}, **AS)
    r = ctx.dump(*args, binary=ctx.bins["asan"], watchdog=250.0, cpu_limit=120.0, settle=10.0, **kw)
    judge(ctx, r, "asan", what)
    return r


def module(ctx, rng, clean=True):
    """(name, bytes)"""
    k = rng.choice(["elf", "elf32", "elfbe", "macho", "mingw", "barepe", "pdb64", "pdb32", "zlib", "fat", "cab", "mini"])
    if k in ("elf", "elf32", "elfbe", "macho", "mingw", "pdb64", "pdb32"):
        w = work.Work(ctx, k, rng.choice(work.COMMON if k not in work.PDB else ["plain", "nested"]), dir=ctx.path("t", "x")[:-2])
        return k, os.path.basename(w.path), open(w.path, "rb").read()
    if k == "barepe":
        ex = [(b"?f%d@@YAHXZ" % i, 0x2000 + 16 * i) for i in range(rng.randrange(0, 9))]
        return k, "b.dll", pe.Pe(gen.Mod(rng, **dict(pe.opts(), debug=False)), pdb_path=b"C:\\x\\rec.pdb", guid=bytes(16), pdata=[(0x2000 + 64 * i, 0x2010 + 64 * i) for i in range(6)], exports=ex).build()
    if k == "zlib":
        return k, "z.so", gen.Mod(rng, compress=rng.choice(["zlib", "gnu"])).full()
    if k == "mini":
        return k, "m.so", gen.Mod(rng, dyn=5, publics=9).stripped()
    if k == "fat":
        return k, "f.dylib", macho.fat([(c, macho.MachO(macho.adapt(gen.Mod(rng, **macho.opts())), cpu=c, uuid=bytes(rng.randrange(256) for _ in range(16))).build()) for c in ("x86_64", "arm64")])
    w = work.Work(ctx, "mingw", "plain", dir=ctx.path("t", "x")[:-2])
    return k, "m.dl_", cab.build([[("m.dll", open(w.path, "rb").read())]], mszip=True)


def opts(rng):
    o = ["--inlines"] if rng.random() < 0.6 else []
    if rng.random() < 0.4:
        o += ["--mapping-src", rng.choice(["^/nonexist/(.*)", "^(.*)$", "(.)(.*)"]), "--mapping-dest", rng.choice(["x/{1}", "{digest}", "\u00e9{1}\u20ac"])]
    return o


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    if kind in ("tbatch", "tmap"):
        shape = rng.choice(["few", "pairs", "one", "few", "many"]) if kind == "tbatch" else "few"
        b = batch.Batch(ctx, shape)
        o = opts(rng)
        if kind == "tmap":
            src = ctx.write("real/a.c", b"int x;")
            o = ["--inlines", "--mapping-src", "^(.*)/([^/]*)$", "--mapping-dest", "hg:{rev}:{1}/{2}", "--mapping-var", "rev=1", "--mapping-src", "nomatch", "--mapping-dest", "x"]
        jobs = rng.choice([2, 4, 8, 16, 64])
        st = ctx.path("st")
        r = t(ctx, "batch %s" % shape, *o, "-j", str(jobs), *rng.choice([["--store", st], [], ["--store", st, "-o", "-"]]), *b.files)
        if r.hang:
            ctx.violation("batch under ThreadSanitizer does not end: %s" % r.describe())
        if rng.random() < 0.4:
            # one failing input as well: the error path shares state too
            f = ctx.write("bad.so", b"\x7fELFjunk")
            t(ctx, "failing batch", *o, "-j", str(jobs), "--store", st, *(b.files + [f]))
        ctx.seen(kind, shape, len(b.mods), len(b.files), jobs, r.rc)
    elif kind == "tserver":
        w = work.Work(ctx, "pdb64", "plain", dir=ctx.path("s", "x")[:-2])
        from vlib import msf
        pdb = open(w.path, "rb").read()
        g, ia, da = msf.guid(pdb)
        d = ctx.path("exe", "x")[:-2]
        files = []
        for k in range(rng.choice([1, 2, 3])):
            os.makedirs(os.path.join(d, str(k)), exist_ok=True)
            q = os.path.join(d, str(k), "m.dll")
            shutil.copy(w.exe, q)
            files.append(q)
        with httpd.Server() as sv, httpd.Server() as sv2:
            sv.add("/m.pdb/%s/m.pdb" % msf.text(g, da), pdb)
            ss = "SRV*%s*%s;SRV*%s" % (ctx.path("cache"), sv.url, sv2.url)
            r = t(ctx, "symbol server", "--symbol-server", ss, "-j", "4", "--store", ctx.path("st"), *files)
        ctx.seen("tserver", len(files), r.rc)
    elif kind == "amut":
        k, name, data = module(ctx, rng)
        for _ in range(8):
            x, reg, mut = mutate.damage(data, rng)
            p = ctx.write("d/" + name, x)
            r = a(ctx, "%s damaged at %s (%s)" % (k, reg, mut), *opts(rng), p)
            ctx.seen("amut", k, reg, r.rc)
            if ctx.violations:
                return
    elif kind == "avalid":
        for _ in range(4):
            k, name, data = module(ctx, rng)
            p = ctx.write("v/" + name, data)
            o = opts(rng)
            r = a(ctx, "valid %s" % k, *o, p)
            r2 = ctx.dump(*o, p)
            if (r.rc, r.out) != (r2.rc, r2.out) and not ctx.violations and r.rc >= 0 and r2.rc >= 0:
                ctx.violation("the dump of a valid %s differs between two builds of the program: %s / %s" % (k, r.describe(), r2.describe()))
            ctx.seen("avalid", k, r.rc)
    elif kind == "ahost":
        from checks import c01
        k = rng.choice(["elf", "elf32", "elfbe", "macho", "dsymfile", "mingw", "barepe"])
        data, ext = c01.build(ctx, k, rng)
        p = ctx.write("h" + ext, data)
        for o in ([], ["--inlines"], opts(rng)):
            r = a(ctx, "%s with hostile names" % k, *o, p)
            ctx.seen("ahost", k, bool(o), r.rc)
    elif kind == "utf8":
        names = ["caf\u00e9.c", "\u65e5\u672c/x.h", "\U0001f980.rs", "a\u0301.c", "plain.c", "{x}.c", "\u00ff\u00fe.c"]
        m = gen.Mod(rng, files=[(0, rng.choice(names).encode()) for _ in range(4)])
        if rng.random() < 0.5:
            # long paths in which every byte offset lies inside some character
            c = rng.choice(["\u00e9", "\u65e5", "\U0001f980"])
            for cu in m.cus:
                cu.comp_dir = ("/nonexist/" + "x" * rng.randrange(4) + "/".join(c * rng.choice([20, 63, 120]) for _ in range(rng.choice([1, 3])))).encode()
        if rng.random() < 0.3:
            hostile.poison(m, rng)
        p = ctx.write("u.so", m.full())
        for _ in range(4):
            src = rng.choice(["^(.*)$", "(.)(.*)", "(\u00e9?)(.*)", "^.*?([^/]*)$", "([\u65e5-\u672c]+)?(.*)", "(..)$"])
            dst = rng.choice(["\u00e9{1}", "{1}\u20ac{2}", "{v}\U0001f980{1}", "\u00e9{\u00e9}{1}", "{{{1}}}", "{1}{", "}\u00e9{", "{}{1}\u00e9", "{99}", "\u00e9\u00e9{0}{1}{digest}", "{DIGEST}\u20ac", "{ v }", "\u20ac{v}"])
            o = ["--mapping-src", src, "--mapping-dest", dst, "--mapping-var", rng.choice(["v=\u00e9\U0001f980", "v=", "v=a=b\u20ac", "\u00e9=1"])]
            r = a(ctx, "mapping %r -> %r" % (src, dst), *o, p)
            if r.rc == 0:
                ctx.tick("mapped outputs decoded")
                try:
                    r.out.decode("utf-8")
                except UnicodeDecodeError as e:
                    ctx.write("bad.sym", r.out)
                    ctx.violation("mapping %r -> %r prints ill-formed UTF-8: %s" % (src, dst, e))
            ctx.seen("utf8", src, dst, r.rc)
    elif kind == "vg":
        k, name, data = module(ctx, rng)
        if rng.random() < 0.5:
            data, reg, mut = mutate.damage(data, rng)
        else:
            reg = "valid"
        p = ctx.write("g/" + name, data)
        if rng.random() < (0.5 if ctx.tier == "quick" else 1.0):
            ctx.evals += 1
            r = run(["valgrind", "--quiet", "--error-exitcode=99", "--leak-check=no", "--undef-value-errors=yes", "--main-stacksize=16777216", ctx.bins["plain"]] + opts(rng) + [p], watchdog=300.0, cpu_limit=250.0, settle=20.0)
            judge(ctx, r, "valgrind", "%s %s" % (k, reg))
            if "Invalid read" in r.err or "Invalid write" in r.err or "uninitialised" in r.err:
                ctx.violation("valgrind: %s %s: %s" % (k, reg, r.err[:900]))
            ctx.seen("vg", k, reg, r.rc)
    if case["i"] < 4:
        ctx.sample = {"case": case, "observed": dict(ctx.counts)}
