"""C27: the library dumps what the program dumps, call after call."""
import json
import os

from vlib import batch, cab, gen, httpd, macho, pe, work
from vlib.common import Inconclusive, run

RULE = ("one case = a plan of 4-24 calls of the library's single_file and several_files (files of every container, pairs to merge, batches, fat files, cabinets, executables whose PDB lies beside them or on a "
        "symbol server, missing and unreadable files, modules without unwind data under check_cfi) with random settings, executed by one process of a small embedding program in 1-8 threads, twice in different order; "
        "per call the returned value, the output file, store, standard output or standard error are compared with a run of the command line with the same settings. distinct = distinct (kind of input, output, settings, threads, result) classes")
ASSUMPTIONS = ["an Err and a panic of a call both correspond to a non-zero exit of the program", "the process-wide EXTRA_INFO is set at most once, before the first call", "calls that run at the same time write to different places, except standard output and standard error"]
TECHNIQUE = "differential monitoring of an embedding program against the command line, with concurrent calls and perturbed order"
LEVEL = "exploration"
LEVEL_NOTE = "sampled plans; thread schedules are those of the machine"
MIN_DISTINCT = 60
QUICK_S, THOROUGH_S = 60, 840
NEEDS = ["plain", "embed"]


def cases(ctx):
    n = 110 if ctx.tier == "quick" else 2600
    return [{"i": i} for i in range(n)]


class Inputs:
    """The pool of inputs of one case: [(kind, files, settings)]"""

    def __init__(self, ctx):
        self.ctx, rng = ctx, ctx.rng
        self.pool = []
        self.server = None
        for k in range(rng.randrange(3, 7)):
            d = ctx.path("in%d" % k, "x")[:-2]
            kind = rng.choice(["elf", "elf", "macho", "pdb64", "pdb32", "mingw", "exe", "pair", "batch", "twins", "fat", "cab", "missing", "junk", "cut", "nocfi", "clash", "dir", "remote", "remote", "badmap", "badarch", "big"])
            fs, st = getattr(self, "k_" + kind, self.k_work)(d, kind)
            self.pool.append((kind, fs, st))

    def w(self, d, n, b):
        return work.Work._w(d, n, b)

    def k_work(self, d, kind):
        return [work.Work(self.ctx, kind, self.ctx.rng.choice(["plain", "nested", "dense", "shuffled"]), dir=d).path], {}

    def k_big(self, d, kind):
        # larger than any buffer
        return [self.w(d, "big.so", gen.Mod(self.ctx.rng, cus=6, funcs=60, rows=40, inl_depth=4).full())], {"loud": True}

    def k_exe(self, d, kind):
        return [work.Work(self.ctx, "pdb64", "plain", dir=d).exe], {}

    def k_pair(self, d, kind):
        m = gen.Mod(self.ctx.rng, soname=b"lib p.so")
        fs = [self.w(d, "a.so", m.stripped()), self.w(d, "a.debug", m.debug_only())]
        self.ctx.rng.shuffle(fs)
        return fs, {}

    def k_twins(self, d, kind):
        fs = [self.w(d, "t%d.so" % i, b) for i, b in enumerate(batch.twins(self.ctx.rng, b"twin.so"))]
        if self.ctx.rng.random() < 0.5:
            # one by one
            self.pool.append((kind, fs[1:], {}))
            return fs[:1], {}
        return fs, {"many": True}

    def k_batch(self, d, kind):
        rng = self.ctx.rng
        return [self.w(d, "b%d.so" % k, gen.Mod(rng, soname=b"b%d.so" % k).full()) for k in range(rng.randrange(2, 6))], {"many": True}

    def k_fat(self, d, kind):
        rng = self.ctx.rng
        sl = [(c, macho.MachO(macho.adapt(gen.Mod(rng, cus=1, **macho.opts())), cpu=c).build()) for c in ("x86_64", "arm64")]
        return [self.w(d, "f.dylib", macho.fat(sl))], {"arch": rng.choice([None, "x86_64", "arm64", "arm"])}

    def k_cab(self, d, kind):
        rng = self.ctx.rng
        m = pe.Pe(gen.Mod(rng, **pe.opts()), guid=bytes(range(16)), pdb_path=b"C:\\x\\c.pdb").build()
        return [self.w(d, "c.dl_", cab.build([[("c.dll", m)]], mszip=rng.random() < 0.5))], {}

    def k_missing(self, d, kind):
        return [d + "/none.so"], {}

    def k_junk(self, d, kind):
        return [self.w(d, "j.so", b"\x7fELF" + bytes(40))], {}

    def k_cut(self, d, kind):
        b = gen.Mod(self.ctx.rng).full()
        return [self.w(d, "k.so", b[:self.ctx.rng.choice([10, 60])])], {}

    def k_dir(self, d, kind):
        return [d], {}

    def k_nocfi(self, d, kind):
        return [self.w(d, "n.so", gen.Mod(self.ctx.rng, fdes=False).full())], {"check_cfi": self.ctx.rng.random() < 0.7}

    def k_clash(self, d, kind):
        # one of several cannot be read
        rng = self.ctx.rng
        fs = [self.w(d, "b%d.so" % k, gen.Mod(rng, soname=b"b%d.so" % k).full()) for k in range(rng.randrange(1, 4))]
        fs.insert(rng.randrange(len(fs) + 1), rng.choice([d + "/none.so", self.w(d, "j.so", b"junk")]))
        return fs, {"many": True}

    def k_badmap(self, d, kind):
        return [self.w(d, "m.so", gen.Mod(self.ctx.rng).full())], self.ctx.rng.choice([{"src": ["(x"], "dest": ["y"]}, {"src": ["a", "b"], "dest": ["y"]}, {"map": d + "/none.json"}])

    def k_badarch(self, d, kind):
        return [self.w(d, "m.so", gen.Mod(self.ctx.rng).full())], {"arch": "nonsense"}

    def k_remote(self, d, kind):
        from checks import c18
        s = c18.Setup(self.ctx, tag=os.path.basename(d))
        if self.server is None:
            self.server = httpd.Server().__enter__()
        self.server.add(s.urls()[0], s.pdb)
        e = self.w(d, os.path.basename(s.exe), open(s.exe, "rb").read())
        return [e], {"remote": self.server.url}


def settings(rng, kind, st):
    s = dict(inlines=rng.random() < 0.5, check_cfi=rng.random() < 0.15, jobs=rng.choice([1, 1, 2, 4, 8, 0]))
    s.update(st)
    if kind not in ("badmap",) and rng.random() < 0.3:
        k = rng.randrange(3)
        s.update(src=["^/nonexist/(.*)$", "(.*)"], dest=["{v}:{1}" + "/y" * k, "x"], var=["v=%d" % rng.randrange(3)])
    if kind == "remote" and rng.random() < 0.3:
        del s["remote"]                        # nothing must be known from the other calls
    if rng.random() < 0.1 and kind not in ("badmap", "badarch", "fat", "remote"):
        s = dict(inlines=True, check_cfi=True, jobs=1, defaults=True, **{k: st[k] for k in ("many",) if k in st})
    return s


def argv(s, files, cache):
    a = []
    if s.get("inlines"):
        a.append("--inlines")
    if s.get("check_cfi"):
        a.append("--check-cfi")
    a += ["-j", str(s["jobs"])]
    if s.get("arch"):
        a += ["--arch", s["arch"]]
    for k, o in (("src", "--mapping-src"), ("dest", "--mapping-dest"), ("var", "--mapping-var")):
        for v in s.get(k, ()):
            a += [o, v]
    if s.get("map"):
        a += ["--mapping-file", s["map"]]
    if s.get("remote"):
        a += ["--symbol-server", "SRV*%s*%s" % (cache, s["remote"])]
    return a + files


def run_case(ctx, case):
    rng = ctx.rng
    inp = Inputs(ctx)
    try:
        plan(ctx, case, inp)
    finally:
        if inp.server:
            inp.server.__exit__()


def plan(ctx, case, inp):
    rng = ctx.rng
    info = rng.choice([None, None, [], ["A first", "B second "]])
    calls, want = [], []
    home = ctx.path("home", "x")[:-2]
    env = {"HOME": home}
    for i in range(rng.randrange(4, 13)):
        if i >= 3 and rng.random() < 0.3:
            kind, files, s = rng.choice(calls)[:3]           # the same again
            s = {k: v for k, v in s.items()}
        else:
            kind, files, st = rng.choice(inp.pool)
            s = settings(rng, kind, st)
        out = rng.choice(["stdout", "stderr", "file"]) if s.get("loud") else "badfile" if rng.random() < 0.04 and not s.get("many") else "badstore" if rng.random() < 0.03 else "store" if s.get("many") and rng.random() < 0.7 else rng.choice(["store", "stdout", "stderr"] if s.get("many") else ["file", "file", "barefile", "store", "both", "stdout", "stderr", "dash"])
        calls.append((kind, files, s, out))
        ref = ctx.path("ref", "%d" % i, "x")[:-2]
        o = ["--no-generator"]
        for v in info or []:
            o += ["--extra-info", v]
        bad = ctx.write("bad", b"")
        o += {"badfile": ["-o", bad + "/o"], "badstore": ["--store", bad], "store": ["--store", ref + "/st"], "file": ["-o", ref + "/o"], "barefile": ["-o", ref + "/o"], "both": ["-o", ref + "/o", "--store", ref + "/st"]}.get(out, [])
        r = ctx.dump(*o, *argv(s, files, ref + "/cache"), env=env, cwd=home)
        if r.hang:
            raise Inconclusive("the command line: " + r.describe())
        want.append((r.rc == 0, batch.tree(ref + "/st") if "st" in os.listdir(ref) else {}, open(ref + "/o", "rb").read() if os.path.exists(ref + "/o") else None, r.out, r.describe()))
    for k, c in enumerate(list(calls)):
        if c[2].get("loud") and len(calls) < 20:
            for _ in range(3):
                calls.append(c)
                want.append(want[k])
    order = list(range(len(calls)))

    def place(i):
        # a path need not be UTF-8
        return "%d\udcff" % i if i % 6 == 5 else "%d" % i
    for turn, threads in enumerate((1, rng.choice([2, 4, 8]))):
        rng.shuffle(order)
        p = {"threads": threads, "info": info, "calls": []}
        for i in order:
            kind, files, s, out = calls[i]
            t = ctx.path("t%d" % turn, place(i), "x")[:-2]
            c = dict(s, files=files, several=len(files) == 1 and rng.random() < 0.2 and not s.get("defaults"))
            c["out"] = {"badfile": {"file": bad + "/o"}, "badstore": {"store": bad}, "store": {"store": t + "/st"}, "file": {"file": t + "/o"}, "barefile": {"file": t + "/o", "bare": True}, "both": {"file": t + "/o", "store": t + "/st"},
                        "stdout": {"file": "<stdout>"}, "dash": {"file": "-"}, "stderr": {"file": "<stderr>"}}[out]
            c["out"] = {k: v.replace("\udcff", "%FF") if isinstance(v, str) else v for k, v in c["out"].items()}
            if s.get("remote"):
                c["server"] = "SRV*%s*%s" % (ctx.path("cache%d" % turn), s["remote"])
            p["calls"].append(c)
        pf, lf = ctx.path("plan%d.json" % turn), ctx.path("log%d" % turn)
        with open(pf, "w") as f:
            json.dump(p, f, indent=1)
        ctx.evals += 1
        r = run([ctx.bins["embed"], pf, lf], env=env, cwd=home)
        if r.hang == "slow":
            raise Inconclusive("watchdog: " + r.describe())
        if r.hang or r.rc != 0:
            ctx.violation("%d calls in %d threads: the embedding program ends with %s/%s: %s" % (len(calls), threads, r.rc, r.hang, r.describe()))
            return
        res = {}
        with open(lf) as f:
            for l in f:
                l = json.loads(l)
                res[order[l["call"]]] = l["result"]
        exp = {"out": [], "err": []}
        for i in order:
            kind, files, s, out = calls[i]
            ok, st, of, so, desc = want[i]
            what = "call of %s (%s, output %s, %d threads, settings %s)" % (kind, [os.path.basename(f) for f in files], out, threads, {k: v for k, v in s.items() if v})
            got = res.get(i)
            ctx.tick("calls")
            ctx.tick("calls " + ("returning Ok" if got == "ok" else "returning Err" if isinstance(got, dict) else "panicking"))
            if got is None:
                ctx.violation("%s: no answer" % what)
                continue
            if (got == "ok") != ok:
                ctx.violation("%s: the library says %r, the program: %s" % (what, got, desc))
                continue
            t = ctx.path("t%d" % turn, place(i), "x")[:-2]
            if ok or not s.get("many"):           # what a failing batch leaves behind is not determined
                ts = batch.tree(t + "/st") if os.path.isdir(t + "/st") else {}
                if ts != st:
                    ctx.violation("%s: the store differs from the one of the program: %r, %r" % (what, sorted(ts), sorted(st)))
            tf = open(t + "/o", "rb").read() if os.path.exists(t + "/o") else None
            if tf != of:
                ctx.violation("%s: the output file differs from the one of the program" % what)
            if out in ("stdout", "dash", "stderr") and ok:
                exp["err" if out == "stderr" else "out"] += batch.blocks(so) or []
            if not ok and s.get("many") and out in ("stdout", "dash", "stderr"):
                exp["loose"] = True
            ctx.seen(kind, out, threads > 1, s.get("inlines"), s.get("check_cfi"), bool(s.get("src")), "ok" if got == "ok" else "err")
        if not exp.pop("loose", False):
            for where, b in (("out", r.out), ("err", r.err.encode())):
                bl = batch.blocks(b) if b else []
                if bl is None or sorted(bl) != sorted(exp[where]):
                    ctx.violation("standard %s of %d calls in %d threads is not one block of the program's bytes per module (%s blocks, expected %d)" % (
                        {"out": "output", "err": "error"}[where], len(calls), threads, None if bl is None else len(bl), len(exp[where])))
                ctx.tick("blocks compared", len(exp[where]))
        if ctx.violations:
            return
    if case["i"] < 3:
        ctx.sample = {"case": case, "calls": [(k, o) for k, _, _, o in calls], "threads": threads, "results": {str(k): (v if isinstance(v, str) else "err") for k, v in res.items()}}
