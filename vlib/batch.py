"""Batches of inputs belonging to several modules, their references, and runs under perturbed schedules."""
import os
import random

from . import build, cab, gen, macho, msf, work

MODES = ["site", "stall", "site", "yield", "stall", "off"]


def tiny(rng, k, cfi=True):
    """A small module: quick to parse."""
    return gen.Mod(rng, cus=0 if rng.random() < 0.5 else 1, funcs=2, debug=rng.random() < 0.5, publics=3, extra_exec=0, fdes=cfi, soname=("t%d.so" % k).encode(),
                   text=0x1000, compress=False)


def twins(rng, soname, cfi=True, n=2):
    """Modules which share names of functions, of inlined functions and of source files, in units of other languages or compiled elsewhere."""
    m = gen.Mod(rng, soname=soname, cus=rng.choice([1, 2, 3]), langs=("cpp", "cpp", "rust"), inl_prob=0.6, fdes=cfi, version=4)
    out = [m.full()]
    for i in range(1, n):
        m.kw["build_id"] = rng.randbytes(20)
        for cu in m.cus:
            cu.lang = rng.choice(["c", "cpp", "c"])
            if rng.random() < 0.5:
                cu.comp_dir = b"/nonexist/other%d" % i
        out.append(m.full())
    rng.shuffle(out)
    return out


class Batch:
    """mods: [dict(name, files=[path, ...])], files: all paths in command-line order."""

    def __init__(self, ctx, shape, nmods=None, cfi=True):
        rng = self.rng = ctx.rng
        self.ctx, self.shape = ctx, shape
        self.mods, self.files = [], []
        n = nmods or {"one": 1, "few": rng.choice([2, 3, 4]), "pairs": rng.choice([1, 2, 3]), "many": rng.choice([6, 12]), "large": rng.choice([3, 5, 9]), "wide": rng.choice([40, 90, 150])}[shape]
        for k in range(n):
            d = ctx.path("in", str(k), "x")[:-2]
            os.makedirs(d, exist_ok=True)
            kind = "elf" if shape == "wide" else rng.choice(["elf", "elf", "pair", "pair", "triple", "macho", "dup", "pdb", "samename", "ages", "dsym", "cab", "big", "big", "twins"])
            if shape == "large":
                kind = "big"
            if shape == "pairs":
                kind = rng.choice(["pair", "triple", "pdbpe"])
            if shape == "one":
                kind = rng.choice(["pair", "triple", "dup"])
            files = []

            def put(name, data):
                p = os.path.join(d, name)
                with open(p, "wb") as f:
                    f.write(data)
                files.append(p)
            if kind == "twins":
                # two modules with the same texts in them that mean something else
                for i, data in enumerate(twins(rng, b"tw%d.so" % k, cfi)):
                    sub = os.path.join(d, str(i))
                    os.makedirs(sub)
                    p = os.path.join(sub, "tw%d.so" % k)
                    with open(p, "wb") as f:
                        f.write(data)
                    self.mods.append(dict(kind=kind, files=[p], k="%d_%d" % (k, i)))
                    self.files.append(p)
                continue
            if kind == "ages":
                # two modules that differ in nothing but the age of their id
                w = work.Work(ctx, "pdb64", "plain", name="a%d" % k, dir=os.path.join(d, "w"))
                with open(w.path, "rb") as f:
                    pdb = f.read()
                for a in rng.sample([1, 2, 3, 10, 16, 255], 2):
                    sub = os.path.join(d, str(a))
                    os.makedirs(sub)
                    p = os.path.join(sub, "a%d.pdb" % k)
                    with open(p, "wb") as f:
                        f.write(msf.with_id(pdb, age=a))
                    self.mods.append(dict(kind=kind, files=[p], k="%d_%d" % (k, a)))
                    self.files.append(p)
                continue
            if kind in ("pdb", "pdbpe"):
                w = work.Work(ctx, "pdb64", "plain", name="w%d" % k, dir=d)
                if kind == "pdb":
                    files = [w.path]
                else:
                    d2 = os.path.join(d, "exe")
                    os.makedirs(d2)
                    e2 = os.path.join(d2, os.path.basename(w.exe))
                    os.rename(w.exe, e2)
                    files = [w.path, e2]
            elif kind == "macho":
                m = macho.adapt(gen.Mod(rng, cus=1, **macho.opts()))
                put("l%d.dylib" % k, macho.MachO(m, uuid=bytes(rng.randrange(256) for _ in range(16))).build())
            elif kind == "big":
                # more than fits in one buffer
                m = gen.Mod(rng, soname=b"b%d.so" % k, cus=rng.choice([2, 4]), funcs=rng.choice([40, 150]), text=0x18000, inl_prob=0.3, fdes=cfi)
                put("b%d.so" % k, m.full())
            elif kind == "dsym":
                m = macho.adapt(gen.Mod(rng, cus=1, **macho.opts()))
                q = os.path.join(d, "D%d.dSYM" % k, "Contents", "Resources", "DWARF")
                os.makedirs(q)
                with open(os.path.join(q, "D%d" % k), "wb") as f:
                    f.write(macho.MachO(m, filetype=10, uuid=bytes(rng.randrange(256) for _ in range(16))).build())
                files.append(os.path.join(d, "D%d.dSYM" % k))
            elif kind == "cab":
                put("c%d.pd_" % k, cab.build([[("c%d.pdb" % k, gen.Mod(rng, cus=1, fdes=cfi).full())]]))
            elif kind in ("elf", "samename", "dup"):
                m = tiny(rng, 0 if kind == "samename" else k, cfi) if shape == "wide" or rng.random() < 0.5 else gen.Mod(rng, soname=b"same.so" if kind == "samename" else b"e%d.so" % k, fdes=cfi)
                put("e%d.so" % k, m.full())
                if kind == "dup":
                    files.append(files[0])
                    if rng.random() < 0.5:
                        put("copy.so", m.full())
            else:
                m = gen.Mod(rng, soname=b"p%d.so" % k, dyn=3, publics=6, fdes=cfi)
                put("p%d.so" % k, m.stripped())
                put("p%d.debug" % k, m.debug_only())
                if kind == "triple":
                    put("p%d.full" % k, m.full())
            self.mods.append(dict(kind=kind, files=list(dict.fromkeys(files)), k=k))
            self.files += files
        rng.shuffle(self.files)
        for m in self.mods:
            own = set(m["files"])
            m["order"] = [f for f in self.files if f in own]

    def reference(self, *opts):
        """Dumps each module alone, one job; fills m['path'] (relative store path) and m['text']."""
        for m in self.mods:
            st = self.ctx.path("ref%s" % m["k"])
            self.ctx.dump_ok(*opts, "-j", "1", "--store", st, *m["order"], what="a module alone")
            got = tree(st)
            if len(got) != 1:
                from .common import Violation
                raise Violation("the files %r of one module give %d symbol files: %r" % (m["order"], len(got), sorted(got)))
            (m["path"], m["text"]), = got.items()
        self.expect = {m["path"]: m["text"] for m in self.mods}


def tree(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def perturbed(ctx, mode, seed, *args, **kw):
    """One run of the instrumented build under a seeded schedule; returns (run, stats)."""
    with open(os.path.join(build.BUILD, "sched.focus")) as f:
        focus = f.read()
    so = ctx.path("sched-%s-%d" % (mode, seed))
    env = dict(kw.pop("env", {}), SCHED_MODE=mode, SCHED_SEED=str(seed), SCHED_OUT=so, SCHED_FOCUS=focus)
    r = ctx.dump(*args, binary=ctx.bins["sched"], env=env, **kw)
    st = None
    try:
        with open(so) as f:
            x = f.read().split()
        os.unlink(so)
        st = dict(ops=int(x[0]), sites=int(x[1]), delays=int(x[2]), threads=int(x[3]), switches=int(x[4]), hash=x[5])
        ctx.tick("atomic operations observed", st["ops"])
        ctx.tick("of these in the coordination code", int(x[6]))
        ctx.tick("delays injected", st["delays"])
        ctx.tick("thread switches observed", st["switches"])
        ctx.seen("interleaving", st["hash"])
    except (OSError, IndexError, ValueError):
        pass
    return r, st


def blocks(out):
    """Splits what several modules print to one stream into blocks starting at MODULE."""
    res, cur = [], None
    for l in out.split(b"\n"):
        if l.startswith(b"MODULE "):
            cur = []
            res.append(cur)
        if cur is None:
            return None
        cur.append(l)
    if not res:
        return []
    if res[-1] and res[-1][-1] == b"":
        res[-1].pop()
    return [b"\n".join(b) + b"\n" for b in res]
