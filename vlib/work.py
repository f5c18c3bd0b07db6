"""One generated module with ground truth, in any of the containers dump_syms reads."""
import os

from . import gen, macho, pe, win

CONTAINERS = ["elf", "elf", "elf", "elf32", "elfbe", "elfbe32", "macho", "dsymfile", "mingw", "pdb64", "pdb32"]
SHAPES = {
    "plain": {},
    "zero": dict(zero_lines=True),
    "nested": dict(inl_depth=6, inl_prob=1.0),
    "dense": dict(cus=4, funcs=8, zero_lines=True, adjacent=0.9),
    "split": dict(multi_range=0.8),
    "long": dict(line_base=70000, funcs=6),
    "unrolled": dict(cus=1, funcs=6, inl_prob=1.0, inl_depth=2, adjacent=0.9),
    "dups": dict(dup_funcs=0.5),
    "suffix": dict(suffix=0.7),
    "deep": dict(deep=30, inl_prob=1.0),
    "shuffled": dict(shuffle=True, inl_prob=0.9, multi_range=0.3, nabs=2, nfiles=2, lines=4),
    "big": dict(big=0x28000, text=0xa0000, rows=60, funcs=5, cus=2),
    "manyfiles": dict(nfiles=320, rows=40, cus=1, funcs=14),
    "manyorigins": dict(nabs=300, cus=1, funcs=20, inl_prob=1.0),
    "manyfuncs": dict(cus=2, funcs=400, text=0x20000, inl_prob=0.2),
    "manycus": dict(cus=60, funcs=2),
    "longnames": dict(long_names=24, suffix=0.2, publics=6),
    "longdirs": dict(long_dirs=True, nfiles=8, cus=3),
    "icf": dict(dup_funcs=0.7, icf=4, adjacent=0.1),
    "fewlines": dict(lines=3, rlines=3, nfiles=2, nabs=2, rows=16, inl_prob=0.9, funcs=8),
    "far": dict(gap=0xd6543000),
    "sign": dict(gap=0x7fffdf60, funcs=9),
    "abyss": dict(deep=320, inl_prob=1.0, funcs=4, cus=1),
    "hugelines": dict(lines=1 << 31, rlines=1 << 31),
    "vastnames": dict(long_names=400, suffix=0.2, publics=6, funcs=3),
    "manysections": dict(extra_exec=90),
    "huge": dict(big=0x2000000, text=0x2800000, rows=60, cus=1, funcs=3, inl_prob=1.0),
    "files64k": dict(nfiles=66000, text=0x18000, rows=40, cus=1, funcs=3),
    "manysyms": dict(publics=14, symtab=0.9, dyn=5),
}
PDB = ("pdb64", "pdb32")


EXTREME = ["deep", "shuffled", "big", "manyfiles", "manyorigins", "manyfuncs", "manycus", "longnames", "longdirs", "icf", "far", "sign", "abyss", "hugelines", "vastnames", "manysections", "fewlines", "fewlines"]
# large files: few of them
RARE = ["huge", "files64k"]
COMMON = [s for s in SHAPES if s not in RARE]


class Work:
    """path: the file to dump; m: ground truth; place: section placeholders are expected."""

    def __init__(self, ctx, container, shape="plain", name="m", dir=None, **o):
        self.container, self.ctx = container, ctx
        d = dir or ctx.work
        os.makedirs(d, exist_ok=True)
        opt = dict(SHAPES[shape])
        opt.update(o)
        rng = ctx.rng
        c = container
        self.place = True
        self.exe = None
        self.pubs = True          # symbol-table ground truth applies
        if c.startswith("elf"):
            opt.update({"elf": {}, "elf32": dict(bits=32, machine="x86"), "elfbe": dict(little=False, machine="ppc64"),
                        "elfbe32": dict(bits=32, little=False, machine="ppc")}[c])
            self.m = m = gen.Mod(rng, **opt)
            self.path = self._w(d, name + ".so", m.full())
        elif c in ("macho", "dsymfile"):
            opt.update(macho.opts())
            opt["gap"] = 0
            opt.update(dyn=0)
            self.m = m = macho.adapt(gen.Mod(rng, **opt))
            self.uuid = bytes(rng.randrange(256) for _ in range(16))
            self.path = self._w(d, name + (".dylib" if c == "macho" else ".dwarf"),
                                macho.MachO(m, cpu=rng.choice(["x86_64", "arm64"]), filetype=6 if c == "macho" else 10, uuid=self.uuid).build())
            self.place = False
        elif c == "mingw":
            opt.update(pe.opts())
            opt["gap"] = 0
            opt.update(dyn=0)
            self.m = m = gen.Mod(rng, **opt)
            m.path = pe.win_path
            self.guid = bytes(rng.randrange(256) for _ in range(16))
            self.pe = pe.Pe(m, pdb_path=("C:\\obj\\%s.pdb" % name).encode(), guid=self.guid, exports=[(b"last_export", 0x2000 + m.o["text"] - 0x100)])
            self.path = self._w(d, name + ".dll", self.pe.build())
            self.place, self.pubs = False, False
        elif c in PDB:
            opt.update(langs=("c",), pie=True, multi_range=0, publics=0, extra_exec=0, text=max(0x1000, opt.get("text", 0)), dyn=0, gap=0, version=4, dup_funcs=0, suffix=0)
            if opt.get("lines", 0) > 1 << 20:
                opt.update(lines=1 << 20, rlines=1 << 20)          # 24 bits, some values of which have a meaning
            opt["long_names"] = min(24, opt.get("long_names", 0))
            if opt.get("cus", 0) and opt["cus"] > 2:
                opt["cus"] = 2
            self.m = m = gen.Mod(rng, **opt)
            self.w = win.WinMod(m, arch="x64" if c == "pdb64" else "x86", fpo=rng.random() < 0.7)
            self.exe, self.path = self.w.build(d, name)
            self.place, self.pubs = False, False
        else:
            raise ValueError(c)

    @staticmethod
    def _w(d, n, b):
        p = os.path.join(d, n)
        with open(p, "wb") as f:
            f.write(b)
        return p

    def sig(self):
        return "%s v%s" % (self.container, sorted({c.version for c in self.m.cus}))
