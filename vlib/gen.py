"""Random modules with ground truth, built on elf.py."""
from .elf import CU, Elf, Func, Inl, Sym, chain_at, dec, file_path, row_at

WORDS = ["alpha", "beta", "gamma", "delta", "omega", "init", "run", "loop", "Draw", "Parse", "net", "io", "gfx",
         "js", "wasm", "x", "operator_like", "thunk", "main2", "_start2", "Z9", "tick"]
ARGS = [("v", ""), ("i", "int"), ("j", "unsigned int"), ("c", "char"), ("d", "double"), ("Pi", "int*"),
        ("PKc", "char const*"), ("b", "bool"), ("Rd", "double&"), ("m", "unsigned long")]
SUFFIXES = [".cold", ".constprop.0", ".isra.0", ".part.3", ".llvm.1234567890", ".localalias", ".lto_priv.7",
            ".str.158.llvm.17864", ".cold.1", ".constprop.0.isra.0", " [clone .cold]",
            " [clone .constprop.0] [clone .isra.0]", ".part.0.cold"]


def _pad(rng, long):
    """Very long names have longer parts, not more of them. (The C++ demangler refuses results above 4096 bytes.)"""
    return "abcdefghij" * (rng.randrange(1, 9) * max(1, long // 24))


def cpp_name(rng, uniq, long=0):
    """(mangled, expected demangled text)"""
    ns = [rng.choice(WORDS) for _ in range(rng.randrange(0, 3))] + ["f%s" % uniq]
    if long:
        ns[:0] = ["N%d%s" % (k, _pad(rng, 24)) for k in range(min(long, 24))]
    args = [rng.choice(ARGS[1:]) for _ in range(rng.randrange(0, 4))]
    # substitutions would be needed for repeated compound types: keep those unique
    seen, use = set(), []
    for a in args:
        if len(a[0]) > 1:
            if a[0] in seen:
                continue
            seen.add(a[0])
            if any(len(x[0]) > 1 for x in use):
                continue
        use.append(a)
    m = "_Z" + ("N%sE" % "".join("%d%s" % (len(n), n) for n in ns) if len(ns) > 1 else "%d%s" % (len(ns[0]), ns[0]))
    m += "".join(a[0] for a in use) or "v"
    return m.encode(), "%s(%s)" % ("::".join(ns), ", ".join(a[1] for a in use))


def rust_name(rng, uniq, long=0):
    parts = [rng.choice(["core", "alloc", "serde", "crate1"]), rng.choice(["fmt", "vec", "de", "ptr"]), "f%s" % uniq]
    if long:
        parts[1:1] = ["m%d%s" % (k, _pad(rng, long)) for k in range(min(long, 24))]
    h = "17h%016x" % rng.getrandbits(64)
    return ("_ZN" + "".join("%d%s" % (len(p), p) for p in parts) + h + "E").encode(), "::".join(parts)


def c_name(rng, uniq, long=0):
    n = rng.choice(["fn_%s", "f%s", "_do_%s", "Fn%s_impl", "a.b%s", "$t%s", "_Zlooks%s", "__x_%s"]) % uniq
    if long:
        n += "".join("_%d%s" % (k, _pad(rng, long)) for k in range(min(long, 24)))
    return n.encode(), n


def points(fn, lo, hi):
    """Every address of a small function; of a large one the addresses around which anything can change."""
    if hi - lo <= 400:
        return range(lo, hi)
    edges = {lo, hi} | {r[0] for r in fn.rows}
    if len(edges) > 9000:
        # the first, the last and evenly spread ones
        edges = set(sorted(edges)[:200] + sorted(edges)[-200:] + sorted(edges)[::97])

    def walk(inls):
        for i in inls:
            for a, b in i.ranges:
                edges.update((a, b))
            walk(i.children)
    walk(fn.inlines)
    pts = {p + d for p in edges for d in (-1, 0, 1)} | set(range(lo, hi, max(1, (hi - lo) // 97)))
    return sorted(p for p in pts if lo <= p < hi)


class Mod:
    """Options (all optional): see defaults in __init__."""

    def __init__(self, rng, **o):
        d = dict(cus=None, funcs=None, version=None, langs=("c", "cpp", "rust"), bits=64, little=True,
                 machine="x86_64", pie=None, inl_depth=3, inl_prob=0.6, zero_lines=False, multi_range=0.15,
                 dup_funcs=0.0, suffix=0.0, symtab=0.7, publics=4, dyn=0, soname=None, build_id="auto",
                 fdes=True, one_seq=None, compress=None, files=None, shared_files=None, name_prefix="",
                 text=0x4000, extra_exec=None, names=None, file_namer=None, share_dirs=True, symtab_for=None,
                 adjacent=0.4, origin_pool=None, debug=True, line_base=0, etype=None, interp=None, base=None, dead=(), dynfuncs=0.0,
                 lines=500, rlines=400, deep=0, shuffle=False, big=0, nfiles=None, nabs=None, rows=9, icf=1, long_names=0, long_dirs=False, gap=0, dyninner=0, dead2=0)
        d.update(o)
        self.o, self.rng = d, rng
        self._uniq = 0
        self.path = file_path      # (cu, file index) -> expected FILE text
        self._build()

    def uniq(self):
        self._uniq += 1
        return "%s%d" % (self.o["name_prefix"], self._uniq)

    # ------------------------------------------------------------ construction
    def _inlines(self, cu_abs, nfiles, lo, hi, depth, line0):
        """Random well-nested inlined calls inside [lo, hi)."""
        rng, out = self.rng, []
        if depth <= 0 or hi - lo < 4:
            return out
        # cut points
        n = rng.randrange(0, 4)
        pts = sorted({rng.randrange(lo, hi + 1) for _ in range(2 * n)} | ({lo} if rng.random() < 0.3 else set())
                     | ({hi} if rng.random() < 0.3 else set()))
        segs = []
        i = 0
        while i + 1 < len(pts):
            a, b = pts[i], pts[i + 1]
            if b > a:
                segs.append((a, b))
            i += 1 if rng.random() < self.o["adjacent"] else 2
        k = 0
        while k < len(segs):
            # sometimes one call site owns several disjoint ranges
            take = 1 if rng.random() < 0.75 else min(len(segs) - k, 2)
            rs = segs[k:k + take]
            k += take
            inl = Inl(rng.randrange(len(cu_abs)), rs, rng.randrange(nfiles), rng.randrange(1, self.o["lines"]))
            for a, b in rs:
                inl.children += self._inlines(cu_abs, nfiles, a, b, depth - 1, line0)
            out.append(inl)
        # repeated identical call sites (loop unrolling)
        if len(out) > 1 and rng.random() < 0.3:
            out[1].origin, out[1].call_file, out[1].call_line = out[0].origin, out[0].call_file, out[0].call_line
        return out

    def _deep(self, cu_abs, nfiles, lo, hi, depth):
        """One chain of nested calls, each inside the previous one."""
        rng = self.rng
        if depth <= 0 or hi <= lo:
            return []
        i = Inl(rng.randrange(len(cu_abs)), [(lo, hi)], rng.randrange(nfiles), rng.randrange(1, self.o["lines"]))
        a, b = lo, hi
        if b - a > 2:
            a += rng.randrange(2)
            b -= rng.randrange(2)
        i.children = self._deep(cu_abs, nfiles, a, b, depth - 1)
        return [i]

    def _shuffle(self, inls):
        """Debug information lists calls and ranges in no particular order."""
        self.rng.shuffle(inls)
        for i in inls:
            self.rng.shuffle(i.ranges)
            self._shuffle(i.children)

    def _rows(self, lo, hi, nfiles, zero):
        rng = self.rng
        n = max(1, min(hi - lo, rng.randrange(1, self.o["rows"])))
        pts = sorted({lo} | {rng.randrange(lo, hi) for _ in range(n - 1)})
        rows, f, l = [], rng.randrange(nfiles), rng.randrange(1, self.o["rlines"])
        if nfiles > 99 and hi - lo >= nfiles:
            return [(lo + k, k, l + k % 7) for k in range(nfiles)]
        for p in pts:
            if nfiles > 256 and rng.random() < 0.5:
                # far apart in the file table, same line
                f += 256 if f + 256 < nfiles else -256 if f >= 256 else 0
                rows.append((p, f, l + self.o["line_base"]))
                continue
            if rng.random() < 0.35:
                f = rng.randrange(nfiles)
            if rng.random() < 0.75:
                l = rng.randrange(1, self.o["rlines"])
            rows.append((p, f, 0 if zero and rng.random() < 0.2 else l + self.o["line_base"]))
        return rows

    def _build(self):
        o, rng = self.o, self.rng
        pie = rng.random() < 0.7 if o["pie"] is None else o["pie"]
        base = 0 if pie else 0x400000
        if o["base"] is not None:
            base = o["base"]
        text_addr = base + 0x2000 + o["gap"]
        # executable sections
        execs = [(".text", text_addr, o["text"])]
        a = text_addr + o["text"]
        n_extra = rng.randrange(0, 3) if o["extra_exec"] is None else o["extra_exec"]
        for k in range(n_extra):
            a += rng.choice([0, 0x10, 0x100])
            size = 0 if n_extra > 2 and k < n_extra - 1 and rng.random() < 0.2 else 0x80
            execs.append((rng.choice([".plt", ".init", ".fini", ".text.hot", ".plt.sec"]) + (str(k) if k else ""), a, size))
            a += size
        cursor = text_addr + rng.choice([0, 0x10, 0x40])
        cus, syms = [], []
        self.decl = []        # (Func, cu, lo, hi) in debug-info order
        ncu = o["cus"] if o["cus"] is not None else rng.randrange(1, 4)
        limit = text_addr + o["text"] - 0x400
        if not o["debug"]:
            ncu = 0
        prev = None
        for c in range(ncu):
            lang = rng.choice(o["langs"])
            version = o["version"] or rng.choice([4, 5])
            dirs = [rng.choice([b"src", b"inc/sub", b"../up", b"/abs/include", b"./dot", b"/x/y/../z", b"a//b"]) for _ in range(rng.randrange(0, 4))]
            comp = rng.choice([b"/nonexist/build", b"/nonexist/b/obj-x", b"/nonexist/build/"])
            if o["long_dirs"]:
                comp = b"/nonexist/" + b"long-directory-name/" * rng.randrange(3, 14) + b"tail%d" % rng.randrange(3)
                dirs += [b"d" * rng.randrange(60, 300) + b"/%d" % k for k in range(3)]
            nfiles = o["nfiles"] or rng.randrange(1, 6)
            files = []
            for k in range(nfiles):
                if o["file_namer"]:
                    nm = o["file_namer"](rng, c, k)
                else:
                    nm = rng.choice([b"main.c", b"main.C", b"Util.h", b"util.h", b"a b.cpp", b"sub/x.rs", b"../o.inc", b"f%d.c" % k, b"g%d_%d.h" % (c, k)] + [b"h%d_%d.h" % (c, k)] * (20 if nfiles > 9 else 0))
                    if nfiles > 256 and c % 2 == 0:
                        nm = b"h%d_%d.h" % (c, k)
                files.append((rng.randrange(0, len(dirs) + 1), nm))
            if o["files"]:
                files = list(o["files"])
                nfiles = len(files)
            nabs = o["nabs"] or rng.randrange(1, 5)
            abstracts = []
            for k in range(nabs):
                u = self.uniq()
                mk = {"c": c_name, "cpp": cpp_name, "rust": rust_name}.get(lang, c_name)
                m, d = mk(rng, "i" + u, o["long_names"])
                if o["origin_pool"] and rng.random() < 0.5:
                    m = d = None
                    nm = rng.choice(o["origin_pool"])
                    abstracts.append(dict(name=nm, linkage=None, expect=dec(nm)))
                    continue
                sfx = rng.choice(SUFFIXES) if rng.random() < o["suffix"] else ""
                if lang == "c" or rng.random() < 0.3:
                    plain = ("inl_%s" % u) + "_long" * (o["long_names"] * 9)
                    abstracts.append(dict(name=(plain + sfx).encode(), linkage=None, expect=plain))
                else:
                    abstracts.append(dict(name=b"short", linkage=m + sfx.encode(), expect=d))
            cu = CU(comp_dir=comp, name=b"cu%d.c" % c, lang=lang, version=version, dirs=dirs, files=files,
                    abstracts=abstracts, one_seq=False)
            nf = o["funcs"] if o["funcs"] is not None else rng.randrange(1, 6)
            for _ in range(nf):
                if cursor >= limit:
                    break
                size = rng.choice([1, 2, 4, 8, 16, 40, 64, 120])
                if nfiles > 99 and not cu.funcs and cursor + nfiles < limit:
                    size = nfiles
                if nabs > 99 and not cu.funcs and cursor + 2 * nabs < limit:
                    size = 2 * nabs
                if o["big"] and rng.random() < 0.5 and cursor + o["big"] < limit:
                    size = rng.randrange(o["big"] // 2, o["big"])
                cursor += rng.choice([0, 0, 1, 3, 16])
                ranges = [(cursor, cursor + size)]
                cursor += size
                if rng.random() < o["multi_range"]:
                    cursor += rng.choice([0, 5, 32]) + 1
                    s2 = rng.choice([4, 16, 48])
                    ranges.append((cursor, cursor + s2))
                    cursor += s2
                    if rng.random() < 0.5:
                        ranges.reverse()
                rows, inl = [], []
                for lo, hi in ranges:
                    rows += self._rows(lo, hi, nfiles, o["zero_lines"])
                    if rng.random() < o["inl_prob"]:
                        if nabs > 99 and hi - lo == 2 * nabs:
                            # every one of the abstract functions is called
                            inl += [Inl(k, [(lo + 2 * k, lo + 2 * k + rng.choice([1, 2]))], rng.randrange(nfiles), rng.randrange(1, o["lines"])) for k in range(nabs)]
                        elif o["deep"] and rng.random() < 0.6:
                            inl += self._deep(abstracts, nfiles, lo, hi, rng.randrange(1, o["deep"]))
                        else:
                            inl += self._inlines(abstracts, nfiles, lo, hi, o["inl_depth"], 0)
                if o["shuffle"]:
                    self._shuffle(inl)
                u = self.uniq()
                mk = {"c": c_name, "cpp": cpp_name, "rust": rust_name}.get(lang, c_name)
                m, d = mk(rng, u, o["long_names"])
                sfx = rng.choice(SUFFIXES) if rng.random() < o["suffix"] else ""
                fn = Func(ranges, rows, inl, block=rng.random() < 0.2)
                fn.version = version
                in_sym = rng.random() < o["symtab"]
                if lang == "c":
                    fn.name = m + sfx.encode()
                    fn.expect = d
                else:
                    if rng.random() < 0.7:
                        fn.name, fn.linkage, fn.expect = b"short", m + sfx.encode(), d
                    elif in_sym:
                        fn.name, fn.expect = b"short", d
                    else:
                        fn.name, fn.expect = b"plain_%s" % u.encode(), "plain_" + u
                if in_sym:
                    sec = ".text"
                    # the symbol table names the entry point; other ranges get none
                    entry = min(r[0] for r in ranges)
                    e_hi = next(r[1] for r in ranges if r[0] == entry)
                    if fn.linkage is not None or lang == "c" or fn.name == b"short":
                        syms.append(Sym(m + sfx.encode(), entry, e_hi - entry, bind=rng.choice([0, 1, 2])))
                cu.funcs.append(fn)
                for lo, hi in fn.ranges:
                    self.decl.append((fn, cu, lo, hi))
                if rng.random() < o["dup_funcs"]:
                    # another function at the same address (identical code folding)
                    d2lo, d2hi = fn.ranges[0]
                    for c2 in range(rng.randrange(1, o["icf"] + 1)):
                        if not (d2hi - d2lo > 2 and len(fn.ranges) == 1):
                            break
                        cut = rng.choice([0, 1, 2][:3 if d2hi - d2lo > 4 else 2])
                        other = Func([(d2lo, d2hi - cut)], [r for r in rows if r[0] < d2hi - cut] or rows[:1], [],
                                     name=b"icf%d_" % c2 + u.encode())
                        other.expect = "icf%d_" % c2 + u
                        cu.funcs.append(other)
                        self.decl.append((other, cu) + other.ranges[0])
            for t in o["dead"]:
                # dead code left in the debug information by the linker, at a tombstone address
                u = self.uniq()
                # of a function in two pieces, both are there
                cu.funcs.append(Func([(t, t + 16)] + [(t, t + 8)] * (rng.random() < o["dead2"]), [(t, 0, 7)], [], name=b"dead_" + u.encode()))
            cus.append(cu)
        self.cus = cus
        # symbols without debug info
        self.pub = []
        cursor = max(cursor, text_addr) + 0x20
        for k in range(rng.randrange(0, o["publics"] + 1)):
            size = rng.choice([0, 0, 4, 12])
            if cursor + 40 > text_addr + o["text"]:
                break
            u = self.uniq()
            kind = rng.random()
            if kind < 0.5:
                m, d = (("pub_%s" % u).encode(), "pub_%s" % u)
            elif kind < 0.8:
                m, d = cpp_name(rng, u)
            else:
                m, d = rust_name(rng, u)
            s = Sym(m, cursor, size, bind=rng.choice([0, 1, 2]))
            s.expect = d
            s.dup = False
            syms.append(s)
            self.pub.append(s)
            if rng.random() < 0.2:
                s2 = Sym(b"alias_" + u.encode(), cursor, size, bind=s.bind)
                s2.expect = "alias_" + u
                syms.append(s2)
                s.dup = True
            cursor += max(size, 1) + rng.choice([0, 1, 7, 16])
        if len(execs) > 1 and rng.random() < 0.5 and o["publics"]:
            sec = rng.choice(execs[1:])
            u = self.uniq()
            s = Sym(("insec_%s" % u).encode(), sec[1] + rng.choice([0, 4]), 8, sec=sec[0])
            s.expect, s.dup = "insec_" + u, False
            syms.append(s)
            self.pub.append(s)
        # a data symbol and an undefined one: never in the output
        self.noise = []
        if rng.random() < 0.5:
            self.noise += [Sym(b"data_obj", text_addr + 4, 8, typ=1), Sym(b"undef_fn", 0, 0, sec=0), Sym(b"notype", text_addr + 6, 0, typ=0)]
        rng.shuffle(syms)
        dynsyms = []
        self.dynpub = []
        ndyn = o["dyn"] if isinstance(o["dyn"], int) else 0
        for k in range(ndyn):
            u = self.uniq()
            if cursor + 40 > text_addr + o["text"]:
                break
            s = Sym(("dyn_%s" % u).encode(), cursor, 4)
            s.expect, s.dup = "dyn_" + u, False
            dynsyms.append(s)
            self.pub.append(s)
            cursor += 16
        if o["dynfuncs"]:
            # exported functions are in both tables
            have = {(x.name, x.addr) for x in dynsyms}
            for x in syms:
                if x.bind != 0 and (x.name, x.addr) not in have and rng.random() < o["dynfuncs"]:
                    y = Sym(x.name, x.addr, x.size, bind=x.bind, sec=x.sec)
                    if hasattr(x, "expect"):
                        y.expect, y.dup = x.expect, x.dup if hasattr(x, "dup") else False
                    dynsyms.append(y)
        # exported labels inside functions
        for fn, cu, lo, hi in self.decl:
            if hi - lo > 2 and rng.random() < o["dyninner"]:
                y = Sym(b"label_%x" % lo, lo + 1 + rng.randrange(hi - lo - 1), 0)
                dynsyms.append(y)
        # the dynamic tables lie before the code
        room, kept = 0x1a00, []
        for y in dynsyms:
            room -= len(y.name) + 1 + 24 + 4
            if room >= 0:
                kept.append(y)
        gone = {id(y) for y in dynsyms if y not in kept}
        self.pub = [s for s in self.pub if id(s) not in gone]
        dynsyms = kept
        self.fdes = []
        if o["fdes"]:
            for fn, cu, lo, hi in self.decl:
                if hi - lo > 1 and rng.random() < 0.8:
                    self.fdes.append((lo, hi))
            if not self.fdes:
                self.fdes = [(text_addr, text_addr + 16)]
            self.fdes = sorted(set(self.fdes))
        if o["build_id"] == "auto":
            bid = bytes(rng.randrange(256) for _ in range(rng.choice([20, 20, 16, 8, 32])))
        else:
            bid = o["build_id"]
        self.build_id = bid
        self.base, self.execs, self.soname = base, execs, o["soname"]
        self.syms, self.dynsyms = syms + self.noise, dynsyms
        self.text_end = text_addr + o["text"]
        etype = o["etype"] or (3 if pie else 2)
        self.interp = (not pie) if o["interp"] is None else o["interp"]
        self.kw = dict(syms=self.syms, dynsyms=dynsyms, soname=o["soname"], build_id=bid, bits=o["bits"], little=o["little"],
                       machine=o["machine"], etype=etype, base=base, execs=tuple(execs), interp=self.interp,
                       gap=o["gap"], text_seed=rng.randrange(1 << 30), compress=rng.random() < 0.2 if o["compress"] is None else o["compress"])

    # ------------------------------------------------------------ images
    def full(self):
        return Elf(cus=self.cus, fdes=self.fdes, **self.kw).build()

    def stripped(self):
        """What `strip` leaves: code, unwind tables, dynamic symbols."""
        kw = dict(self.kw, syms=())
        return Elf(cus=(), fdes=self.fdes, **kw).build()

    def debug_only(self, with_eh=False):
        """What `objcopy --only-keep-debug` leaves: symbol table and DWARF, no unwind tables."""
        kw = dict(self.kw, dynsyms=(), soname=None, interp=False)
        return Elf(cus=self.cus, fdes=self.fdes if with_eh else (), **kw).build()

    # ------------------------------------------------------------ ground truth (rvas)
    def expected_funcs(self):
        """{rva: dict(size, name, multiple, fn, cu, lo, hi)}: first declaration at an address wins;
        a later one with another size marks it multiple (the same address and size is the same function)."""
        out, seen = {}, set()
        for fn, cu, lo, hi in self.decl:
            if (lo, hi) in seen:
                continue
            seen.add((lo, hi))
            rva = lo - self.base
            if rva in out:
                out[rva]["multiple"] = True
                continue
            out[rva] = dict(size=hi - lo, name=fn.expect, multiple=False, fn=fn, cu=cu, lo=lo, hi=hi)
        return out

    def truth_noinl(self, e):
        """[(addr, (path, line) or None)] for each address of an expected function, inlining folded away."""
        fn, cu = e["fn"], e["cu"]
        out, cur = [], None
        for a in points(fn, e["lo"], e["hi"]):
            ch = chain_at(fn, a)
            if ch:
                loc = (ch[0].call_file, ch[0].call_line)
            else:
                r = row_at(fn, a)
                loc = (r[1], r[2]) if r else None
            if loc is not None and loc[1] != 0:
                cur = (self.path(cu, loc[0]), loc[1])
            out.append((a - self.base, cur))
        return out

    def truth_inl(self, e):
        """[(addr, frames)]: frames innermost first: (function or None for the outer one, path, line)."""
        fn, cu = e["fn"], e["cu"]
        out = []
        for a in points(fn, e["lo"], e["hi"]):
            ch = chain_at(fn, a)
            r = row_at(fn, a)
            loc = (self.path(cu, r[1]), r[2])
            frames = []
            for i in reversed(ch):
                frames.append((cu.abstracts[i.origin]["expect"], loc[0], loc[1]))
                loc = (self.path(cu, i.call_file), i.call_line)
            frames.append((None, loc[0], loc[1]))
            out.append((a - self.base, frames))
        return out

    def table_order(self):
        """Symbols in the order of the tables: .symtab (locals first), then .dynsym."""
        st = sorted(self.syms, key=lambda x: 0 if x.bind == 0 else 1)
        return st + sorted(self.dynsyms, key=lambda x: 0 if x.bind == 0 else 1)

    def expected_publics(self, symtab=True, dynsym=True, debug=True):
        """({rva: (allowed names, multiple or None)}, forbidden rvas)."""
        ex_rng = {n: (a, a + s) for n, a, s in self.execs}
        funcs = self.expected_funcs() if debug else {}
        spans = [(r, r + max(1, e["size"])) for r, e in funcs.items()]
        cand = {}
        order = []
        for s in self.table_order():
            isdyn = s in self.dynsyms
            if (isdyn and not dynsym) or (not isdyn and not symtab):
                continue
            if s.typ != 2 or not isinstance(s.sec, str) or s.sec not in ex_rng or s.addr < self.base:
                continue
            order.append(s)
            cand.setdefault(s.addr - self.base, []).append(s)
        out, forbidden, unknown = {}, set(), set()
        for rva, ss in cand.items():
            if any(lo <= rva < hi for lo, hi in spans):
                if not any(lo == rva for lo, hi in spans):
                    forbidden.add(rva)
                continue
            if any(o.addr - self.base < rva < o.addr - self.base + o.size for o in order):
                unknown.add(rva)
                continue
            texts = [x.expect if getattr(x, "expect", None) is not None else dec(x.name) for x in ss]
            out[rva] = (texts[0], len(set(texts)) > 1)
        return out, forbidden, unknown

    def expected_placeholders(self, taken):
        """{rva: section name} for executable sections whose start carries no record."""
        return {a - self.base: n for n, a, s in reversed(self.execs) if a - self.base not in taken}      # the first one at an address
