"""C07: names are demangled and cleaned the same way everywhere."""
from vlib import gen, macho, names, oracle, sym
from vlib.elf import Sym

RULE = ("one case = one module (ELF 32/64 bit, either byte order, Mach-O) in one of 17 DWARF languages whose functions, inlined functions and symbols carry names built together with their meaning by a generator: "
        "Itanium C++ (templates, operators, constructors, substitutions, function pointers, return types of templates), Rust legacy and v0, Objective-C, plain C names, names that only look mangled, "
        "with random sequences of compiler suffixes, near-suffixes that must stay, and anonymous namespaces; each name is placed as FUNC (linkage name, plain name or symbol-table name), INLINE_ORIGIN and PUBLIC. "
        "The printed text must be the meaning. distinct = (place, language, kind of name, suffix) classes")
ASSUMPTIONS = ["the spelling of demangled types is that of the demanglers the program is built with (\"char const*\", \"> >\")",
               "a PUBLIC name that is not recognisably mangled and ends in a compiler suffix is not covered"]
TECHNIQUE = "generated mangled names with known meaning run through the real program; text oracle per placement, cross-placement equality"
LEVEL = "exploration"
LEVEL_NOTE = "tens of thousands of names per run"
MIN_DISTINCT = 400
QUICK_S, THOROUGH_S = 60, 600

C_FAMILY = ["c", "c89", "c_", "c11"]
CPP = ["cpp", "cpp14", "cpp11", "cpp03"]
LANGS = C_FAMILY + CPP + ["cpp", "rust", "rust", "objc", "objcpp", "go", "d", "swift", "unknown", "cpp17", "c17", "fortran"]
DETECT = ("unknown", "cpp17", "c17", "fortran")
WORDS = ["cold", "constprop", "llvm", "localalias", "lto_priv", "isra", "part", "str"]
KEPT = [".foo", ".coldx", ".cold.x", ".llvm.abc", ".constprop.0x", "cold", ".part.1.2.3", " [clone foo][bar]", "[clone", ".isra.", ".resume.0", ".cold  x", "@@GLIBC_2.2.5", "$llvm.1", ".lto_priv.-1", ".COLD",
        "(int)", " [clonefoo", ".cold.1.", "[other .cold]"]


def cases(ctx):
    n = 4500 if ctx.tier == "quick" else 12000
    cont = ["elf", "elf", "macho", "elf32", "elfbe"]
    return [{"i": i, "c": cont[i % len(cont)], "lang": LANGS[i % len(LANGS)]} for i in range(n)]


def suffix(rng, clones=True):
    out, kinds = "", []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        if clones and rng.random() < 0.3:
            s = rng.choice([" [clone .%s]", "[clone .%s]", " [clone .%s.0] ", " [clone %s.7]", " [clone]" + "%.0s", " [clone %.0s]"]) % rng.choice(WORDS)
            kinds.append("clone")
        else:
            w = rng.choice(WORDS)
            s = "." + w + rng.choice(["", ".0", ".17", ".%d" % rng.getrandbits(64)])
            kinds.append(w)
        out += s
    return out, kinds[0] if len(kinds) == 1 else "several"


def grow(rng, uniq, most):
    """Sometimes a very long identifier."""
    if rng.random() < 0.02:
        return uniq + "z" * min(most, rng.choice([100, 1000, 3000, 5000, 9000, 20000]))
    return uniq


class N:
    """raw: the bytes in the file; base: without suffix; fam: cpp, rust, objc, plain; text: demangled."""

    def __init__(self, rng, uniq, fam=None, clones=True, want_suffix=None):
        self.fam = fam or rng.choice(["cpp", "cpp", "cpp", "rust", "rust", "plain", "plain", "objc", "junk"])
        uniq = grow(rng, uniq, 500 if self.fam == "cpp" else 20000)       # longer C++ texts than 4096 bytes stay mangled
        if self.fam == "cpp":
            self.base, self.text = names.cpp(rng, uniq)
        elif self.fam == "rust":
            self.base, self.text = (names.rust_legacy if rng.random() < 0.5 else names.rust_v0)(rng, uniq)
        elif self.fam == "objc":
            self.base = rng.choice(["-[Foo%s bar:baz:]", "+[NS%s(Cat) init]"]) % uniq
            self.text = self.base
        elif self.fam == "junk":
            self.base = rng.choice(["_ZN5alpha%s", "_R%s!", "_ZNK3foo3bar%s"]) % uniq
            self.text = self.base
        else:
            self.base = rng.choice(["fn_%s", "f%s", "_do_%s", "a.b%s", "$t%s", "__x_%s", "operator<< %s", "std::f%s<int>(char const*)", "caf\u00e9_%s", "{impl#%s}::run", "<T as U%s>::f", "f%s const", "a  b%s",
                                    "`anonymous namespace'::g%s", "x::`anonymous namespace'::y::h%s"]) % uniq
            self.text = self.base
            if rng.random() < 0.3:
                self.base += rng.choice(KEPT)
                self.text = self.base
        self.base_ns = self.base.replace("`anonymous namespace'", "(anonymous namespace)")
        self.text = self.text.replace("`anonymous namespace'", "(anonymous namespace)")
        self.sfx, self.sk = "", "-"
        if rng.random() < 0.5 if want_suffix is None else want_suffix:
            # an unclosed bracket before a [clone] group: not covered
            self.sfx, self.sk = suffix(rng, clones and "[" not in self.base)
        self.raw = self.base + self.sfx

    def expect(self, how, lang):
        if how == "attr":                    # DW_AT_name: the plain name
            return self.base_ns
        if how == "public":
            return self.text if self.fam in ("cpp", "rust", "objc", "junk") else self.raw
        if lang in CPP or lang == "objcpp":
            return self.text if self.fam == "cpp" else self.base_ns
        if lang == "rust":
            return self.text if self.fam == "rust" else self.base_ns
        if lang in DETECT:
            return self.text
        return self.base_ns


def pick(rng, how, lang, uniq, pool=()):
    """A name whose text in this place is settled by the name and language alone: a new one, or one that is elsewhere too."""
    while True:
        n = rng.choice(pool) if pool and rng.random() < 0.2 else N(rng, uniq, clones=how != "public")
        if how == "public" and "[clone" in n.sfx:
            continue
        if how == "public" and n.fam == "plain" and (n.sfx or "`" in n.raw):
            continue
        if how == "public" and (n.raw.startswith("@") or n.fam in ("objc", "junk") and n.sfx):
            continue
        if how == "linkage":
            # a Rust name read as C++ and the reverse: not covered
            if lang in CPP + ["objcpp"] and n.fam == "rust" or lang == "rust" and n.fam == "cpp":
                continue
            if lang in DETECT and n.fam == "objc" and n.sfx:
                continue
        if hasattr(pool, "append"):
            pool.append(n)
        return n


def run_case(ctx, case):
    rng, lang, c = ctx.rng, case["lang"], case["c"]
    lang2 = rng.choice(LANGS) if rng.random() < 0.4 else lang
    o = dict(langs=(lang, lang2), symtab=0, publics=0, dyn=0, cus=rng.choice([1, 2]), funcs=rng.choice([4, 8]), inl_prob=0.8, dup_funcs=0, suffix=0, multi_range=0, text=0x6000, extra_exec=0)
    if c == "elf32":
        o.update(bits=32, machine="x86")
    elif c == "elfbe":
        o.update(little=False, machine="ppc64")
    elif c == "macho":
        mo = macho.opts()
        mo.pop("langs", None)
        o.update(mo)
        o["langs"] = (lang, lang2)
    m = gen.Mod(rng, **o)
    m.syms[:] = []
    k = 0

    def uniq():
        nonlocal k
        k += 1
        return str(k) if rng.random() < 0.9 else "%dx%s" % (k, rng.choice(["y" * 70, "long" * 60, "z" * 1200]))
    want, origins, what, shared = {}, {}, {}, []
    top = m.base + 0x2000
    for fn, cu, lo, hi in m.decl:
        top = max(top, hi)
        u = uniq()
        lang = cu.lang
        how = rng.choice(["attr", "linkage", "linkage", "table"] if c != "macho" else ["attr", "linkage"])
        n = pick(rng, "attr" if how == "attr" else "linkage", lang, u, shared)
        raw = n.raw.encode()
        fn.linkage = None
        if how == "attr":
            fn.name = raw
        else:
            fn.name = b"short%d" % k
            if how == "linkage":
                fn.linkage = raw
            else:
                m.syms.append(Sym(raw, lo, hi - lo))
                if rng.random() < 0.5:
                    fn.linkage = b"_Z5wrongv"
        fn.expect = n.expect("attr" if how == "attr" else "linkage", lang)
        want[lo - m.base] = ("FUNC", fn.expect, n, how)
    for cu in m.cus:
        lang = cu.lang
        for a in cu.abstracts:
            u = uniq()
            how = rng.choice(["attr", "linkage"])
            n = pick(rng, how, lang, u)
            # the same name inlined in several units, perhaps of other languages
            if shared and rng.random() < 0.3:
                n = rng.choice(shared)
                if n.fam not in ("plain", "objc") and (lang in CPP + ["objcpp"] and n.fam == "rust" or lang == "rust" and n.fam == "cpp"):
                    how = "attr"
            if how == "linkage" and lang in DETECT and n.fam == "objc" and n.sfx:
                how = "attr"
            shared.append(n)
            a["linkage"] = None
            if how == "attr":
                a["name"] = n.raw.encode()
            else:
                a["name"], a["linkage"] = b"short%d" % k, n.raw.encode()
            a["expect"] = n.expect(how, lang)
            origins[a["expect"]] = (n, how)
    at = (top + 0x40) & ~15
    for _ in range(rng.choice([10, 25])):
        u = uniq()
        if at + 0x40 > m.text_end:
            break
        n = pick(rng, "public", lang, u, shared)
        m.syms.append(Sym(n.raw.encode(), at, 8))
        want[at - m.base] = ("PUBLIC", n.expect("public", lang), n, "symbol")
        at += 16
    if c == "macho":
        macho.adapt(m)
        path = ctx.write("m.dylib", macho.MachO(m).build())
    else:
        path = ctx.write("m.so", m.full())
    r = ctx.dump_ok("--inlines", path)
    s = sym.parse(r.out)
    got = s.by_addr()
    for a, (kind, text, n, how) in want.items():
        g = got.get(a)
        if g is None:
            ctx.violation("%s: no record at %x for %r" % (c, a, n.raw))
            continue
        gk = "FUNC" if isinstance(g, sym.F) else "PUBLIC"
        gname = g.name.decode() if isinstance(g.name, bytes) else g.name
        if gk != kind:
            ctx.violation("%s: %x is %s instead of %s" % (c, a, gk, kind))
        elif gname.strip() != text.strip():
            ctx.violation("%s in a %s unit, %s given as %s: %r is printed as %r, expected %r" % (kind, lang, n.fam, how, n.raw, gname, text))
        ctx.seen(kind, how, lang, n.fam, n.sk)
        ctx.tick("names compared")
        ctx.tick("%s names" % n.fam)
    # the right name at the right place
    fs = {f.addr: f for f in s.funcs}
    for a, e in m.expected_funcs().items():
        for ad, t in m.truth_inl(e) if a in fs else ():
            g = [(x[0] or "").strip() for x in oracle.frames(s, fs[a], ad)]
            if g != [(x[0] or "").strip() for x in t]:
                ctx.violation("%s: the frames at %x are %r instead of %r" % (c, ad, g, [x[0] for x in t]))
                break
    for _id, t in s.origins.items() if hasattr(s.origins, "items") else enumerate(s.origins):
        t = t[0] if isinstance(t, tuple) else t
        t = t.decode() if isinstance(t, bytes) else t
        if t not in origins and t.strip() not in {x.strip() for x in origins}:
            ctx.violation("INLINE_ORIGIN in a %s unit: %r is not the text of any inlined function: %r" % (lang, t, sorted((x[0].raw, e) for e, x in origins.items())[:12]))
        else:
            n, how = origins.get(t) or next(v for x, v in origins.items() if x.strip() == t.strip())
            ctx.seen("INLINE_ORIGIN", how, lang, n.fam, n.sk)
            ctx.tick("names compared")
    if case["i"] < 5:
        ctx.sample = {"case": case, "names": [(n.raw, t) for _, t, n, _ in list(want.values())[:6]]}
