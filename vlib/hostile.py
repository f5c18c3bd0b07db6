"""Hostile names: bytes a compiler, linker or attacker may put where a name is expected."""
from .elf import Sym

FIXED = [
    b"", b" ", b"\t", b"\n", b"\r\n", b"a\nFUNC 0 1 0 evil", b"x\nPUBLIC 1 0 evil", b"\nSTACK CFI INIT 0 1 .cfa: $rsp 8 +", b"a\rb",
    b"tab\there", b"\x01\x02\x03", b"del\x7f", b"nbsp\xc2\xa0", b"\xc2\xa0", b"\xe3\x80\x80", b"\xe2\x80\xa8line", b"\xc2\x85", b"\xff\xfe\xfd",
    b"caf\xe9", b"caf\xc3\xa9", b"\xf0\x9f\xa6\x80crab", b"\xed\xa0\x80surrogate", b"\xc0\xaf", b"half\xe2\x82", b".", b"..", b"...", b"/", b"//", b"\\", b"C:\\",
    b"a b  c", b" lead", b"trail ", b"m ", b"m 0 0 0 x", b"MODULE Linux x86_64 000 x", b"FILE 0 x", b"INLINE_ORIGIN 0 x", b"0 1 2 3",
    b"_Z", b"_ZN", b"_ZN3foo", b"_ZN3fooE\xff", b"_Z1fILi99999999999999999999EEvv", b"_R", b"_RNv", b"_RNvC6_123foo3bar", b"_RINvNtC3foo3bar3bazpE",
    b"?", b"??", b"?f@@YAHXZ", b"?f@@YAHXZ\n", b"??_C@_0", b"__real@", b"@", b"@@", b"_@", b"@f@", b"@f@8", b"_f@8", b"f@@16", b"_f@99999999999", b"_",
    b"f@@4294967296", b"f@@-1", b"f@@ 1", b"_\xc3\xa9", b"\xc3\xa9@@4", b"@\xe2\x82\xac@4",
    b"[clone .cold]", b".cold", b".cold.0", b".llvm.", b".constprop", b"f [clone", b"f [clone .a] [clone .b", b".part.9999999999999999999", b"$_0", b"{{closure}}",
    b"{0}", b"{digest}", b"%s%n", b"<", b">", b"f<", b"operator<", b"operator<<", b"operator()", b"-[NSObject x:]", b"+[A(B) c]", b"\"", b"'", b"`x'::`2'::y",
    b"x" * 300, b"x" * 70000, b"\n" * 50, b"_Z" + b"N1a" * 200, b"_Z" + b"I" * 3000, b"_Z1f" + b"P" * 5000 + b"v", b"_ZZ" * 500, b"_ZL" + b"9" * 40,
]


def name(rng):
    k = rng.random()
    if k < 0.6:
        return rng.choice(FIXED)
    if k < 0.8:
        return bytes(rng.randrange(1, 256) for _ in range(rng.choice([1, 2, 5, 20, 60])))
    if k < 0.9:
        a, b = rng.choice(FIXED), rng.choice(FIXED)
        return a[:200] + b[:200]
    return bytes(rng.choice(b"\n\r\t \x0b\x0c/\\.:") for _ in range(rng.randrange(1, 6)))


def poison(m, rng, p=0.5, files=True, syms=True, unique=False):
    """Replaces names inside m by hostile ones. The ground truth of names no longer applies."""
    def mut(b):
        if rng.random() < p:
            n = name(rng)
            return n.replace(b"\0", b"") if n is not None else b
        return b
    for cu in m.cus:
        for fn in cu.funcs:
            fn.name = mut(fn.name) if fn.name is not None else fn.name
            if fn.linkage is not None:
                fn.linkage = mut(fn.linkage)
        for a in cu.abstracts:
            a["name"] = mut(a["name"]) if a.get("name") is not None else None
            if a.get("linkage") is not None:
                a["linkage"] = mut(a["linkage"])
        if files:
            cu.comp_dir = mut(cu.comp_dir)
            cu.name = mut(cu.name)
            cu.dirs = [mut(d) or b"x" for d in cu.dirs]     # an empty entry would end the DWARF 4 table
            cu.files = [(d, mut(n) or b"y") for d, n in cu.files]
            if rng.random() < 0.1:
                # nothing printable at all
                blank = [b"\x01", b"\n", b" ", b"\t\r", b"\x7f", b"\x1b\x02"]
                cu.comp_dir = rng.choice([b"", b"\x02", b" "])
                cu.dirs = [rng.choice(blank) for _ in cu.dirs]
                cu.files = [(rng.choice([0, d]), rng.choice(blank)) for d, n in cu.files]
    if syms:
        for s in list(m.syms) + list(m.dynsyms):
            if s.name is not None and isinstance(s.sec, str):
                s.name = mut(s.name)
    return m
