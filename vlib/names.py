"""Mangled names built together with the text they stand for: Itanium C++, Rust (both schemes), Microsoft C++.

The text follows the conventions of the demanglers that are part of dump_syms ("> >", "char const*")."""
import re

WORDS = ["alpha", "Beta", "gamma", "delta_1", "omega", "init", "run", "loop", "Draw", "Parse", "net", "io", "gfx", "js", "x", "_priv", "Z9", "E", "v", "caf\u00e9"]
BUILTIN = [("v", "void"), ("b", "bool"), ("c", "char"), ("a", "signed char"), ("h", "unsigned char"), ("s", "short"), ("t", "unsigned short"), ("i", "int"), ("j", "unsigned int"),
           ("l", "long"), ("m", "unsigned long"), ("x", "long long"), ("y", "unsigned long long"), ("f", "float"), ("d", "double"), ("e", "long double"), ("w", "wchar_t"),
           ("n", "__int128"), ("z", "..."), ("Di", "char32_t"), ("Ds", "char16_t"), ("Dn", "decltype(nullptr)")]
PLAIN = [b for b in BUILTIN if b[0] not in ("v", "z", "Dn")]
OPS = [("pl", "operator+"), ("mi", "operator-"), ("eq", "operator=="), ("ne", "operator!="), ("lt", "operator<"), ("ls", "operator<<"), ("rs", "operator>>"), ("cl", "operator()"),
       ("ix", "operator[]"), ("aS", "operator="), ("nw", "operator new"), ("dl", "operator delete"), ("na", "operator new[]"), ("da", "operator delete[]"), ("pt", "operator->"), ("nt", "operator!"),
       ("cm", "operator,"), ("pp", "operator++"), ("gt", "operator>")]


def ident(n):
    return "%d%s" % (len(n.encode()), n)


class Itanium:
    """One mangling with its substitution table. Types and names are texts paired with encoders."""

    def __init__(self, rng):
        self.rng, self.subs = rng, {}

    def _sub(self, key):
        if key in self.subs:
            k = self.subs[key]
            if k == 0:
                return "S_"
            d, s = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", ""
            k -= 1
            while True:
                s = d[k % 36] + s
                k //= 36
                if not k:
                    break
            return "S%s_" % s
        return None

    def _add(self, key):
        self.subs.setdefault(key, len(self.subs))

    # ---- types: nested tuples
    def rtype(self, depth=2):
        r = self.rng
        k = r.random()
        if depth == 0 or k < 0.4:
            return ("b",) + r.choice(PLAIN)
        if k < 0.55:
            return ("P", self._noref(depth))
        if k < 0.65:
            t = self._noref(depth)
            return ("P", ("K", t)) if t[0] in ("b", "C", "P") else ("P", t)
        if k < 0.72:
            return self._ref("R", depth)
        if k < 0.77:
            return self._ref("O", depth)
        if k < 0.83:
            return ("P", ("F", self.rtype(depth - 1), tuple(self.rtype(depth - 1) for _ in range(r.randrange(0, 3)))))
        return ("C", self.rclass(depth - 1))

    def _noref(self, depth):
        t = self.rtype(depth - 1)
        while t[0] in ("R", "O"):
            t = t[1]
        return t

    def _ref(self, c, depth):
        t = self.rtype(depth - 1)
        while t[0] in ("R", "O"):
            t = t[1]
        if self.rng.random() < 0.4 and t[0] in ("b", "C", "P"):
            t = ("K", t)
        return (c, t)

    def rclass(self, depth):
        """tuple of components: (name, None | tuple of template arguments)"""
        r = self.rng
        comps = [(r.choice(WORDS[:-1]), None) for _ in range(r.choice([1, 1, 2, 3]))]
        if depth > 0 and r.random() < 0.4:
            comps[-1] = (comps[-1][0], self.rargs(depth - 1))
        return tuple(comps)

    def rargs(self, depth):
        r = self.rng
        out = []
        for _ in range(r.choice([1, 1, 2])):
            out.append(self.rtype(depth) if r.random() < 0.75 else ("L", r.choice(["i", "m", "b"]), r.randrange(0, 2) if r.random() < 0.5 else r.randrange(0, 1000)))
        return tuple(("L", "b", a[2] & 1) if a[:2] == ("L", "b") else a for a in out)

    def enc_args(self, args):
        return "I" + "".join(self.enc(a) for a in args) + "E"

    def txt_args(self, args):
        s = ", ".join(self.txt(a) for a in args)
        return "<" + s + (" >" if s.endswith(">") else ">")

    def enc(self, t):
        k = t[0]
        if k == "b":
            return t[1]
        if k == "L":
            return "L%s%dE" % (t[1], t[2])
        if k == "C":
            return self.enc_class(t[1])
        s = self._sub(t)
        if s:
            return s
        if k in ("P", "R", "O", "K"):
            e = k + self.enc(t[1])
        elif k == "F":
            e = "F" + self.enc(t[1]) + ("".join(self.enc(a) for a in t[2]) or "v") + "E"
        self._add(t)
        return e

    def enc_class(self, comps):
        full = ("C", comps)
        s = self._sub(full)
        if s:
            return s
        if len(comps) == 1:
            n, args = comps[0]
            if args is None:
                self._add(full)
                return ident(n)
            bare = ("C", ((n, None),))
            e = self._sub(bare)
            if e is None:
                e = ident(n)
                self._add(bare)
            e += self.enc_args(args)
            self._add(full)
            return e
        return "N" + self.enc_prefix(comps) + "E"

    def enc_prefix(self, comps):
        """A substitutable prefix (every component a namespace or class)."""
        full = ("C", comps)
        s = self._sub(full)
        if s:
            return s
        n, args = comps[-1]
        head, bare = comps[:-1], comps[:-1] + ((n, None),)
        if args is None:
            e = (self.enc_prefix(head) if head else "") + ident(n)
        else:
            e = self._sub(("C", bare))
            if e is None:
                e = (self.enc_prefix(head) if head else "") + ident(n)
                self._add(("C", bare))
            e += self.enc_args(args)
        self._add(full)
        return e

    def txt(self, t):
        k = t[0]
        if k == "b":
            return t[2]
        if k == "L":
            return {"i": "%d", "m": "(unsigned long)%d", "b": "%s"}[t[1]] % (t[2] if t[1] != "b" else ["false", "true"][t[2]])
        if k == "C":
            return self.txt_class(t[1])
        if k == "K":
            return self.txt(t[1]) + " const"
        if k == "F":
            return "%s (%s)(%s)" % (self.txt(t[1]), "", ", ".join(self.txt(a) for a in t[2]))
        # pointer-like: look for a function inside
        mod, u = {"P": "*", "R": "&", "O": "&&"}[k], t[1]
        while u[0] in ("P", "R", "O"):
            mod = {"P": "*", "R": "&", "O": "&&"}[u[0]] + mod
            u = u[1]
        if u[0] == "K" and u[1][0] in ("P", "R", "O"):
            inner = self.txt(u[1])
            return inner + " const" + mod
        if u[0] == "F":
            return "%s (%s)(%s)" % (self.txt(u[1]), mod, ", ".join(self.txt(a) for a in u[2]))
        return self.txt(u) + mod

    def txt_class(self, comps):
        return "::".join(n + (self.txt_args(a) if a is not None else "") for n, a in comps)

    def has_fp(self, t):
        """Contains a pointer to function whose own parts are pointers to functions (formats differ between demanglers)."""
        k = t[0]
        if k == "F":
            return True
        if k in ("P", "R", "O", "K"):
            return self.has_fp(t[1])
        if k == "C":
            return any(self.has_fp(a) for _, args in t[1] if args for a in args)
        return False

    def simple(self, t):
        k = t[0]
        if k == "F":
            return not self.has_fp(t[1]) and not any(self.has_fp(a) for a in t[2]) and t[1][0] != "K"
        if k == "K":
            return t[1][0] in ("b", "C", "P") and self.simple(t[1]) and not (t[1][0] == "P" and self.has_fp(t[1]))
        if k in ("P", "R", "O"):
            return self.simple(t[1])
        if k == "C":
            return all(self.simple(a) and not self.has_fp(a) for _, args in t[1] if args for a in args)
        return True

    def rt(self, depth=2):
        for _ in range(50):
            t = self.rtype(depth)
            if self.simple(t):
                return t
        return ("b", "i", "int")


def cpp(rng, uniq):
    """(mangled, text) of one C++ function or method."""
    while True:
        r = _cpp(rng, uniq)
        # cpp_demangle misplaces the * or & of a type nested in a substituted type: "a::b&::c"
        if r and not re.search("[PROKV]NS[0-9A-Z]+_", r[0]):
            return r


def _cpp(rng, uniq):
    m = Itanium(rng)
    kind = rng.choice(["fn", "fn", "method", "method", "cmethod", "ctor", "dtor", "op", "conv", "tfn", "tmethod", "anon", "static", "lambda", "local", "thunk", "abi", "variadic"])
    for _ in range(20):
        comps = m.rclass(2)
        if m.simple(("C", comps)):
            break
    else:
        comps = (("ns", None),)
    f = rng.choice(["f%s", "g_%s", "Do%sIt", "operator_%s", "x%s"]) % uniq
    params = [m.rt() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    tail, ret = "", ""
    cls = m.txt_class(comps)
    if kind == "fn":
        name, text = ident(f), f
        if rng.random() < 0.6:
            c2 = tuple((n, None) for n, _ in comps)
            name, text = "N" + m.enc_prefix(c2) + ident(f) + "E", m.txt_class(c2) + "::" + f
    elif kind == "static":
        name, text = "L" + ident(f), f
    elif kind == "variadic":
        name, text = ident(f), f
        params.append(("b", "z", "..."))
    elif kind in ("method", "cmethod"):
        q = rng.choice(["K", "K", "V", "KR", "O"]) if kind == "cmethod" else ""
        name, text = "N" + {"KR": "KR", "O": "O"}.get(q, q) + m.enc_prefix(comps) + ident(f) + "E", cls + "::" + f
        tail = {"": "", "K": " const", "V": " volatile", "KR": " const &", "O": " &&"}[q]
        if q in ("KR", "O"):
            return None
    elif kind in ("ctor", "dtor"):
        name = "N" + m.enc_prefix(comps) + (rng.choice(["C1", "C2"]) if kind == "ctor" else rng.choice(["D0", "D1", "D2"])) + "E"
        text = cls + "::" + ("~" if kind == "dtor" else "") + comps[-1][0]
        params = params if kind == "ctor" else []
        # make it unique through the class name
        return _unique_class(rng, uniq, kind)
    elif kind == "op":
        o = rng.choice(OPS)
        comps = comps[:-1] + (("C%s" % uniq, None),)
        name, text = "N" + m.enc_prefix(comps) + o[0] + "E", m.txt_class(comps) + "::" + o[1]
    elif kind == "conv":
        comps = comps[:-1] + (("C%s" % uniq, None),)
        t = m.rt(1)
        if m.has_fp(t):
            return None
        p = m.enc_prefix(comps)
        name, text, params = "N" + p + "cv" + m.enc(t) + "E", m.txt_class(comps) + "::operator " + m.txt(t), []
    elif kind in ("tfn", "tmethod"):
        args = m.rargs(1)
        if not all(m.simple(a) and not m.has_fp(a) for a in args):
            return None
        if kind == "tfn":
            e = ident(f)
            m._add(("C", ((f, None),)))
            name, text = e + m.enc_args(args), f + m.txt_args(args)
        else:
            p = m.enc_prefix(comps) + ident(f)
            m._add(("C", comps + ((f, None),)))
            name, text = "N" + p + m.enc_args(args) + "E", cls + "::" + f + m.txt_args(args)
        rt = m.rt(1)
        if m.has_fp(rt):
            return None
        ret = m.enc(rt) if rng.random() < 0.7 else "v"
    elif kind == "anon":
        name, text = "N12_GLOBAL__N_1" + ident(f) + "E", "(anonymous namespace)::" + f
        m._add(("C", (("_GLOBAL__N_1", None),)))
    elif kind == "abi":
        name, text = ident(f) + "B5cxx11", f + "[abi:cxx11]"
    elif kind == "lambda":
        name, text = "ZN" + m.enc_prefix(tuple((n, None) for n, _ in comps)) + ident(f) + "EvENKUlvE_clE", None
        return None
    elif kind == "local":
        return None
    elif kind == "thunk":
        n = rng.randrange(1, 64)
        q = m.enc_prefix(tuple((x, None) for x, _ in comps))
        return "_ZThn%d_N%s%sEv" % (n, q, ident(f)), "{virtual override thunk({offset(-%d)}, %s::%s())}" % (n, m.txt_class(tuple((x, None) for x, _ in comps)), f)
    enc = "_Z" + name + ret + ("".join(m.enc(p) for p in params) or "v")
    text = "%s(%s)%s" % (text, ", ".join(m.txt(p) for p in params), tail)
    if len(enc) > 300 + len(uniq):
        return None
    return enc, text


def _unique_class(rng, uniq, kind):
    m = Itanium(rng)
    comps = tuple((rng.choice(WORDS[:-1]), None) for _ in range(rng.randrange(0, 3))) + (("Cls%s" % uniq, m.rargs(1) if rng.random() < 0.3 else None),)
    if not m.simple(("C", comps)):
        return None
    name = "N" + m.enc_prefix(comps) + (rng.choice(["C1", "C2"]) if kind == "ctor" else rng.choice(["D0", "D1", "D2"])) + "E"
    params = [m.rt(1) for _ in range(rng.choice([0, 1, 2]))] if kind == "ctor" else []
    return "_Z" + name + ("".join(m.enc(p) for p in params) or "v"), "%s::%s%s(%s)" % (m.txt_class(comps), "~" if kind == "dtor" else "", comps[-1][0], ", ".join(m.txt(p) for p in params))


# ------------------------------------------------------------------------------------------------ Rust

ESC = [("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$BP$", "*"), ("$C$", ","), ("$u20$", " "), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$u5b$", "["), ("$u5d$", "]")]


def rust_legacy(rng, uniq):
    parts = []
    for _ in range(rng.randrange(1, 4)):
        if rng.random() < 0.3:
            t = rng.choice(["_$LT$impl$u20$core..fmt..Debug$u20$for$u20$a..B$GT$", "_$LT$$RF$mut$u20$T$u20$as$u20$x..Y$GT$", "_$u7b$$u7b$closure$u7d$$u7d$", "$LT$T$GT$"])
            s = t[1:] if t.startswith("_$") else t
            for a, b in ESC:
                s = s.replace(a, b)
            parts.append((t, s.replace("..", "::")))
        else:
            n = rng.choice(["core", "alloc", "serde", "fmt", "vec", "ptr", "drop_in_place"])
            parts.append((n, n))
    n = "f%s" % uniq
    parts.append((n, n))
    return "_ZN" + "".join(ident(p) for p, _ in parts) + "17h%016xE" % (rng.getrandbits(63) | 1 << 62), "::".join(t for _, t in parts)


V0_B = [("a", "i8"), ("b", "bool"), ("c", "char"), ("d", "f64"), ("e", "str"), ("f", "f32"), ("h", "u8"), ("i", "isize"), ("j", "usize"), ("l", "i32"), ("m", "u32"), ("n", "i128"),
        ("o", "u128"), ("s", "i16"), ("t", "u16"), ("u", "()"), ("x", "i64"), ("y", "u64"), ("z", "!")]


def rust_v0(rng, uniq):
    crate = rng.choice(["core", "mycrate", "serde_json"])
    dis = rng.choice(["", "s_", "s5l3_", "sabcDEF_"])
    p, t = "C" + dis + ident(crate), crate
    for _ in range(rng.randrange(0, 3)):
        k = rng.random()
        if k < 0.7:
            n = rng.choice(["fmt", "de", "imp", "Vec"])
            p, t = "Nt" + p + ident(n), t + "::" + n
        elif k < 0.85:
            p, t = "NC" + p + "0", t + "::{closure#0}"
        else:
            ty = rng.choice(V0_B)
            p, t = "M" + p + ty[0], "<%s>" % ty[1]
    n = "f%s" % uniq
    p, t = "Nv" + p + ident(n), t + "::" + n
    if rng.random() < 0.4:
        tys = [rng.choice(V0_B) for _ in range(rng.randrange(1, 3))]
        p, t = "I" + p + "".join(x[0] for x in tys) + "E", t + "::<%s>" % ", ".join(x[1] for x in tys)
    return "_R" + p, t
