"""Monitors over a parsed dump, against ground truth from gen.Mod."""


def funcs(m, s):
    out = []
    ex = m.expected_funcs()
    got = {}
    for f in s.funcs:
        if f.addr in got:
            out.append("two FUNC records at %x" % f.addr)
        got[f.addr] = f
    for a in sorted(set(ex) - set(got)):
        out.append("the function %r at %x (size %x) has no FUNC record" % (ex[a]["name"], a, ex[a]["size"]))
    unwind = {lo - m.base for lo, hi in m.fdes}
    for a in sorted(set(got) - set(ex)):
        if a in unwind and got[a].name.startswith("<unknown in "):
            continue          # the exception table's placeholder, decided by C08
        out.append("FUNC %x %r matches no function of the debug information" % (a, got[a].name))
    for a in sorted(set(ex) & set(got)):
        e, f = ex[a], got[a]
        if f.size != e["size"]:
            out.append("FUNC %x: size %x, expected %x" % (a, f.size, e["size"]))
        if f.name != e["name"]:
            out.append("FUNC %x: name %r, expected %r (language %s, name %r, linkage name %r)" % (
                a, f.name, e["name"], e["cu"].lang, e["fn"].name, e["fn"].linkage))
        if f.multiple != e["multiple"]:
            out.append("FUNC %x: multiple=%s, expected %s" % (a, f.multiple, e["multiple"]))
        if f.psize != 0:
            out.append("FUNC %x: parameter size %x, expected 0" % (a, f.psize))
    return out, len(ex)


def locate(s, f, addr):
    l = f.line_at(addr)
    return None if l is None else (s.file(l[1]), l[0])


def frames(s, f, addr):
    """Inline stack a consumer reconstructs, innermost first."""
    ch = f.chain_at(addr)
    l = f.line_at(addr)
    loc = (s.file(l[1]), l[0]) if l else (None, None)
    out = []
    for d in sorted(ch, reverse=True):
        if len(ch[d]) != 1:
            out.append(("<%d calls at depth %d>" % (len(ch[d]), d), None, None))
        cl, cf, org = ch[d][0]
        out.append((s.origins.get(org),) + loc)
        loc = (s.file(cf), cl)
    if ch and sorted(ch) != list(range(len(ch))):
        out.append(("<depths %s>" % sorted(ch), None, None))
    out.append((None,) + loc)
    return out


def lines_noinl(m, s, stats=None):
    out, n = [], 0
    got = {f.addr: f for f in s.funcs}
    for a, e in m.expected_funcs().items():
        f = got.get(a)
        if f is None:
            out.append("no FUNC at %x" % a)
            continue
        for ad, t in m.truth_noinl(e):
            n += 1
            g = locate(s, f, ad)
            if g != t:
                out.append("address %x (function %s at %x): dump says %r, debug information says %r" % (ad, e["name"], a, g, t))
                break
        for la, lz, ln, fi in f.lines:
            if ln == 0:
                out.append("line record %x with line 0" % la)
                break
    return out, n


def lines_inl(m, s):
    out, n, depths = [], 0, set()
    got = {f.addr: f for f in s.funcs}
    for a, e in m.expected_funcs().items():
        f = got.get(a)
        if f is None:
            out.append("no FUNC at %x" % a)
            continue
        for ad, t in m.truth_inl(e):
            n += 1
            depths.add(len(t) - 1)
            g = frames(s, f, ad)
            if g != t:
                out.append("address %x (function %s at %x): dump says %r, debug information says %r" % (ad, e["name"], a, g, t))
                break
    return out, n, depths


def publics(m, s, place=True, **kw):
    """PUBLIC records against the symbol tables and section placeholders."""
    out = []
    exp, forb, unk = m.expected_publics(**kw)
    got = {p.addr: p for p in s.publics}
    rec = s.by_addr()
    funcs = m.expected_funcs() if kw.get("debug", True) else {}
    place = m.expected_placeholders(set(exp) | set(funcs) | unk) if place else {}
    for a in sorted(exp):
        name, mult = exp[a]
        p = got.get(a)
        if p is None:
            out.append("symbol %r at %x has no PUBLIC record (there: %r)" % (name, a, rec[a].name if a in rec else None))
            continue
        if p.name != name:
            out.append("PUBLIC %x: name %r, expected %r" % (a, p.name, name))
        if mult is not None and p.multiple != mult:
            out.append("PUBLIC %x: multiple=%s, expected %s" % (a, p.multiple, mult))
    for a in sorted(forb):
        if a in got:
            out.append("PUBLIC %x %r lies inside a function with debug information" % (a, got[a].name))
    for a, sec in sorted(place.items()):
        p = got.get(a)
        if p is None:
            out.append("executable section %s at %x has no placeholder (there: %r)" % (sec, a, rec[a].name if a in rec else None))
        elif not (p.name.startswith("<%s " % sec) and p.name.endswith(">")):
            out.append("PUBLIC %x: %r is not a placeholder for section %s" % (a, p.name, sec))
    for a in sorted(set(got) - set(exp) - set(place) - unk):
        if a in forb:
            continue
        out.append("PUBLIC %x %r matches no function symbol and no executable section start" % (a, got[a].name))
    return out, len(exp), len(place), len(forb)
