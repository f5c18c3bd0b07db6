"""Strict parser for Breakpad text symbol files, and a resolver over the parsed records."""
import bisect
import re

HEX = r"[0-9a-f]+"
RE_MODULE = re.compile(r"^MODULE (Linux|Mac|windows) ([A-Za-z0-9_]+) ([0-9A-F]{32}[0-9a-f]{1,8}) (.*)$")
RE_FILE = re.compile(r"^FILE (\d+) (.*)$")
RE_ORIGIN = re.compile(r"^INLINE_ORIGIN (\d+) (.*)$")
RE_FUNC = re.compile(r"^FUNC (m )?(%s) (%s) (%s) (.*)$" % (HEX, HEX, HEX))
RE_PUBLIC = re.compile(r"^PUBLIC (m )?(%s) (%s) (.*)$" % (HEX, HEX))
RE_LINE = re.compile(r"^(%s) (%s) (\d+) (\d+)$" % (HEX, HEX))
RE_INLINE = re.compile(r"^INLINE (\d+) (\d+) (\d+) (\d+)((?: %s %s)+)$" % (HEX, HEX))
RE_CFI_INIT = re.compile(r"^STACK CFI INIT (%s) (%s) (\S.*)$" % (HEX, HEX))
RE_CFI = re.compile(r"^STACK CFI (%s) (\S.*)$" % HEX)
RE_WIN = re.compile(r"^STACK WIN [04](?: %s){8} [01] \S.*$" % HEX)
CTRL = re.compile(r"[\x00-\x1f\x7f]")


class F:
    __slots__ = ("multiple", "addr", "size", "psize", "name", "lines", "inlines", "lineno")

    def __init__(self, m, a, s, p, n, ln):
        self.multiple, self.addr, self.size, self.psize, self.name, self.lineno = m, a, s, p, n, ln
        self.lines, self.inlines = [], []

    def line_at(self, addr):
        """(line, file id) of the record covering addr, or None."""
        for a, s, l, f in self.lines:
            if a <= addr < a + s:
                return (l, f)
        return None

    def chain_at(self, addr):
        """Inline frames covering addr by depth: {depth: [(call line, call file id, origin id)]}."""
        d = {}
        for depth, cl, cf, org, rs in self.inlines:
            if any(a <= addr < a + s for a, s in rs):
                d.setdefault(depth, []).append((cl, cf, org))
        return d


class P:
    __slots__ = ("multiple", "addr", "psize", "name", "lineno")

    def __init__(self, m, a, p, n, ln):
        self.multiple, self.addr, self.psize, self.name, self.lineno = m, a, p, n, ln


class Sym:
    def __init__(self):
        self.errors = []      # (line number, code, text)
        self.module = None    # (os, cpu, id, name)
        self.infos = []
        self.code_id = None   # (id, name or "")
        self.files = {}
        self.origins = {}
        self.records = []     # F and P, in order
        self.stack = []       # raw lines

    @property
    def funcs(self):
        return [r for r in self.records if isinstance(r, F)]

    @property
    def publics(self):
        return [r for r in self.records if isinstance(r, P)]

    def by_addr(self):
        return {r.addr: r for r in self.records}

    def file(self, i):
        return self.files.get(i)

    def resolve(self, addr):
        """What a consumer prints for addr: record covering it (FUNC by range, else nearest)."""
        keys = [r.addr for r in self.records]
        i = bisect.bisect_right(keys, addr) - 1
        return self.records[i] if i >= 0 else None


SECTION = {"MODULE": 0, "INFO": 1, "FILE": 2, "INLINE_ORIGIN": 3, "REC": 4, "STACK": 5}


def parse(data):
    s = Sym()

    def err(n, code, text):
        if len(s.errors) < 50:
            s.errors.append((n, code, text[:200]))

    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError as e:
        err(0, "utf8", str(e))
        text = data.decode("utf-8", "replace")
    if not text:
        err(0, "empty", "no output")
        return s
    if not text.endswith("\n"):
        err(0, "unterminated", "the last line has no end")
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    section = -1
    cur = None

    def enter(n, name, line):
        nonlocal section
        k = SECTION[name]
        if k < section:
            err(n, "order", line)
        section = max(section, k)

    for n, line in enumerate(lines, 1):
        if CTRL.search(line):
            err(n, "control", repr(line))
        if n == 1:
            m = RE_MODULE.match(line)
            if not m:
                err(n, "module", line)
            else:
                s.module = m.groups()
                if not m.group(4).strip():
                    err(n, "module-name", line)
            section = 0
            continue
        if line.startswith("INFO "):
            enter(n, "INFO", line)
            s.infos.append(line[5:])
            if line.startswith("INFO CODE_ID "):
                p = line[13:].split(" ", 1)
                if s.code_id is not None:
                    err(n, "dup-code-id", line)
                if not re.match(r"^[0-9A-F]+$", p[0]):
                    err(n, "code-id", line)
                s.code_id = (p[0], p[1] if len(p) > 1 else "")
            elif not line[5:].strip():
                err(n, "info", line)
            cur = None
        elif line.startswith("FILE "):
            enter(n, "FILE", line)
            m = RE_FILE.match(line)
            if not m or not m.group(2).strip():
                err(n, "file", line)
            if m:
                i = int(m.group(1))
                if i != len(s.files):
                    err(n, "file-id", line)
                s.files[i] = m.group(2)
            cur = None
        elif line.startswith("INLINE_ORIGIN "):
            enter(n, "INLINE_ORIGIN", line)
            m = RE_ORIGIN.match(line)
            if not m or not m.group(2).strip():
                err(n, "origin", line)
            if m:
                i = int(m.group(1))
                if i != len(s.origins):
                    err(n, "origin-id", line)
                s.origins[i] = m.group(2)
            cur = None
        elif line.startswith("FUNC "):
            enter(n, "REC", line)
            m = RE_FUNC.match(line)
            if not m:
                err(n, "func", line)
                cur = None
                continue
            if not m.group(5).strip():
                err(n, "func-name", line)
            cur = F(bool(m.group(1)), int(m.group(2), 16), int(m.group(3), 16), int(m.group(4), 16), m.group(5), n)
            s.records.append(cur)
        elif line.startswith("PUBLIC "):
            enter(n, "REC", line)
            m = RE_PUBLIC.match(line)
            cur = None
            if not m:
                err(n, "public", line)
                continue
            if not m.group(4).strip():
                err(n, "public-name", line)
            s.records.append(P(bool(m.group(1)), int(m.group(2), 16), int(m.group(3), 16), m.group(4), n))
        elif line.startswith("INLINE "):
            m = RE_INLINE.match(line)
            if not m:
                err(n, "inline", line)
                continue
            if cur is None:
                err(n, "inline-outside-func", line)
                continue
            if cur.lines:
                err(n, "inline-after-line", line)
            v = m.group(5).split()
            cur.inlines.append((int(m.group(1)), int(m.group(2)), int(m.group(3)), int(m.group(4)),
                                [(int(v[k], 16), int(v[k + 1], 16)) for k in range(0, len(v), 2)]))
        elif line.startswith("STACK "):
            enter(n, "STACK", line)
            cur = None
            if not (RE_CFI_INIT.match(line) or RE_CFI.match(line) or RE_WIN.match(line)):
                err(n, "stack", line)
            s.stack.append(line)
        else:
            m = RE_LINE.match(line)
            if not m:
                err(n, "unknown-record", line)
                continue
            if cur is None:
                err(n, "line-outside-func", line)
                continue
            cur.lines.append((int(m.group(1), 16), int(m.group(2), 16), int(m.group(3)), int(m.group(4))))
    if s.module is None:
        err(1, "module", "no MODULE record")
    return s


def grammar_errors(s):
    """Errors of form (C01); numbering errors belong to referential integrity (C02)."""
    return [e for e in s.errors if e[1] not in ("file-id", "origin-id")]


def integrity_errors(s, inlines, refs_only=False, mapped=False):
    """Cross-record rules: numbering, references, ordering, overlap, nesting. refs_only: those which hold for damaged
    debug information too. mapped: path mappings may send two files to one name."""
    out = ["line %d: %s: %s" % e for e in s.errors if e[1] in ("file-id", "origin-id")]

    def bad(msg):
        if len(out) < 20:
            out.append(msg)

    if not mapped and len(set(s.files.values())) != len(s.files):
        dup = [v for v in set(s.files.values()) if list(s.files.values()).count(v) > 1]
        bad("several FILE records name the same file: %r" % dup[:3])
    prev = None
    for r in s.records:
        if prev is not None and r.addr <= prev:
            bad("line %d: record address %x not greater than the previous %x" % (r.lineno, r.addr, prev))
        prev = r.addr
    if not inlines and s.origins:
        bad("INLINE_ORIGIN without inlines requested")
    used = set()
    for f in s.funcs:
        if f.inlines and not inlines:
            bad("INLINE without inlines requested (FUNC %x)" % f.addr)
        pa = None
        for a, z, l, fid in f.lines:
            if fid not in s.files:
                bad("FUNC %x: line record %x refers to undefined file %d" % (f.addr, a, fid))
            if pa is not None and a < pa[0] and not refs_only:
                bad("FUNC %x: line records out of order at %x" % (f.addr, a))
            if pa is not None and pa[0] + pa[1] > a and not refs_only:
                bad("FUNC %x: line records overlap at %x" % (f.addr, a))
            pa = (a, z)
        first = [rs[0][0] for d, cl, cf, org, rs in f.inlines if rs]
        if first != sorted(first) and not refs_only:
            bad("FUNC %x: INLINE records out of order" % f.addr)
        depths = {}
        for d, cl, cf, org, rs in f.inlines:
            if cf not in s.files:
                bad("FUNC %x: INLINE refers to undefined file %d" % (f.addr, cf))
            if org not in s.origins:
                bad("FUNC %x: INLINE refers to undefined origin %d" % (f.addr, org))
            used.add(org)
            pr = None
            for a, z in rs:
                if refs_only:
                    continue
                if z == 0:
                    bad("FUNC %x: empty INLINE range at %x" % (f.addr, a))
                if pr is not None and a < pr:
                    bad("FUNC %x: INLINE ranges out of order or overlapping at %x" % (f.addr, a))
                pr = a + z
                depths.setdefault(d, []).append((a, a + z))
        for d in sorted(depths):
            rs = sorted(depths[d])
            for x, y in zip(rs, rs[1:]):
                if y[0] < x[1]:
                    bad("FUNC %x: two inlined calls at depth %d overlap at %x" % (f.addr, d, y[0]))
            if d == 0:
                for x in rs:
                    if x[0] < f.addr or x[1] > f.addr + f.size:
                        bad("FUNC %x: inlined call [%x,%x) outside the function" % (f.addr, x[0], x[1]))
            else:
                par = sorted(depths.get(d - 1, []))
                # union of the parents' ranges
                un = []
                for a, b in par:
                    if un and a <= un[-1][1]:
                        un[-1] = (un[-1][0], max(b, un[-1][1]))
                    else:
                        un.append((a, b))
                for x in rs:
                    if not any(a <= x[0] and x[1] <= b for a, b in un):
                        bad("FUNC %x: inlined call [%x,%x) at depth %d has no enclosing call at depth %d" % (f.addr, x[0], x[1], d, d - 1))
    return out


def canon(s, placeholders=True):
    """Normal form of a dump, independent of file and origin ids and of the file name inside placeholders."""
    recs = []
    for r in s.records:
        if isinstance(r, F):
            recs.append(("FUNC", r.multiple, r.addr, r.size, r.psize, r.name,
                         tuple((a, z, l, s.file(f)) for a, z, l, f in r.lines),
                         tuple(sorted((d, cl, s.file(cf), s.origins.get(o), tuple(rs)) for d, cl, cf, o, rs in r.inlines))))
        else:
            n = r.name
            if re.match(r"^<(.* ELF section|unknown) in .*>$", n):
                if not placeholders:
                    continue
                n = n.rsplit(" in ", 1)[0]
            recs.append(("PUBLIC", r.multiple, r.addr, r.psize, n))
    return {"module": s.module, "infos": s.infos, "files": sorted(s.files.values()), "records": recs, "stack": s.stack,
            "origins": sorted(set(s.origins.values()))}


def diff(a, b, na="first", nb="second", only=None):
    """Differences of two canon() forms."""
    out = []
    for k in ("module", "infos", "files", "origins", "stack"):
        if only and k not in only:
            continue
        if a[k] != b[k]:
            if isinstance(a[k], list):
                x, y = [v for v in a[k] if v not in b[k]], [v for v in b[k] if v not in a[k]]
                out.append("%s: only in %s: %r; only in %s: %r%s" % (k, na, x[:3], nb, y[:3], "" if x or y else " (order or repetition differs: %d/%d)" % (len(a[k]), len(b[k]))))
            else:
                out.append("%s: %s %r, %s %r" % (k, na, a[k], nb, b[k]))
    if not only or "records" in only:
        ra, rb = {r[2]: r for r in a["records"]}, {r[2]: r for r in b["records"]}
        for ad in sorted(set(ra) | set(rb)):
            x, y = ra.get(ad), rb.get(ad)
            if x != y:
                out.append("record at %x: %s %r, %s %r" % (ad, na, x and (x[:6]), nb, y and (y[:6])) + (
                    "" if not (x and y and x[:6] == y[:6]) else " lines/inlines differ: %r / %r" % (x[6:], y[6:])))
        if len(a["records"]) != len(ra) or len(b["records"]) != len(rb):
            out.append("repeated addresses")
    return out
