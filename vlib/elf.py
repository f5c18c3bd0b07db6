"""ELF + DWARF writer with ground truth.

Everything the debug information says is chosen by us, so the expected answer for
each address (leaf line, inline chain, function, symbol) is known without any DWARF reader.
"""
import bisect
import struct

EM = {"x86_64": 62, "x86": 3, "arm": 40, "arm64": 183, "ppc": 20, "ppc64": 21, "mips": 8}
LANG = {"c": 0x000c, "c89": 0x0001, "cpp": 0x0004, "cpp14": 0x0021, "rust": 0x001c, "go": 0x16, "unknown": None, "c_": 0x0002,
        "c11": 0x001d, "cpp11": 0x001a, "cpp03": 0x0019, "d": 0x0013, "objc": 0x0010, "objcpp": 0x0011, "swift": 0x001e, "cpp17": 0x002b, "c17": 0x002c, "fortran": 0x0008}


class Inl:
    def __init__(self, origin, ranges, call_file, call_line, children=None):
        self.origin, self.ranges = origin, ranges
        self.call_file, self.call_line = call_file, call_line
        self.children = children or []


class Func:
    def __init__(self, ranges, rows, inlines=(), name=None, linkage=None, block=False):
        self.ranges, self.rows, self.inlines = ranges, rows, list(inlines)
        self.name, self.linkage, self.block = name, linkage, block

    @property
    def lo(self):
        return min(r[0] for r in self.ranges)


class CU:
    """files: list of (dir_index, name bytes); dir_index 0 = the compilation directory,
    k >= 1 = dirs[k-1]. abstracts: list of dict(name=, linkage=)."""

    def __init__(self, comp_dir=b"/nonexist/build", name=b"cu.c", lang="c", version=4,
                 dirs=(), files=(), abstracts=(), funcs=(), one_seq=False):
        self.comp_dir, self.name, self.lang, self.version = comp_dir, name, lang, version
        self.dirs, self.files = list(dirs), list(files)
        self.abstracts, self.funcs = list(abstracts), list(funcs)
        self.one_seq = one_seq
        self.damage = None        # abbrev, stmt, size: what makes this unit unreadable


class Sym:
    def __init__(self, name, addr, size=0, typ=2, bind=1, sec=".text"):
        self.name, self.addr, self.size, self.typ, self.bind, self.sec = name, addr, size, typ, bind, sec


def uleb(v):
    out = bytearray()
    while True:
        b = v & 0x7f
        v >>= 7
        if v:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def sleb(v):
    out = bytearray()
    while True:
        b = v & 0x7f
        v >>= 7
        if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


class Elf:
    def __init__(self, cus=(), syms=(), dynsyms=(), soname=None, build_id=None, bits=64,
                 little=True, machine="x86_64", etype=3, base=0, execs=((".text", 0x1000, 0x1000),),
                 fdes=(), debugdata=None, interp=False, text_seed=1, compress=False, strip=None,
                 debug_frame=False, extra_sections=(), gap=0, cfi={}):
        """execs: executable sections (name, addr, size), absolute addresses (base included).
        strip: None = full, 'stripped' = no debug/symtab, 'debug' = only-keep-debug."""
        self.__dict__.update(locals())
        del self.__dict__["self"]

    # ---------------------------------------------------------------- DWARF
    def _addr(self, v):
        return struct.pack(self.E + ("Q" if self.bits == 64 else "I"), v)

    def _u(self, fmt, *v):
        return struct.pack(self.E + fmt, *v)

    def _line_program(self, cu):
        v = cu.version
        std = bytes([0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1])
        hdr = self._u("B", 1)
        hdr += self._u("B", 1)  # max ops (v4+)
        hdr += self._u("B", 1) + struct.pack("b", -5) + self._u("B", 14) + self._u("B", 13) + std
        if v == 4:
            for d in cu.dirs:
                hdr += d + b"\0"
            hdr += b"\0"
            for di, n in cu.files:
                hdr += n + b"\0" + uleb(di) + uleb(0) + uleb(0)
            hdr += b"\0"
        else:
            # directory_entry_format: path DW_FORM_string
            hdr += bytes([1]) + uleb(1) + uleb(0x08)
            dirs = [cu.comp_dir] + cu.dirs
            hdr += uleb(len(dirs)) + b"".join(d + b"\0" for d in dirs)
            hdr += bytes([2]) + uleb(1) + uleb(0x08) + uleb(2) + uleb(0x0b)
            hdr += uleb(len(cu.files)) + b"".join(n + b"\0" + bytes([di]) for di, n in cu.files)
        prog = bytearray()
        off = 1 if v == 4 else 0

        state = None

        def begin(addr):
            nonlocal state
            prog.extend(b"\0" + uleb(1 + self.asz) + b"\x02" + self._addr(addr))
            state = [addr, 1, 1]

        def row(addr, f, line):
            nonlocal state
            if addr != state[0]:
                prog.extend(b"\x02" + uleb(addr - state[0]))
            if f + off != state[1]:
                prog.extend(b"\x04" + uleb(f + off))
            if line != state[2]:
                prog.extend(b"\x03" + sleb(line - state[2]))
            prog.extend(b"\x01")
            state = [addr, f + off, line]

        def end(addr):
            if addr != state[0]:
                prog.extend(b"\x02" + uleb(addr - state[0]))
            prog.extend(b"\0\x01\x01")

        pieces = []
        for fn in cu.funcs:
            for lo, hi in fn.ranges:
                rows = [r for r in fn.rows if lo <= r[0] < hi]
                if rows:
                    pieces.append((lo, hi, rows))
        pieces.sort(key=lambda p: p[0])
        if cu.one_seq and pieces:
            begin(pieces[0][0])
            for lo, hi, rows in pieces:
                for r in rows:
                    row(*r)
            end(pieces[-1][1])
        else:
            for lo, hi, rows in pieces:
                begin(lo)
                for r in rows:
                    row(*r)
                end(hi)
        body = self._u("H", v)
        if v == 5:
            body += bytes([self.asz, 0])
        body += self._u("I", len(hdr)) + hdr + bytes(prog)
        return self._u("I", len(body)) + body

    def _build_dwarf(self):
        A = bytearray()

        def ab(code, tag, children, attrs):
            A.extend(uleb(code) + uleb(tag) + bytes([children]))
            for a, f in attrs:
                A.extend(uleb(a) + uleb(f))
            A.extend(b"\0\0")

        ADDR, STR, D2, D8, SEC, REF4, UD, D1 = 0x01, 0x08, 0x05, 0x07, 0x17, 0x13, 0x0f, 0x0b
        cu_base = [(0x25, STR), (0x13, D2), (0x03, STR), (0x1b, STR), (0x10, SEC), (0x11, ADDR), (0x55, SEC)]
        ab(1, 0x11, 1, cu_base)
        ab(2, 0x2e, 0, [(0x03, STR), (0x20, D1)])
        ab(3, 0x2e, 0, [(0x03, STR), (0x6e, STR), (0x20, D1)])
        for code, names in ((10, []), (11, [(0x03, STR)]), (12, [(0x6e, STR)]), (13, [(0x03, STR), (0x6e, STR)])):
            ab(code, 0x2e, 1, names + [(0x11, ADDR), (0x12, D8)])
            ab(code + 10, 0x2e, 1, names + [(0x55, SEC)])
        ab(30, 0x1d, 1, [(0x31, REF4), (0x58, UD), (0x59, UD), (0x11, ADDR), (0x12, D8)])
        ab(31, 0x1d, 1, [(0x31, REF4), (0x58, UD), (0x59, UD), (0x55, SEC)])
        ab(40, 0x0b, 1, [])
        ab(4, 0x2e, 0, [(0x20, D1)])
        A.extend(b"\0")
        info, line, ranges4, ranges5 = bytearray(), bytearray(), bytearray(), bytearray()
        ranges5.extend(self._u("I", 0) + self._u("H", 5) + bytes([self.asz, 0]) + self._u("I", 0))

        def add_ranges(v, rs):
            if v == 4:
                o = len(ranges4)
                for lo, hi in rs:
                    ranges4.extend(self._addr(lo) + self._addr(hi))
                ranges4.extend(self._addr(0) * 2)
                return o
            o = len(ranges5)
            for lo, hi in rs:
                ranges5.extend(b"\x06" + self._addr(lo) + self._addr(hi))
            ranges5.extend(b"\0")
            return o

        for cu in self.cus:
            v = cu.version
            start = len(info)
            b = bytearray()
            hdrlen = 4 + (2 + 4 + 1 if v == 4 else 2 + 1 + 1 + 4)
            lang = LANG[cu.lang]
            line_off = len(line)
            line.extend(self._line_program(cu))
            all_ranges = [r for f in cu.funcs for r in f.ranges]
            b += uleb(77 if cu.damage == "abbrev" else 1) + b"vgen\0" + self._u("H", lang if lang is not None else 0x8765) + cu.name + b"\0" + cu.comp_dir + b"\0"
            b += self._u("I", 0x7fffffff if cu.damage == "stmt" else line_off) + self._addr(0) + self._u("I", add_ranges(v, all_ranges))
            origin_off = []
            for a in cu.abstracts:
                origin_off.append(hdrlen + len(b))
                if a.get("name") is None:
                    b += uleb(4) + b"\x01"
                elif a.get("linkage") is not None:
                    b += uleb(3) + a["name"] + b"\0" + a["linkage"] + b"\0" + b"\x01"
                else:
                    b += uleb(2) + a["name"] + b"\0" + b"\x01"
            foff = 1 if v == 4 else 0

            def emit_inl(i):
                nonlocal b
                if len(i.ranges) == 1:
                    lo, hi = i.ranges[0]
                    b += uleb(30) + self._u("I", origin_off[i.origin]) + uleb(i.call_file + foff) + uleb(i.call_line)
                    b += self._addr(lo) + self._u("Q", hi - lo)
                else:
                    b += uleb(31) + self._u("I", origin_off[i.origin]) + uleb(i.call_file + foff) + uleb(i.call_line)
                    b += self._u("I", add_ranges(v, i.ranges))
                for c in i.children:
                    emit_inl(c)
                b += b"\0"

            for f in cu.funcs:
                code = 10 + (1 if f.name is not None else 0) + (2 if f.linkage is not None else 0)
                if len(f.ranges) > 1:
                    code += 10
                b += uleb(code)
                if f.name is not None:
                    b += f.name + b"\0"
                if f.linkage is not None:
                    b += f.linkage + b"\0"
                if len(f.ranges) > 1:
                    b += self._u("I", add_ranges(v, f.ranges))
                else:
                    lo, hi = f.ranges[0]
                    b += self._addr(lo) + self._u("Q", 2**64 - 1 if cu.damage == "size" and f is cu.funcs[0] else hi - lo)
                if f.block and f.inlines:
                    b += uleb(40)
                for i in f.inlines:
                    emit_inl(i)
                if f.block and f.inlines:
                    b += b"\0"
                if getattr(f, "nest", 0):
                    # so many calls inlined in each other
                    one = uleb(30) + self._u("I", origin_off[0]) + uleb(foff) + uleb(7) + self._addr(f.ranges[0][0]) + self._u("Q", 1)
                    b += one * f.nest + b"\0" * f.nest
                b += b"\0"
            b += b"\0"
            if v == 4:
                h = self._u("H", 4) + self._u("I", 0) + bytes([self.asz])
            else:
                h = self._u("H", 5) + bytes([1, self.asz]) + self._u("I", 0)
            info.extend(self._u("I", len(h) + len(b)) + h + b)
            assert len(info) - start == hdrlen + len(b)
        ranges5[0:4] = self._u("I", len(ranges5) - 4)
        out = [(".debug_abbrev", bytes(A)), (".debug_info", bytes(info)), (".debug_line", bytes(line))]
        if ranges4:
            out.append((".debug_ranges", bytes(ranges4)))
        if len(ranges5) > 12:
            out.append((".debug_rnglists", bytes(ranges5)))
        return out

    def _cfi_program(self, rows):
        """rows = [(offset, changes)], changes = {"cfa": (reg, off), reg: ("at", off) | ("is", off) | ("same",) | ("reg", other)}, offsets multiples of 8."""
        f, at = b"", 0
        for off, changes in rows:
            d = off - at
            if d:
                f += bytes([0x40 | d]) if d < 0x40 else b"\x02" + bytes([d]) if d < 256 else b"\x03" + self._u("H", d) if d < 65536 else b"\x04" + self._u("I", d)
            at = off
            for r, v in changes.items():
                if r == "cfa":
                    f += b"\x0c" + uleb(v[0]) + uleb(v[1])
                elif v[0] == "at":
                    n = v[1] // -8
                    f += b"\x11" + uleb(r) + sleb(n) if n < 0 else bytes([0x80 | r]) + uleb(n) if r < 64 else b"\x05" + uleb(r) + uleb(n)
                elif v[0] == "is":
                    f += b"\x15" + uleb(r) + sleb(v[1] // -8)
                elif v[0] == "same":
                    f += b"\x08" + uleb(r)
                else:
                    f += b"\x09" + uleb(r) + uleb(v[1])
        return f

    def _eh_frame(self):
        """CIE + FDEs (x86-64 conventions)."""
        def pad(b):
            while (len(b) + 4) % 8:
                b += b"\0"
            return b
        out = bytearray()
        cid = b"\xff\xff\xff\xff" if self.debug_frame else self._u("I", 0)
        cie = cid + b"\x01" + b"\0" + uleb(1) + sleb(-8) + bytes([16])
        cie += b"\x0c" + uleb(7) + uleb(8) + b"\x90" + uleb(1)
        cie = pad(cie)
        out += self._u("I", len(cie)) + cie
        for lo, hi in self.fdes:
            pos = len(out) + 4
            ptr = self._u("I", 0) if self.debug_frame else self._u("I", pos)
            f = ptr + self._addr(lo) + self._addr(hi - lo)
            rows = self.cfi.get((lo, hi))
            if rows is not None:
                f += self._cfi_program(rows)
            elif hi - lo > 1:
                f += b"\x41" + b"\x0e" + uleb(16)
            f = pad(f)
            out += self._u("I", len(f)) + f
        if not self.debug_frame:
            out += self._u("I", 0)
        return bytes(out)

    # ---------------------------------------------------------------- ELF
    def build(self):
        self.E = "<" if self.little else ">"
        self.asz = 8 if self.bits == 64 else 4
        import random
        import zlib
        rnd = random.Random(self.text_seed)
        b64 = self.bits == 64
        ehsize, phsize, shsize = (64, 56, 64) if b64 else (52, 32, 40)
        base = self.base
        gap = self.gap       # execs lie that much above their file offset, in a segment of their own
        nph = 1 + (1 if gap else 0) + (1 if self.build_id is not None else 0) + (1 if self.soname is not None or self.dynsyms else 0) + (1 if self.interp else 0)
        sections = []  # name,type,flags,addr,data|size,link,info,align,entsize
        secidx = {}

        def add(name, typ, flags, addr, data, link=0, info=0, align=1, entsize=0, nobits=None):
            secidx[name] = len(sections) + 1
            sections.append([name, typ, flags, addr, data, link, info, align, entsize, nobits])

        cursor = base + ehsize + nph * phsize
        phdrs = []

        def alloc(name, typ, flags, data, align=8, **kw):
            nonlocal cursor
            cursor = (cursor + align - 1) // align * align
            a = cursor
            add(name, typ, flags, a, data, align=align, **kw)
            cursor += len(data)
            return a

        if self.interp:
            a = alloc(".interp", 1, 2, b"/lib64/ld-linux-x86-64.so.2\0", align=1)
            phdrs.append((3, 4, a, len(b"/lib64/ld-linux-x86-64.so.2\0")))
        if self.build_id is not None:
            note = self._u("III", 4, len(self.build_id), 3) + b"GNU\0" + self.build_id
            note += b"\0" * (-len(note) % 4)
            a = alloc(".note.gnu.build-id", 7, 2, note, align=4)
            phdrs.append((4, 4, a, len(note)))
        execs = list(self.execs)
        exec_index_base = None
        dyn_needed = self.soname is not None or self.dynsyms
        # section numbers of the executable sections must be known for symbols: reserve
        n_before = len(sections) + (5 if dyn_needed else 0)
        for k, (n, a, s) in enumerate(execs):
            secidx[n] = n_before + 1 + k

        def symtab(syms):
            strtab = bytearray(b"\0")
            body = bytearray(struct.pack("24x" if b64 else "16x"))
            ordered = sorted(syms, key=lambda s: 0 if s.bind == 0 else 1)
            nlocal = 1 + sum(1 for s in syms if s.bind == 0)
            for s in ordered:
                if s.name is None:
                    off = 0
                else:
                    off = len(strtab)
                    strtab += s.name + b"\0"
                shndx = secidx[s.sec] if isinstance(s.sec, str) else s.sec
                if b64:
                    body += self._u("IBBHQQ", off, (s.bind << 4) | s.typ, 0, shndx, s.addr, s.size)
                else:
                    body += self._u("IIIBBH", off, s.addr, s.size, (s.bind << 4) | s.typ, 0, shndx)
            return bytes(body), bytes(strtab), nlocal

        if dyn_needed:
            body, strtab, nlocal = symtab(list(self.dynsyms))
            strtab = bytearray(strtab)
            so_off = 0
            if self.soname is not None:
                so_off = len(strtab)
                strtab += self.soname + b"\0"
            nsyms = len(self.dynsyms) + 1
            hasht = self._u("II", 1, nsyms) + self._u("I", 1 if nsyms > 1 else 0) + b"".join(
                self._u("I", i + 1 if 0 < i < nsyms - 1 else 0) for i in range(nsyms))
            i0 = len(sections)
            a_sym = alloc(".dynsym", 11, 2, body, link=i0 + 2, info=nlocal, entsize=24 if b64 else 16)
            a_str = alloc(".dynstr", 3, 2, bytes(strtab), align=1)
            a_hash = alloc(".hash", 5, 2, hasht, link=i0 + 1, entsize=4)
            ents = []
            if self.soname is not None:
                ents.append((14, so_off))
            ents += [(4, a_hash), (5, a_str), (6, a_sym), (10, len(strtab)), (11, 24 if b64 else 16), (0, 0)]
            dyn = b"".join(self._u("qQ" if b64 else "iI", t, v) for t, v in ents)
            a = alloc(".dynamic", 6, 3, dyn, link=i0 + 2, entsize=16 if b64 else 8)
            phdrs.append((2, 6, a, len(dyn)))
            alloc(".vpad", 1, 2, b"\0\0\0\0", align=4)
        assert len(sections) == n_before
        for n, a, s in execs:
            assert a >= cursor, (n, hex(a), hex(cursor))
            add(n, 1, 6, a, bytes(rnd.randrange(256) for _ in range(min(s, 64))) + b"\x90" * max(0, s - 64), align=16)
            cursor = a + s
        if self.fdes and not self.debug_frame:
            alloc(".eh_frame", 1, 2, self._eh_frame())
        load_end = cursor
        if self.fdes and self.debug_frame:
            add(".debug_frame", 1, 0, 0, self._eh_frame())
        if self.cus:
            for n, d in self._build_dwarf():
                if self.compress and len(d) > 64:
                    z = zlib.compress(d)
                    h = self._u("IIQQ", 1, 0, len(d), 1) if b64 else self._u("III", 1, len(d), 1)
                    add(n, 1, 0x800, 0, h + z)
                else:
                    add(n, 1, 0, 0, d)
        if self.debugdata is not None:
            add(".gnu_debugdata", 1, 0, 0, self.debugdata)
        for n, d, *x in self.extra_sections:
            add(n, 1, x[0] if x else 0, x[1] if x else 0, d)
        if self.syms:
            body, strtab, nlocal = symtab(list(self.syms))
            add(".symtab", 2, 0, 0, body, link=len(sections) + 2, info=nlocal, entsize=24 if b64 else 16, align=8)
            add(".strtab", 3, 0, 0, strtab)
        shstr = bytearray(b"\0")
        names = []
        for s in sections + [[".shstrtab"]]:
            names.append(len(shstr))
            shstr += s[0].encode() + b"\0"
        add(".shstrtab", 3, 0, 0, bytes(shstr))
        # layout
        img = bytearray(load_end - base - gap)
        first_exec = min(a for n, a, s in execs)
        tail = bytearray()
        offs = []
        for s in sections:
            if s[2] & 2 and s[3] >= base:
                o = s[3] - base - (gap if s[3] >= first_exec else 0)
                img[o:o + len(s[4])] = s[4]
                offs.append(o)
            else:
                offs.append(None)
        for k, s in enumerate(sections):
            if offs[k] is None:
                while (len(img) + len(tail)) % 8:
                    tail += b"\0"
                offs[k] = len(img) + len(tail)
                tail += s[4]
        while (len(img) + len(tail)) % 8:
            tail += b"\0"
        shoff = len(img) + len(tail)
        ph = bytearray()

        def emit_ph(t, fl, off, va, sz, al):
            nonlocal ph
            if b64:
                ph += self._u("IIQQQQQQ", t, fl, off, va, va, sz, sz, al)
            else:
                ph += self._u("IIIIIIII", t, off, va, va, sz, sz, fl, al)

        if gap:
            emit_ph(1, 4, 0, base, first_exec - gap - base, 0x1000)
            emit_ph(1, 5, first_exec - gap - base, first_exec, load_end - first_exec, 0x1000)
        else:
            emit_ph(1, 5, 0, base, load_end - base, 0x1000)
        for t, fl, a, sz in phdrs:
            emit_ph(t, fl, a - base, a, sz, 4)
        assert len(ph) == nph * phsize
        ident = b"\x7fELF" + bytes([2 if b64 else 1, 1 if self.little else 2, 1, 0]) + b"\0" * 8
        nsh = len(sections) + 1
        if b64:
            eh = ident + self._u("HHIQQQIHHHHHH", self.etype, EM[self.machine], 1, 0, ehsize, shoff, 0, ehsize, phsize, nph, shsize, nsh, nsh - 1)
        else:
            eh = ident + self._u("HHIIIIIHHHHHH", self.etype, EM[self.machine], 1, 0, ehsize, shoff, 0, ehsize, phsize, nph, shsize, nsh, nsh - 1)
        img[0:ehsize] = eh
        img[ehsize:ehsize + len(ph)] = ph
        sh = bytearray(shsize)
        for k, s in enumerate(sections):
            args = (names[k], s[1], s[2], s[3], offs[k], len(s[4]), s[5], s[6], s[7], s[8])
            sh += self._u("IIQQQQIIQQ" if b64 else "IIIIIIIIII", *args)
        return bytes(img) + bytes(tail) + bytes(sh)


# -------------------------------------------------------------------- ground truth
def row_at(fn, addr):
    best = None
    if len(fn.rows) > 300 and len(fn.ranges) == 1:
        # sorted by address
        lo, hi = fn.ranges[0]
        k = bisect.bisect_right(fn.rows, addr, key=lambda r: r[0])
        return fn.rows[k - 1] if k and lo <= addr < hi else None
    for r in fn.rows:
        if r[0] <= addr and (best is None or r[0] >= best[0]):
            # rows never cross the range they were emitted for
            lo, hi = next((x for x in fn.ranges if x[0] <= r[0] < x[1]))
            if lo <= addr < hi:
                best = r
    return best


def chain_at(fn, addr):
    """Inline chain at addr, outermost first: list of Inl."""
    out, level = [], fn.inlines
    while True:
        nxt = next((i for i in level if any(lo <= addr < hi for lo, hi in i.ranges)), None)
        if nxt is None:
            return out
        out.append(nxt)
        level = nxt.children


def normalize(p):
    """Lexical normalisation of an absolute path."""
    parts = []
    for c in p.split("/"):
        if c in ("", "."):
            continue
        if c == "..":
            if parts:
                parts.pop()
        else:
            parts.append(c)
    return "/" + "/".join(parts)


def dec(b):
    return b.decode("utf-8", "replace")


def file_path(cu, fidx):
    di, name = cu.files[fidx]
    d = cu.comp_dir if di == 0 else cu.dirs[di - 1]
    name, d, comp = dec(name), dec(d), dec(cu.comp_dir)
    if name.startswith("/"):
        p = name
    elif d.startswith("/"):
        p = d + "/" + name
    else:
        p = comp + "/" + d + "/" + name
    return normalize(p)


def raw_path(cu, fidx):
    """The path of a module of another platform: joined, not normalised."""
    di, name = cu.files[fidx]
    d = cu.comp_dir if di == 0 else cu.dirs[di - 1]
    name, d, comp = dec(name), dec(d), dec(cu.comp_dir)
    if name.startswith("/"):
        return name
    if not d.startswith("/"):
        d = comp.rstrip("/") + "/" + d.lstrip("/")
    return d.rstrip("/") + "/" + name


def headers_first(b):
    """A 64-bit little-endian ELF file with its section headers in front of the sections."""
    b = bytearray(b)
    phoff, shoff = struct.unpack_from("<QQ", b, 32)
    phsize, phnum, shsize, shnum = struct.unpack_from("<HHHH", b, 54)
    sh = bytearray(b[shoff:shoff + shsize * shnum])
    at = phoff + phsize * phnum
    delta = (len(sh) + 0xfff) & ~0xfff
    for k in range(phnum):
        o, = struct.unpack_from("<Q", b, phoff + k * phsize + 8)
        if o >= at:
            struct.pack_into("<Q", b, phoff + k * phsize + 8, o + delta)
    for k in range(shnum):
        o, = struct.unpack_from("<Q", sh, k * shsize + 24)
        if o >= at:
            struct.pack_into("<Q", sh, k * shsize + 24, o + delta)
    struct.pack_into("<Q", b, 40, at)
    return bytes(b[:at] + sh + bytes(delta - len(sh)) + b[at:shoff])
