"""PE writer: full control over the debug directory, exports, exception table, DWARF sections."""
import struct

from .elf import Elf, dec

BASE = 0x180000000


def opts():
    """gen.Mod options for a PE with DWARF (MinGW style): the text section starts at base+0x2000."""
    return dict(base=BASE, pie=True, extra_exec=0, publics=0, symtab=0.0, fdes=True)


def win_abs(p):
    first = p
    for i, c in enumerate(p):
        if c in "/\\":
            first = p[:i]
            break
    return (first == "" and p != "") or first.endswith(":")


def win_join(left, right):
    left, right = left.rstrip("/\\"), right.lstrip("/\\")
    return left + ("/" if left.startswith("/") else "\\") + right


def win_path(cu, fidx):
    """FILE text of a DWARF file entry in a Windows module (never normalised)."""
    di, name = cu.files[fidx]
    d = cu.comp_dir if di == 0 else cu.dirs[di - 1]
    name, d, comp = dec(name), dec(d), dec(cu.comp_dir)
    if name and win_abs(name):
        return name
    if not win_abs(d):
        d = win_join(comp, d)
    return win_join(d, name)


class Pe:
    def __init__(self, m=None, machine=0x8664, timestamp=0x5f5e1000, pdb_path=None, guid=bytes(range(16)), age=1,
                 exports=(), pdata=None, dwarf=True, text_size=0x2000, dll_name=b"mod.dll", is_dll=True, entry=0x2000):
        """exports: [(name bytes, rva)]; pdata: [(lo, hi)] rvas, default: the FDEs of m."""
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def build(self):
        m = self.m
        text_rva = 0x2000
        tsize = m.execs[0][2] if m else self.text_size
        pdata = self.pdata if self.pdata is not None else ([(a - BASE, b - BASE) for a, b in m.fdes] if m else [])
        secs = [[b".text", text_rva, bytes((i * 37) & 255 for i in range(64)) + b"\x90" * (tsize - 64), 0x60000020]]
        rva = (text_rva + tsize + 0xfff) // 0x1000 * 0x1000
        dirs = [(0, 0)] * 16
        # .rdata: exports, debug directory, unwind info
        rd = bytearray()
        r0 = rva

        def put(b, align=4):
            while len(rd) % align:
                rd.append(0)
            p = r0 + len(rd)
            rd.extend(b)
            return p
        if self.exports:
            ex = sorted(self.exports)
            names = [put(n + b"\0", 1) for n, _ in ex]
            dn = put(self.dll_name + b"\0", 1)
            funcs = put(b"".join(struct.pack("<I", a) for _, a in ex))
            nt = put(b"".join(struct.pack("<I", p) for p in names))
            ot = put(b"".join(struct.pack("<H", i) for i in range(len(ex))))
            p = put(struct.pack("<IIHHIIIIIII", 0, 0, 0, 0, dn, 1, len(ex), len(ex), funcs, nt, ot))
            # the directory's extent decides what is a forwarder: keep it to the table itself
            dirs[0] = (p, 40)
        if self.pdb_path is not None:
            cv = b"RSDS" + self.guid + struct.pack("<I", self.age) + self.pdb_path + b"\0"
            pcv = put(cv)
            cvlen = len(cv)
        if pdata and self.machine == 0x8664:
            ui = put(bytes([1, 0, 0, 0]))
        if self.pdb_path is not None:
            pdir = put(struct.pack("<IIHHIIII", 0, self.timestamp, 0, 0, 2, cvlen, pcv, 0))
            fix = pdir - r0 + 24
            dirs[6] = (pdir, 28)
        if rd:
            secs.append([b".rdata", rva, bytes(rd), 0x40000040])
            rva = (rva + len(rd) + 0xfff) // 0x1000 * 0x1000
        if pdata and self.machine == 0x8664:
            pd = b"".join(struct.pack("<III", lo, hi, ui) for lo, hi in sorted(pdata))
            secs.append([b".pdata", rva, pd, 0x40000040])
            dirs[3] = (rva, len(pd))
            rva = (rva + len(pd) + 0xfff) // 0x1000 * 0x1000
        strtab = bytearray(4)
        if m and self.dwarf and m.cus:
            e = Elf(cus=m.cus, fdes=(), **dict(m.kw, base=BASE))
            e.E, e.asz = "<", 8 if self.machine == 0x8664 else 4
            for n, d in e._build_dwarf():
                off = len(strtab)
                strtab += n.encode() + b"\0"
                secs.append([b"/%d" % off, rva, d, 0x42000040])
                rva = (rva + len(d) + 0xfff) // 0x1000 * 0x1000
        struct.pack_into("<I", strtab, 0, len(strtab))
        x64 = self.machine != 0x14c
        opt_size = (112 if x64 else 96) + 16 * 8
        hsize = (0x80 + 4 + 20 + opt_size + 40 * len(secs) + 0x1ff) // 0x200 * 0x200
        body, heads = bytearray(), b""
        for n, a, d, fl in secs:
            raw = (len(d) + 0x1ff) // 0x200 * 0x200
            off = hsize + len(body)
            if n == b".rdata" and self.pdb_path is not None:
                d = bytearray(d)
                struct.pack_into("<I", d, fix, off + (pcv - r0))
                d = bytes(d)
            heads += struct.pack("<8sIIIIIIHHI", n, len(d), a, raw, off, 0, 0, 0, 0, fl)
            body += d + b"\0" * (raw - len(d))
        size_of_image = rva
        self.size_of_image = size_of_image
        dos = b"MZ" + b"\0" * 58 + struct.pack("<I", 0x80) + b"\0" * 0x40
        coff = struct.pack("<HHIIIHH", self.machine, len(secs), self.timestamp, hsize + len(body) if len(strtab) > 4 else 0, 0, opt_size,
                           0x2022 if self.is_dll else 0x22)
        if x64:
            opt = struct.pack("<HBBIIIII", 0x20b, 14, 0, tsize, 0, 0, self.entry, text_rva)
            opt += struct.pack("<QIIHHHHHHIIIIHHQQQQII", BASE, 0x1000, 0x200, 6, 0, 0, 0, 6, 0, 0, size_of_image, hsize, 0, 3, 0x160,
                               0x100000, 0x1000, 0x100000, 0x1000, 0, 16)
        else:
            opt = struct.pack("<HBBIIIIII", 0x10b, 14, 0, tsize, 0, 0, self.entry, text_rva, 0)
            opt += struct.pack("<IIIHHHHHHIIIIHHIIIIII", BASE & 0xffffffff or 0x10000000, 0x1000, 0x200, 6, 0, 0, 0, 6, 0, 0, size_of_image, hsize, 0, 3, 0x140,
                               0x100000, 0x1000, 0x100000, 0x1000, 0, 16)
        opt += b"".join(struct.pack("<II", a, b) for a, b in dirs)
        h = dos + b"PE\0\0" + coff + opt + heads
        h += b"\0" * (hsize - len(h))
        return h + bytes(body) + (bytes(strtab) if len(strtab) > 4 else b"")
