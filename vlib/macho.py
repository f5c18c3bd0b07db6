"""Mach-O writer: wraps the DWARF of a gen.Mod into a thin 64-bit Mach-O image, and fat containers."""
import struct

from .elf import Elf, raw_path

CPU = {"x86_64": (0x01000007, 3), "x86_64h": (0x01000007, 8), "arm64": (0x0100000c, 0), "arm64e": (0x0100000c, 2),
       "x86": (7, 3), "arm64v8": (0x0100000c, 1), "arm64_32": (0x0200000c, 0), "armv7": (12, 9), "armv7s": (12, 11), "ppc": (18, 0),
       "ppc64": (0x01000012, 0)}
BASE = 0x100000000


def opts():
    """Options for gen.Mod: addresses above the usual base, one executable section, no PLT-like extras."""
    return dict(base=BASE, pie=True, extra_exec=0)


def adapt(m):
    m.path = raw_path
    for s in m.syms:
        if s.name and not getattr(s, "macho", False):
            s.macho = True
    return m


class MachO:
    def __init__(self, m, cpu="x86_64", filetype=6, uuid=None, install=None, dwarf=True, symtab=True, eh=True, id_first=False):
        self.m, self.cpu, self.filetype, self.install = m, cpu, filetype, install
        self.uuid = uuid
        self.dwarf, self.symtab, self.eh = dwarf, symtab, eh

    def build(self):
        m = self.m
        e = Elf(cus=m.cus, fdes=m.fdes, **dict(m.kw, base=BASE))
        e.E, e.asz = "<", 8
        name, taddr, tsize = m.execs[0]
        text = e.__class__(**dict(execs=m.kw["execs"])).__dict__ and bytes((m.kw["text_seed"] * 7 + i * 13) & 255 for i in range(64)) + b"\x90" * (tsize - 64)
        cmds = []
        # sections: (sect, seg, addr, data, flags)
        tsecs = [("__text", taddr, text, 0x80000400)]
        eh = e._eh_frame() if m.fdes and self.eh else b""
        eh_addr = (taddr + tsize + 15) // 16 * 16
        if eh:
            tsecs.append(("__eh_frame", eh_addr, eh, 0x6800000b))
        tend = eh_addr + len(eh)
        dw = []
        if self.dwarf and m.cus:
            dw = [("__" + n[1:], d) for n, d in e._build_dwarf()]
        ncmds = 0
        hdr_guess = 32 + (72 + 80 * len(tsecs)) + ((72 + 80 * len(dw)) if dw else 0) + 24 + 24 + 72
        if self.install:
            ib = self.install + b"\0"
            isz = (24 + len(ib) + 7) // 8 * 8
            hdr_guess += isz
        assert BASE + hdr_guess <= taddr, "header does not fit"
        img = bytearray((tend - BASE + 0xfff) // 0x1000 * 0x1000)
        for n, a, d, f in tsecs:
            img[a - BASE:a - BASE + len(d)] = d
        vmsize = len(img)

        def seg(name, vm, vs, off, fs, prot, secs):
            b = struct.pack("<II16sQQQQIIII", 0x19, 72 + 80 * len(secs), name.encode(), vm, vs, off, fs, prot, prot, len(secs), 0)
            for n, a, o, sz, fl in secs:
                b += struct.pack("<16s16sQQIIIIIIII", n.encode(), name.encode(), a, sz, o, 0, 0, 0, fl, 0, 0, 0)
            return b

        cmds.append(seg("__TEXT", BASE, vmsize, 0, vmsize, 5, [(n, a, a - BASE, len(d), f) for n, a, d, f in tsecs]))
        if dw:
            off = len(img)
            secs, blob = [], bytearray()
            vm = BASE + vmsize
            for n, d in dw:
                secs.append((n, vm + len(blob), off + len(blob), len(d), 0x02000000))
                blob += d
            blob += b"\0" * (-len(blob) % 0x1000)
            img += blob
            cmds.append(seg("__DWARF", vm, len(blob), off, len(blob), 7, secs))
            vm += len(blob)
        else:
            vm = BASE + vmsize
        if self.uuid is not None:
            cmds.append(struct.pack("<II16s", 0x1b, 24, self.uuid))
        if self.install:
            cmds.append(struct.pack("<IIIIII", 0xd, isz, 24, 1, 0x10000, 0x10000) + ib.ljust(isz - 24, b"\0"))
        if self.symtab:
            st, nl = bytearray(b"\0"), bytearray()
            syms = sorted([s for s in m.syms if isinstance(s.sec, str) and s.sec == ".text" and s.typ == 2], key=lambda s: 0 if s.bind == 0 else 1)
            for s in syms:
                nl += struct.pack("<IBBHQ", len(st), 0x0e | (0 if s.bind == 0 else 1), 1, 0, s.addr)
                st += b"_" + s.name + b"\0"
            nl += struct.pack("<IBBHQ", len(st), 0x01, 0, 0, 0)   # an undefined symbol
            st += b"_undefined\0"
            so = len(img)
            img += nl
            sto = len(img)
            img += st
            img += b"\0" * (-len(img) % 8)
            cmds.append(struct.pack("<IIIIII", 2, 24, so, len(nl) // 16, sto, len(st)))
            cmds.append(seg("__LINKEDIT", vm, 0x10000, so, len(img) - so, 1, []))
        body = b"".join(cmds)
        ct, cs = CPU[self.cpu]
        h = struct.pack("<IIIIIIII", 0xfeedfacf, ct, cs, self.filetype, len(cmds), len(body), 0, 0)
        assert BASE + 32 + len(body) <= taddr
        img[0:32] = h
        img[32:32 + len(body)] = body
        return bytes(img)


def fat(slices, align=12):
    """slices: [(cpu, bytes)] in order."""
    out = bytearray(struct.pack(">II", 0xcafebabe, len(slices)))
    pos = 1 << align
    ents, body = b"", bytearray()
    for cpu, d in slices:
        ct, cs = CPU[cpu]
        ents += struct.pack(">IIIII", ct, cs, pos + len(body), len(d), align)
        body += d
        body += b"\0" * (-len(body) % (1 << align))
    out += ents
    out += b"\0" * (pos - len(out))
    return bytes(out + body)
