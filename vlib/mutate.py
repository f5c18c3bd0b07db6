"""Damaged files: mutations of valid ELF, Mach-O, PE, PDB and cabinet files, aimed at headers, tables and sections."""
import struct

INTS = [0, 1, 2, 3, 4, 7, 8, 0xf, 0x10, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff,
        0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffff0]


def regions(b):
    """[(name, lo, hi)] parts of a valid file worth damaging one at a time."""
    out = [("head", 0, min(len(b), 128))]
    try:
        if b[:4] == b"\x7fELF":
            e = "<" if b[5] == 1 else ">"
            if b[4] == 2:
                shoff, = struct.unpack_from(e + "Q", b, 40)
                es, n, sx = struct.unpack_from(e + "HHH", b, 58)
                get = lambda k: struct.unpack_from(e + "IIQQQQ", b, shoff + k * es)
            else:
                shoff, = struct.unpack_from(e + "I", b, 32)
                es, n, sx = struct.unpack_from(e + "HHH", b, 46)
                get = lambda k: struct.unpack_from(e + "IIIIII", b, shoff + k * es)
            out.append(("shdr", shoff, shoff + es * n))
            names = get(sx)[4]
            for k in range(n):
                s = get(k)
                nm = bytes(b[names + s[0]:b.index(0, names + s[0])]).decode("latin-1")
                if s[1] != 8 and s[5] and nm not in (".text",):
                    out.append((nm, s[4], s[4] + s[5]))
        elif b[:4] == b"MZ\x90\0" or b[:2] == b"MZ":
            pe, = struct.unpack_from("<I", b, 60)
            n, = struct.unpack_from("<H", b, pe + 6)
            oh, = struct.unpack_from("<H", b, pe + 20)
            out.append(("pehdr", pe, pe + 24 + oh))
            out.append(("petab", pe + 24 + oh, pe + 24 + oh + 40 * n))
            for k in range(n):
                o = pe + 24 + oh + 40 * k
                sz, off = struct.unpack_from("<II", b, o + 16)
                nm = bytes(b[o:o + 8]).rstrip(b"\0").decode("latin-1")
                if sz and nm != ".text":
                    out.append((nm, off, off + sz))
            k = b.find(b"RSDS")
            if k > 0:
                out.append(("rsds", k, k + 64))
        elif b[:4] in (b"\xcf\xfa\xed\xfe", b"\xce\xfa\xed\xfe"):
            n, sz = struct.unpack_from("<II", b, 16)
            h = 32 if b[0] == 0xcf else 28
            out.append(("loadcmds", h, h + sz))
            o = h
            for _ in range(n):
                c, s = struct.unpack_from("<II", b, o)
                if c == 0x19:
                    ns, = struct.unpack_from("<I", b, o + 64)
                    for k in range(ns):
                        q = o + 72 + 80 * k
                        nm = bytes(b[q:q + 16]).rstrip(b"\0").decode("latin-1")
                        size, off = struct.unpack_from("<QI", b, q + 40)
                        if nm != "__text" and off and size:
                            out.append((nm, off, off + size))
                elif c == 2:
                    so, n2, st, ss = struct.unpack_from("<IIII", b, o + 8)
                    out += [("symtab", so, so + 16 * n2), ("strtab", st, st + ss)]
                o += s
        elif b[:16] == b"Microsoft C/C++ ":
            from . import msf
            bs, st = msf._streams(b)
            for k, (size, pages) in enumerate(st):
                left = size
                for p in pages:
                    if left > 0:
                        out.append(("stream%d" % k, p * bs, p * bs + min(bs, left)))
                    left -= bs
            _, _, _, dsz, _, dmap = struct.unpack_from("<IIIIII", b, 32)
            out.append(("msfdir", dmap * bs, dmap * bs + 64))
            p, = struct.unpack_from("<I", b, dmap * bs)
            out.append(("msfdir", p * bs, p * bs + min(dsz, bs)))
        elif b[:4] == b"MSCF":
            out.append(("cab", 0, min(len(b), 200)))
        elif b[:4] == b"\xca\xfe\xba\xbe":
            out.append(("fat", 0, 8 + 20 * min(8, struct.unpack_from(">I", b, 4)[0])))
    except Exception:
        pass
    return [(n, lo, min(hi, len(b))) for n, lo, hi in out if lo < min(hi, len(b))]


def one(b, rng, reg, fixed=None):
    """Applies one mutation inside the region to the bytearray; returns its kind."""
    n, lo, hi = reg
    p = rng.randrange(lo, hi)
    k = fixed or rng.choice(["bit", "bit", "byte", "int", "int", "int", "zero", "fill", "copy", "swap", "inc", "shift", "garble"])
    if k == "bit":
        b[p] ^= 1 << rng.randrange(8)
    elif k == "byte":
        b[p] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
    elif k == "int":
        w = rng.choice([1, 2, 4, 4, 8])
        if rng.random() < 0.7:
            p -= (p - lo) % w
        v = rng.choice(INTS + [len(b), len(b) - 1, len(b) + 1, hi - lo, rng.randrange(1 << 32)])
        b[p:p + w] = (v & ((1 << 8 * w) - 1)).to_bytes(w, rng.choice(["little", "little", "big"]))[:max(0, len(b) - p)]
    elif k == "zero":
        w = min(hi - p, rng.choice([2, 8, 32, 200]))
        b[p:p + w] = bytes(w)
    elif k == "fill":
        w = min(hi - p, rng.choice([2, 8, 32]))
        b[p:p + w] = bytes([rng.choice([0xff, 0x80, 0x41, 0x0a])]) * w
    elif k == "copy":
        w = min(hi - p, rng.choice([4, 16, 64]))
        q = rng.randrange(lo, hi - w + 1)
        b[p:p + w] = b[q:q + w]
    elif k == "swap":
        q = rng.randrange(lo, hi)
        b[p], b[q] = b[q], b[p]
    elif k == "inc":
        b[p] = (b[p] + rng.choice([1, -1, 16, -16])) & 255
    elif k == "shift":
        w = hi - p
        d = bytes(rng.randrange(1, 4))
        b[p:hi] = (d + bytes(b[p:hi]))[:w]
    elif k == "garble":
        for _ in range(rng.choice([2, 5, 20])):
            b[rng.randrange(p, hi)] = rng.randrange(256)
    return k


def damage(data, rng, only=None, count=None):
    """(damaged bytes, region class, mutation class). only: predicate on region names."""
    b = bytearray(data)
    rs = regions(b)
    names = sorted({r[0] for r in rs if not only or only(r[0])})
    if only and not names:
        return None, None, None
    if not only and rng.random() < 0.12:
        k = rng.choice(["truncate", "truncate", "extend", "any", "splice", "hole"])
        if k == "truncate":
            del b[rng.choice([rng.randrange(len(b) + 1), min(len(b), rng.randrange(300)), max(0, len(b) - rng.randrange(1, 200))]):]
        elif k == "extend":
            b += bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 300])))
        elif k == "any":
            for _ in range(rng.choice([1, 5, 30, 200])):
                b[rng.randrange(len(b))] = rng.randrange(256)
        elif k == "splice":
            p, q = rng.randrange(len(b)), rng.randrange(len(b))
            b = b[:p] + b[q:]
        else:
            p = rng.randrange(len(b))
            del b[p:p + rng.choice([1, 2, 4, 16, 100])]
        return bytes(b), "file", k
    # every region is as likely as any other, however small it is
    nm = rng.choice(names)
    ks = set()
    for _ in range(count or rng.choice([1, 1, 1, 2, 3, 8])):
        r = rng.choice([r for r in rs if r[0] == nm])
        ks.add(one(b, rng, r))
        if rng.random() < 0.15:
            nm = rng.choice(names)
    return bytes(b), nm, "+".join(sorted(ks)) if len(ks) < 3 else "many"
