"""Cabinet writer: folders of stored or MSZIP compressed files."""
import struct
import zlib


def checksum(b):
    v = 0
    n = len(b) // 4 * 4
    for (x,) in struct.iter_unpack("<I", b[:n]):
        v ^= x
    r = b[n:]
    if len(r) == 3:
        v ^= r[0] << 16 | r[1] << 8 | r[2]
    elif len(r) == 2:
        v ^= r[0] << 8 | r[1]
    elif len(r) == 1:
        v ^= r[0]
    return v


def build(folders, mszip=True, sums=True, utf=True):
    """folders: [[(name, bytes)]]"""
    nfiles = sum(len(f) for f in folders)
    bodies, ffiles = [], b""
    for k, files in enumerate(folders):
        data = b"".join(b for _, b in files)
        blocks, hist = b"", b""
        n = 0
        for o in range(0, len(data), 32768):
            ch = data[o:o + 32768]
            if mszip:
                z = zlib.compressobj(9, zlib.DEFLATED, -15, zdict=hist) if hist else zlib.compressobj(9, zlib.DEFLATED, -15)
                c = b"CK" + z.compress(ch) + z.flush()
                hist = ch
            else:
                c = ch
            head = struct.pack("<HH", len(c), len(ch))
            blocks += struct.pack("<I", checksum(c) ^ struct.unpack("<I", head)[0] if sums else 0) + head + c
            n += 1
        bodies.append((n, blocks))
        off = 0
        for name, b in files:
            nb = name.encode() if isinstance(name, str) else name
            ffiles += struct.pack("<IIHHHH", len(b), off, k, 0x4a21, 0x6000, 0x20 | (0x80 if utf and any(x > 127 for x in nb) else 0)) + nb + b"\0"
            off += len(b)
    coff = 36 + 8 * len(folders)
    pos = coff + len(ffiles)
    fold = b""
    for n, b in bodies:
        fold += struct.pack("<IHH", pos, n, 1 if mszip else 0)
        pos += len(b)
    head = struct.pack("<4sIIIIIBBHHHHH", b"MSCF", 0, pos, 0, coff, 0, 3, 1, len(folders), nfiles, 0, 0x1234, 0)
    return head + fold + ffiles + b"".join(b for _, b in bodies)
