"""Edits the identity of a PDB (MSF container): signature GUID and age."""
import struct


def _streams(b):
    bs, _, nb, dsz, _, dmap = struct.unpack_from("<IIIIII", b, 32)
    npages = (dsz + bs - 1) // bs
    pages = struct.unpack_from("<%dI" % npages, b, dmap * bs)
    d = b"".join(bytes(b[p * bs:(p + 1) * bs]) for p in pages)[:dsz]
    n, = struct.unpack_from("<I", d, 0)
    sizes = struct.unpack_from("<%dI" % n, d, 4)
    pos, out = 4 + 4 * n, []
    for s in sizes:
        s = 0 if s == 0xffffffff else s
        k = (s + bs - 1) // bs
        out.append((s, struct.unpack_from("<%dI" % k, d, pos)))
        pos += 4 * k
    return bs, out


def stream(data, k):
    bs, st = _streams(data)
    size, pages = st[k]
    return b"".join(bytes(data[p * bs:(p + 1) * bs]) for p in pages)[:size]


def guid(data):
    """(guid bytes, info age, dbi age)"""
    s1, s3 = stream(data, 1), stream(data, 3)
    return s1[12:28], struct.unpack_from("<I", s1, 8)[0], struct.unpack_from("<I", s3, 8)[0]


def with_id(data, guid=None, age=None):
    b = bytearray(data)
    bs, st = _streams(b)
    p1, p3 = st[1][1][0] * bs, st[3][1][0] * bs
    if guid is not None:
        b[p1 + 12:p1 + 28] = guid
    if age is not None:
        struct.pack_into("<I", b, p1 + 8, age)
        struct.pack_into("<I", b, p3 + 8, age)
    return bytes(b)


def pe_with_id(data, guid=None, age=None):
    b = bytearray(data)
    k = b.find(b"RSDS")
    assert k > 0 and b.find(b"RSDS", k + 1) < 0
    if guid is not None:
        b[k + 4:k + 20] = guid
    if age is not None:
        struct.pack_into("<I", b, k + 20, age)
    return bytes(b)


def text(guid, age):
    """The Breakpad spelling of a PDB identity."""
    a, c, d = struct.unpack_from("<IHH", guid, 0)
    return "%08X%04X%04X%s%x" % (a, c, d, guid[8:].hex().upper(), age)
