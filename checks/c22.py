"""C22: STACK records against the unwind tables; --check-cfi."""
import os
import re
from collections import Counter

from vlib import gen, macho, pe, sym, work
from .c09 import stored

RULE = ("one case = one module with a known unwind table (.eh_frame or .debug_frame of ELF x86-64/x86, Mach-O __eh_frame, .pdata of PE alone, with its PDB, or MinGW; frame data of 32-bit PDBs alone, with their executable or shared between two PDBs), "
        "half of them with random unwind programs, or a merge of two files with equal, disjoint, overlapping, disagreeing or no tables; the rules in force at every row and the multiset of STACK CFI INIT (address, size) and of STACK WIN (address, size, parameters) is compared with the table; a second run "
        "with --check-cfi to a file, a store or standard output must be refused without output exactly when there are no records. distinct = distinct (kind, #entries "
        "bucket, check-cfi outcome, output) classes")
ASSUMPTIONS = ["CPUs whose registers Breakpad names (x86, x86-64, arm64): others have no unwind records by design"]
TECHNIQUE = "unwind-table monitor of real runs against the tables each module was generated with"
LEVEL = "exploration"
LEVEL_NOTE = "generated modules; the multiset of unwind entries is compared, with and without --check-cfi"
MIN_DISTINCT = 20
QUICK_S, THOROUGH_S = 60, 600

KINDS = ["elf", "elf32", "debugframe", "macho", "mingw", "barepe", "pdb64", "pair", "both", "disjoint", "none", "nonepair", "batch", "pdb32", "mergewin", "winpair"]
INIT = re.compile(r"^STACK CFI INIT ([0-9a-f]+) ([0-9a-f]+) ")


def cases(ctx):
    n = 2100 if ctx.tier == "quick" else 14000
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def inits(s):
    c = Counter()
    for l in s.stack:
        m = INIT.match(l)
        if m:
            c[(int(m.group(1), 16), int(m.group(2), 16))] += 1
    return c


REGS = ("rax rdx rcx rbx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15 rip " + " ".join("xmm%d" % k for k in range(16)) + " " +
        " ".join("st%d" % k for k in range(8)) + " " + " ".join("mm%d" % k for k in range(8)) + " rflags es cs ss ds fs gs").split()
INITIAL = {"cfa": (7, 8), 16: ("at", -8)}
USUAL = [(0, {}), (1, {"cfa": (7, 16)})]


def entry(addr, size, rows):
    """(address, size, rules from each address on at which they change), rows as in elf.Elf._cfi_program."""
    name = lambda r: ".ra" if r == 16 else "$" + REGS[r]
    cur, out = {}, []
    for off, ch in [(0, INITIAL)] + rows:
        for r, v in ch.items():
            if r == "cfa":
                cur[".cfa"] = "$%s %d +" % (REGS[v[0]], v[1])
            else:
                cur[name(r)] = {"at": ".cfa %d + ^", "is": ".cfa %d +"}[v[0]] % v[1] if v[0] in ("at", "is") else "$" + REGS[r if v[0] == "same" else v[1]]
        if out and out[-1][0] == addr + off:
            out.pop()
        if not out or out[-1][1] != frozenset(cur.items()):
            out.append((addr + off, frozenset(cur.items())))
    return addr, size, tuple(out)


def entries(s):
    """The same of the STACK CFI records of a symbol file."""
    got, c = [], Counter()
    for l in s.stack:
        if not l.startswith("STACK CFI "):
            continue
        f = l.split(" ")[2:]
        init = f[0] == "INIT"
        if init:
            cur = {}
            got.append((int(f[1], 16), int(f[2], 16), []))
        at, f = (int(f[1], 16), f[3:]) if init else (int(f[0], 16), f[1:])
        for t in f:
            if t.endswith(":"):
                k = t[:-1]
                cur[k] = ""
            else:
                cur[k] = (cur[k] + " " + t).strip()
        rows = got[-1][2]
        if not rows or rows[-1][1] != frozenset(cur.items()):
            rows.append((at, frozenset(cur.items())))
    for a, z, rows in got:
        c[a, z, tuple(rows)] += 1
    return c


def program(rng, size):
    """A random unwind program for an entry of `size` bytes."""
    style = rng.choice(["none", "push", "any", "any", "all", "far"])
    if style == "none":
        return []
    at = sorted(rng.sample(range(size), min(size, rng.choice([1, 2, 3, 6, 20]))))
    if style == "push":
        return [(o, {"cfa": (7, 16 + 8 * k), rng.choice([3, 6, 12, 13, 14, 15]): ("at", -16 - 8 * k)}) for k, o in enumerate(at)]
    rows = []
    for o in at:
        ch = {}
        if rng.random() < 0.7:
            ch["cfa"] = (rng.choice([7, 6, 3, 10]), rng.choice([0, 8, 16, 128, 4096, 1 << 20, (1 << 31) - 8]) if style == "far" else 8 * rng.randrange(64))
        regs = [r for r in range(len(REGS) if style == "all" else 33) if r not in (7, 16)]
        for r in regs if style == "all" else rng.sample(regs, rng.randrange(4)):
            ch[r] = rng.choice([("at", -8 * rng.randrange(1, 300)), ("at", 8 * rng.randrange(9)), ("is", -8 * rng.randrange(9)), ("same",), ("reg", rng.choice(regs)), ("at", -16)])
            if style == "all" and len(at) < 3:
                ch[r] = ("at", -8 * rng.randrange(100000, 999999))
        if rng.random() < 0.2:
            ch[16] = ("at", -8 * rng.randrange(2, 9))
        rows.append((o, ch))
    return rows


def wins(stack):
    c = Counter()
    for l in stack:
        if l.startswith("STACK WIN "):
            f = l.split(" ")
            c[(int(f[3], 16), int(f[4], 16), int(f[7], 16))] += 1
    return c


def table(m):
    return Counter((lo - m.base, hi - lo) for lo, hi in m.fdes)


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    files, want, wwant = [], Counter(), Counter()
    rows = True           # our own programs
    cfi, elsewhere = {}, {}

    def programs(m, kw, p=0.8):
        d = {(lo, hi): program(rng, hi - lo) for lo, hi in m.fdes if rng.random() < p}
        kw["cfi"] = d
        return d
    if kind in ("elf", "elf32", "macho", "mingw", "debugframe"):
        c = "elf" if kind == "debugframe" else kind
        if kind == "debugframe":
            m = gen.Mod(rng)
            m.kw["debug_frame"] = True
            cfi = programs(m, m.kw)
            files = [ctx.write("m.so", m.full())]
        else:
            w = work.Work(ctx, c, rng.choice(["plain", "dense", "split"]))
            m, files = w.m, [w.path]
            if kind == "elf":
                cfi = programs(m, m.kw)
                files = [ctx.write("m.so", m.full())]
        want = table(m)
        if kind == "mingw":
            rows = False
    elif kind == "barepe":
        pd = sorted({(0x2000 + 16 * i, 0x2000 + 16 * i + rng.randrange(1, 17)) for i in rng.sample(range(100), rng.randrange(0, 20))})
        files = [ctx.write("m.dll", pe.Pe(pdb_path=b"m.pdb", pdata=pd, timestamp=rng.randrange(1 << 31)).build())]
        want = Counter((a, b - a) for a, b in pd)
        rows = False
    elif kind == "winpair":
        # two PDBs of one module whose frame data have some entries in common
        w = work.Work(ctx, "pdb32", "plain")
        every = sorted({(lo, hi): 4 * (k % 7) for k, (_, _, lo, hi) in enumerate(w.m.decl) if (lo, hi) in set(w.m.fdes)}.items())
        guid = None
        for name in "ab":
            w.w.fpo = dict(e for e in every if rng.random() < 0.7)
            exe, p = w.w.build(ctx.path(name, "x")[:-2], "m")
            b, x = open(p, "rb").read(), open(exe, "rb").read()
            os.unlink(exe)
            g = x[x.index(b"RSDS") + 4:][:16]
            guid = guid or g
            with open(p, "wb") as f:
                f.write(b.replace(g, guid))
            files.append(p)
        rng.shuffle(files)
        # each on its own is what "pdb32" looks at; the linker writes an entry in two ways
        lines = set()
        for p in files:
            lines.update(l for l in sym.parse(ctx.dump_ok(p).out).stack)
        wwant = wins(lines)
        rows = False
    elif kind == "pdb32" or (kind == "mergewin" and rng.random() < 0.5):
        w = work.Work(ctx, "pdb32", rng.choice(["plain", "dense"]))
        if kind == "mergewin":
            # the two files of one module: each entry once
            files = [w.path, w.exe]
            rng.shuffle(files)
        else:
            files = [rng.choice([w.path, w.exe])]
            if files[0] == w.path and rng.random() < 0.4:
                os.unlink(w.exe)
        wwant = Counter((lo - w.m.base, hi - lo, p) for (lo, hi), p in w.w.fpo.items())
        rows = False
    elif kind in ("pdb64", "mergewin"):
        w = work.Work(ctx, "pdb64", "plain")
        files = [rng.choice([w.path, w.exe])]
        if kind == "mergewin":
            files = [w.path, w.exe]
            rng.shuffle(files)
        d = {(lo, hi) for _, _, lo, hi in w.m.decl}
        want = Counter((lo - w.m.base, hi - lo) for lo, hi in w.m.fdes if (lo, hi) in d)
        rows = False
    elif kind in ("pair", "both", "disjoint", "batch"):
        m = gen.Mod(rng, dyn=2)
        cfi = programs(m, m.kw)
        if kind == "pair":
            a, b = m.stripped(), m.debug_only()
        elif kind == "both":
            a, b = (m.stripped(), m.debug_only(with_eh=True)) if rng.random() < 0.5 else (m.full(), m.stripped())
        else:
            all_f = m.fdes + [(m.text_end - 64 + 8 * k, m.text_end - 64 + 8 * k + 5) for k in range(6)]
            rng.shuffle(all_f)
            k = rng.randrange(1, len(all_f))
            common = rng.randrange(0, 3)
            m.fdes = sorted(all_f[:k + common])
            a = m.stripped()
            m.fdes = sorted(all_f[k:])
            both = all_f[k:k + common]
            if rng.random() < 0.5:
                # the tables disagree about some entries: both are kept
                elsewhere = {e: program(rng, e[1] - e[0]) for e in both}
                m.kw["cfi"] = {**cfi, **elsewhere}
            b = m.debug_only(with_eh=True)
            m.fdes = sorted(all_f)
        files = [ctx.write("m.so", a), ctx.write("m.so.debug", b)]
        rng.shuffle(files)
        want = table(m)
    elif kind in ("none", "nonepair"):
        m = None
        n = gen.Mod(rng, fdes=False, dyn=2)
        files = [ctx.write("m.so", n.full())] if kind == "none" else [ctx.write("m.so", n.stripped()), ctx.write("m.debug", n.debug_only())]
    j = str(rng.choice([1, 2, 4]))
    args = ["-j", j] + (["--inlines"] if rng.random() < 0.5 else [])
    ctx.dump_ok(*args, "--store", ctx.path("st"), *files)
    got = stored(ctx.path("st"))
    if len(got) != 1:
        ctx.violation("%d symbol files" % len(got))
        return
    s = sym.parse(got[0])
    have = inits(s)
    for (lo, hi), p in elsewhere.items():
        if entry(0, hi - lo, p) != entry(0, hi - lo, cfi.get((lo, hi), USUAL[:hi - lo])):
            want[lo - m.base, hi - lo] += 1
    if have != want:
        ctx.violation("%s: unwind entries missing %r, invented or repeated %r" % (kind, sorted((want - have).elements())[:3], sorted((have - want).elements())[:3]))
    if rows and kind != "elf32":
        exp = Counter({entry(lo - m.base, hi - lo, cfi.get((lo, hi), USUAL[:hi - lo])): 1 for lo, hi in m.fdes} if m is not None else {})
        for (lo, hi), p in elsewhere.items():
            exp[entry(lo - m.base, hi - lo, p)] = 1
        es = entries(s)
        if s.module[1].startswith("arm64"):
            # only the usual programs there, whose register 7 is another one
            exp = Counter({(a, z, tuple((o, frozenset((k, v.replace("$rsp", "x7")) for k, v in r)) for o, r in t)): n for (a, z, t), n in exp.items()})
        if es != exp:
            ctx.violation("%s: unwind rules missing %r, invented or repeated %r" % (kind, [(hex(a), z, [(hex(o), sorted(r)) for o, r in t]) for a, z, t in list((exp - es).elements())[:1]],
                                                                                   [(hex(a), z, [(hex(o), sorted(r)) for o, r in t]) for a, z, t in list((es - exp).elements())[:1]]))
        ctx.tick("unwind rows compared", sum(len(t) for _, _, t in exp))
    whave = wins(s.stack)
    if whave != wwant:
        ctx.violation("%s: frame data (address, size, parameters) missing %r, invented or repeated %r" % (kind, sorted((wwant - whave).elements())[:3], sorted((whave - wwant).elements())[:3]))
    ctx.tick("STACK WIN records compared", sum(wwant.values()))
    # --check-cfi
    has = bool(s.stack)
    out = rng.choice(["store", "file", "stdout", "both"])
    st2, fo = ctx.path("st2"), ctx.path("o.sym")
    if len(files) > 1 and out != "stdout":
        out = "store"
    a2 = {"store": ["--store", st2], "file": ["-o", fo], "stdout": [], "both": ["--store", st2, "-o", fo]}[out]
    more = []
    if kind == "batch" or (kind == "none" and rng.random() < 0.3 and out == "store"):
        # another module, with unwind information, in the same run
        m2 = gen.Mod(rng)
        more = [ctx.write("other.so", m2.full())]
        if out == "stdout":
            more = []
    fl = files + more
    if kind != "winpair":          # the order of equal files is that of the output
        rng.shuffle(fl)
    r = ctx.dump(*args, "--check-cfi", *a2, *fl)
    if r.hang:
        ctx.violation("--check-cfi: hang (%s)" % r.hang)
        return
    written = [x for x in stored(st2)] + ([open(fo, "rb").read()] if os.path.exists(fo) else []) + ([r.out] if r.out else [])
    mine = [x for x in written if sym.parse(x).module and sym.parse(x).module[2] == s.module[2]] if more else written
    if has:
        if r.rc != 0:
            ctx.violation("--check-cfi refuses a module with %d unwind records: %s" % (len(s.stack), r.describe()))
        elif not mine or any(x != got[0] for x in mine):
            ctx.violation("--check-cfi changes the output of a module with unwind records (%d outputs)" % len(mine))
    else:
        if r.rc == 0:
            ctx.violation("--check-cfi accepts a module without unwind records (%s)" % out)
        if mine:
            ctx.violation("--check-cfi: output written for a module without unwind records (%s)" % out)
        if not r.err.strip():
            ctx.violation("--check-cfi: no message")
    ctx.tick("entries compared", sum(want.values()))
    ctx.tick("check-cfi refused" if r.rc else "check-cfi accepted")
    ctx.seen(kind, "n%d" % min(12, sum(want.values())), r.rc == 0, out, len(fl))
    if case["i"] < 2:
        ctx.sample = {"case": case, "entries": [[hex(a), z] for a, z in sorted(want)][:5], "check_cfi_rc": r.rc}
