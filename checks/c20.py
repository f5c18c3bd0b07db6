"""C20: fat binaries."""
import os
import re

from vlib import gen, macho, sym, work
from .c09 import stored

RULE = ("one case = a fat Mach-O with 0-11 slices (distinct contents, UUIDs, sizes and alignments, any order, some of them damaged, images or debug files, with or without install names) or a thin file, dumped "
        "for a present, absent, aliased, default or unknown architecture, alone, in a batch, or together with a separate debug file of one slice, and listed; the output is "
        "compared byte for byte with the dump of the thin slice. distinct = distinct (#slices, requested, present, mode, output) classes")
ASSUMPTIONS = ["no two slices have one architecture"]
TECHNIQUE = "differential monitor: dumps of fat files against dumps of their slices, both by the real program"
LEVEL = "exploration"
LEVEL_NOTE = "generated fat files; complete outputs compared"
MIN_DISTINCT = 40
QUICK_S, THOROUGH_S = 60, 600

CPUS = ["x86_64", "x86_64h", "arm64", "arm64e"]
ALIAS = {"x86_64": ["amd64", "x86-64", "X86_64", "AMD64"], "arm64": ["arm-64", "ARM64"], "x86_64h": ["X86_64H"], "arm64e": ["arm64E"]}
MORE = ["arm64v8", "arm64_32", "armv7", "armv7s", "ppc", "ppc64", "x86"]
OTHER = ["x86", "i386", "ppc", "armv7", "arm", "arm64v8", "mips", "unknown", "armv7k"]


def cases(ctx):
    n = 2400 if ctx.tier == "quick" else 12000
    kinds = ["fat", "fat", "list", "thin", "batch", "absent", "pair", "one", "fat", "many", "damaged"]
    return [{"i": i, "kind": kinds[i % len(kinds)]} for i in range(n)]


def run_case(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    n = {"one": 1, "thin": 1}.get(kind, rng.choice([2, 2, 3, 4]))
    if kind == "list":
        n = rng.choice([0, 1, 2, 3, 4])
    cpus = rng.sample(CPUS, n)
    if kind == "many" or kind == "list" and n == 4 and rng.random() < 0.5:
        cpus += rng.sample(MORE, rng.randrange(1, len(MORE) + 1))
        rng.shuffle(cpus)
        n = len(cpus)
    if kind == "absent" and n == 4:
        cpus = cpus[:3]
    slices, pairs = [], {}
    inst = rng.choice([None, None, b"/usr/lib/libfat.dylib"])
    ft = rng.choice([6, 10])
    same_uuid = rng.random() < 0.2
    uu = bytes(rng.randrange(256) for _ in range(16))
    for c in cpus:
        m = macho.adapt(gen.Mod(rng, **dict(macho.opts(), dyn=0, publics=6)))
        uid = uu if same_uuid else bytes(rng.randrange(256) for _ in range(16))
        slices.append((c, macho.MachO(m, c, ft, uid, inst, dwarf=kind != "pair").build()))
        if kind == "pair":
            pairs[c] = macho.MachO(m, c, 10, uid, inst, eh=False).build()
    req = rng.choice([c for c in cpus if c in CPUS] or [None])
    if kind == "damaged":
        # whatever the other slices hold
        for x, (c, b) in enumerate(slices):
            if c != req and rng.random() < 0.7:
                k = rng.randrange(4)
                bad = [b[:28], b[:16] + b"\xff" * 16 + b[32:], bytes(len(b)), bytes(rng.randrange(256) for _ in range(200))][k]
                slices[x] = (c, bad)
    name = rng.choice(["fat", "libfat.dylib", "f at"])
    fat = ctx.write("fat/" + name, slices[0][1] if kind == "thin" else macho.fat(slices, align=rng.choice([12, 14, 10])))
    for c, b in slices:
        ctx.write("thin_%s/%s" % (c, name), b)
    inl = ["--inlines"] if rng.random() < 0.5 else []
    if kind == "list" or rng.random() < 0.15 and kind != "damaged":
        more = [ctx.write("x/other.dylib", macho.fat([(c, b) for c, b in reversed(slices)]))] if rng.random() < 0.3 and n else []
        r = ctx.dump("--list-arch", fat, *more)
        if r.hang:
            ctx.violation("--list-arch hangs")
        lists = [cpus] + ([cpus[::-1]] if more else [])
        names = [name] + (["other.dylib"] if more else [])
        if r.rc == 0:
            lines = r.out.decode().split("\n")
            have = [l for l in lines if l and not l.endswith(":")] if n else []
            heads = [l for l in lines if l.endswith(":")]
            got = [[w for w in re.split(r"[,\s]+", l) if w] for l in have]
            if n and got != lists:
                ctx.violation("--list-arch prints %r, the file has %r" % (got, lists))
            if len(heads) != len(names) or any(not h.startswith(x + " ") for h, x in zip(heads, names)):
                ctx.violation("--list-arch: headings %r for the files %r" % (heads, names))
        elif n:
            ctx.violation("--list-arch fails: " + r.describe())
        if n and rng.random() < 0.5:
            # a file among them cannot be read or is nothing we know
            bad = rng.choice([ctx.path("missing"), ctx.write("x/junk", b"junk" * 40), ctx.write("x/empty", b""), ctx.write("x/cut", b"\xca\xfe\xba\xbe\0")])
            fl = [fat, bad] + more
            rng.shuffle(fl)
            r = ctx.dump("--list-arch", *fl)
            if r.hang or r.rc == 0:
                ctx.violation("--list-arch of %s succeeds (%s)" % (os.path.basename(bad), r.describe()))
            ctx.tick("listings refused")
        ctx.tick("listings")
        ctx.seen("list", n, len(lists))
        if kind == "list":
            return
    present = True
    args = []
    if kind in ("thin", "one"):
        x = rng.choice(CPUS + OTHER + [None])
        args = ["-a", x] if x else []
        req = cpus[0]
    elif kind == "absent":
        x = rng.choice([c for c in CPUS if c not in cpus] + OTHER + ["bogus", ""])
        args = ["-a", x]
        present = False
    else:
        x = rng.choice([req] * 3 + ALIAS.get(req, []))
        args = ["-a", x] if rng.random() < 0.5 else ["--arch=" + x]
        if req == "x86_64" and rng.random() < 0.4:
            args = []
    out = rng.choice(["stdout", "file", "store", "both"])
    st, fo = ctx.path("st"), ctx.path("o.sym")
    files, thin = [fat], [os.path.join(ctx.work, "thin_" + req, name)]
    if kind == "batch":
        e = ctx.write("e/extra.so", gen.Mod(rng).full())
        files, thin = files + [e], thin + [e]
        out = "store"
    if kind == "pair":
        p = ctx.write("dbg/" + rng.choice(["fat.dwarf", "z"]), pairs[req])
        files, thin = files + [p], thin + [p]
        if rng.random() < 0.5:
            files.reverse()
            thin.reverse()
        out = "store"
    oa = {"stdout": [], "file": ["-o", fo], "store": ["--store", st], "both": ["--store", st, "-o", fo]}[out]
    r = ctx.dump(*args, *inl, "-j", "2", *oa, *files)
    if r.hang:
        ctx.violation("hang: " + r.describe())
        return
    outs = sorted(stored(st) + ([open(fo, "rb").read()] if os.path.exists(fo) else []) + ([r.out] if r.out else []))
    if not present:
        if r.rc == 0:
            ctx.violation("architecture %r is not in %r, yet exit status 0" % (args, cpus))
        if outs:
            ctx.violation("architecture %r is not in %r, yet something is written" % (args, cpus))
        if not r.err.strip():
            ctx.violation("no message about the missing architecture")
        ctx.tick("refused")
    else:
        if r.rc:
            ctx.violation("architecture %r of %r: the run fails: %s" % (args, cpus, r.describe()))
            return
        ctx.dump_ok(*inl, "-j", "2", "--store", ctx.path("ref"), *thin)
        ref = sorted(stored(ctx.path("ref")))
        if out == "both":
            ref = ref * 2
        if outs != ref:
            hs = [x.split(b"\n")[0] for x in outs]
            hr = [x.split(b"\n")[0] for x in ref]
            ctx.violation("%s: the dump of %r from %r differs from the thin file: %r / %r" % (kind, args, cpus, hs, hr))
        if not any(x.startswith(b"MODULE Mac " + req.encode() + b" ") for x in outs):
            ctx.violation("the dump is not of %s" % req)
        ctx.tick("slices compared")
    ctx.seen(kind, n, req, present, out, bool(args), same_uuid)
    if case["i"] < 3:
        ctx.sample = {"case": case, "slices": cpus, "requested": args, "rc": r.rc}
