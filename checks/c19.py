"""C19: PE and PDB are combined only when they belong together."""
import os
import struct

from vlib import cab, gen, httpd, msf, pe, sym, work

RULE = ("one case = an executable and its PDB built by lld-link with a GUID and age of our choice; candidates (the right PDB, plain or in a cabinet; another GUID; another age; damaged; empty; a cabinet without it; a "
        "directory) are laid at every place the program looks (recorded path, beside the executable, current directory, symbol cache, symbol server; for a PDB the executables with its "
        "name beside it); the dump must equal the dump of the matching pair alone if any place holds the right partner and that of the lone file otherwise. distinct = distinct "
        "(direction, contents per place, recorded-name form, outcome) classes")
ASSUMPTIONS = ["the recorded PDB name has the form NAME.pdb (a .pd_ beside replaces that extension)"]
TECHNIQUE = "differential monitor with planted decoys: dumps with candidates everywhere against dumps of the clean pair and of the lone file, all by the real program"
LEVEL = "exploration"
LEVEL_NOTE = "generated placements of right and wrong partners; complete outputs compared"
MIN_DISTINCT = 80
QUICK_S, THOROUGH_S = 60, 600

CAND = ["right", "guid", "age", "junk", "empty", "dir", "none", "none", "none", "trunc", "badcab"]


def cases(ctx):
    n = 640 if ctx.tier == "quick" else 12000
    return [{"i": i, "dir": ["exe", "pdb", "exe", "both"][i % 4]} for i in range(n)]


def run_case(ctx, case):
    rng = ctx.rng
    arch = rng.choice(["pdb64", "pdb64", "pdb32"])
    stem = rng.choice(["m", "a.b", "Mod x"])
    w = work.Work(ctx, arch, rng.choice(["plain", "nested"]), dir=ctx.path("t", "x")[:-2])
    g = bytes(rng.randrange(256) for _ in range(16))
    age = rng.choice([1, 2, 10, 300])
    p0, e0 = open(w.path, "rb").read(), open(w.exe, "rb").read()
    pdb, exe = msf.with_id(p0, g, age), msf.pe_with_id(e0, g, age)
    g2 = bytearray(g)
    g2[rng.randrange(16)] ^= 1 << rng.randrange(8)
    g2, age2 = bytes(g2), age + rng.choice([1, 16])
    rdir = ctx.path("rec", "x")[:-2]
    exedir, cwd, cache = ctx.path("e", "x")[:-2], ctx.path("c", "x")[:-2], ctx.path("cache", "x")[:-2]
    for d in (rdir, exedir, cwd, cache):
        os.makedirs(d, exist_ok=True)
    pn = stem + ".pdb"

    def lay(path, what, right, wg, wa, junk):
        if what == "none":
            return False
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if what == "dir":
            os.makedirs(path, exist_ok=True)
            return False
        if what == "badcab":
            # a cabinet which gives nothing: another file in it, no file in it, or damaged
            b = cab.build([[("other.bin", right)]], mszip=rng.random() < 0.5)
            b = rng.choice([b, b[:len(b) // 2], b[:36], cab.build([], False, True)])
            with open(path, "wb") as f:
                f.write(b)
            return False
        b = {"right": right, "guid": wg, "age": wa, "junk": junk, "empty": b"", "trunc": right[:rng.choice([64, 600, len(right) // 2])]}[what]
        if path.endswith("_"):
            b = cab.build([[(os.path.basename(path)[:-1] + {"p": "b", "d": "l", "e": "e"}[path[-3]], b)]], mszip=rng.random() < 0.5) if b else b
        with open(path, "wb") as f:
            f.write(b)
        return what == "right"

    def clean(files, main):
        """Dump of `main` in a directory with just these files."""
        d = ctx.path("clean%d" % rng.randrange(1 << 40), "x")[:-2]
        os.makedirs(d, exist_ok=True)
        for n, b in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(b)
        other = ctx.path("void", "x")[:-2]
        os.makedirs(other, exist_ok=True)
        return ctx.dump_ok(*inl, os.path.join(d, main), cwd=other).out
    inl = ["--inlines"] if rng.random() < 0.5 else []
    if case["dir"] in ("exe", "both"):
        form = rng.choice(["bare", "bare", "win", "abs", "rel", "mixed"])
        rec = {"bare": pn, "win": "C:\\build\\obj\\" + pn, "abs": os.path.join(rdir, pn), "rel": "sub/" + pn, "mixed": "sub\\" + pn}[form]
        cv = b"RSDS" + g + struct.pack("<I", age)
        # the executable gets the recorded name by appending a new debug directory: simplest is to rewrite it in place when it fits
        k = exe.find(b"RSDS")
        room = 0
        end = exe.index(b"\0", k + 24)
        old = exe[k + 24:end]
        nb = rec.encode()
        if len(nb) > len(old):
            # rebuild with the wanted name
            dll, _ = w.w.build(ctx.path("t2", "x")[:-2], "m", pdb_name=rec) if os.makedirs(ctx.path("t2", "x")[:-2], exist_ok=True) is None else (None, None)
            exe = msf.pe_with_id(open(dll, "rb").read(), g, age)
        else:
            exe = exe[:k + 24] + nb + b"\0" * (len(old) - len(nb)) + exe[end:]
        ext = rng.choice(["dll", "exe", "sys"])
        # the executable's own name need not be the one of the PDB
        en = (stem if case["dir"] == "both" or rng.random() < 0.6 else "other name") + "." + ext
    if case["dir"] == "both":
        # either of the two files gives the same records
        if ext == "sys":
            en, ext = stem + ".dll", "dll"
        a = clean({en: exe, pn: pdb}, en)
        b = clean({en: exe, pn: pdb}, pn)
        if a != b:
            la, lb = a.split(b"\n"), b.split(b"\n")
            n = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            ctx.violation("dump of the executable and of the PDB differ in line %d: %r / %r" % (n + 1, la[n:n + 1], lb[n:n + 1]))
        s = sym.parse(a)
        want = {(lo, hi) for _, _, lo, hi in w.m.decl} & set(w.m.fdes)
        if not s.funcs or not s.code_id or ((want if arch == "pdb64" else w.w.fpo) and not s.stack):
            ctx.violation("the combined dump lacks functions, code id or unwind records")
        ctx.tick("pairs dumped from both sides")
        ctx.seen("both", arch, form, ext, bool(inl))
        return
    junk = rng.choice([b"junk" * 50, b"MZ" + b"\0" * 100, p0[:56] + b"\xff" * 200, b"MSCF" + b"\0" * 60])
    nserv = 0
    if case["dir"] == "exe":
        with open(os.path.join(exedir, en), "wb") as f:
            f.write(exe)
        args = dict(right=pdb, wg=msf.with_id(p0, g2, age), wa=msf.with_id(p0, g, age2), junk=junk)
        places = {"rec": os.path.join(rdir, pn), "sub": os.path.join(cwd, "sub", pn), "beside": os.path.join(exedir, pn),
                  "besidecab": os.path.join(exedir, stem + ".pd_"), "cwd": os.path.join(cwd, pn), "cache": os.path.join(cache, pn, msf.text(g, age), pn)}
        lookup = {"bare": ["cwd", "beside", "besidecab", "cache"], "win": ["beside", "besidecab", "cwd", "cache"], "abs": ["rec", "beside", "besidecab", "cwd", "cache"],
                  "rel": ["sub", "beside", "besidecab", "cwd", "cache"], "mixed": ["sub", "beside", "besidecab", "cwd", "cache"]}[form]
        laid, found = {}, False
        # a single right candidate most of the time, so that each place matters
        right_at = rng.choice(list(places) + [None])
        for n, p in places.items():
            what = "right" if n == right_at else rng.choice([c for c in CAND if c != "right" or rng.random() < 0.1])
            if n == "cache" and what in ("dir",):
                what = "none"       # a directory inside the cache is no cache we define
            laid[n] = what
            if lay(p, what, **args) and n in lookup:
                found = True
        opts, srv = [], None
        if rng.random() < 0.6:
            with httpd.Server() as srv:
                url = "/%s/%s/%s" % (httpd.q(pn), msf.text(g, age), httpd.q(pn))
                sw = rng.choice(["none", "right", "guid", "junk", "404"])
                if sw in ("right", "guid", "junk"):
                    srv.add(url, {"right": pdb, "guid": args["wg"], "junk": b"junk" * 60}[sw])
                opts = ["--symbol-server", "SRV*%s*%s" % (cache, srv.url)]
                laid["server"] = sw
                # the cache shadows the server
                if sw == "right" and laid["cache"] == "none":
                    found = True
                r = ctx.dump(*inl, *opts, os.path.join(exedir, en), cwd=cwd)
                nserv = len(srv.log)
        else:
            if laid["cache"] == "right" and not any(laid[n] == "right" for n in lookup if n != "cache"):
                found = False       # no symbol server given: no cache either
            r = ctx.dump(*inl, os.path.join(exedir, en), cwd=cwd, env={"HOME": cwd})
        ref = clean({en: exe, pn: pdb}, en) if found else clean({en: exe}, en)
    else:
        laid, found = {}, None
        pth = os.path.join(exedir, pn)
        with open(pth, "wb") as f:
            f.write(pdb)
        args = dict(right=exe, wg=msf.pe_with_id(e0, g2, age), wa=msf.pe_with_id(e0, g, age2), junk=rng.choice([b"junk" * 50, b"MZ" + b"\0" * 200, e0[:300]]))
        right_at = rng.choice(["dll", "dl_", "exe", "ex_", None])
        for x in ("dll", "dl_", "exe", "ex_"):
            what = "right" if x == right_at else rng.choice([c for c in CAND if c != "right" or rng.random() < 0.1])
            if what == "trunc":
                what = "junk"
            laid[x] = what
            if lay(os.path.join(exedir, stem + "." + x), what, **args) and found is None:
                found = stem + "." + {"dl_": "dll", "ex_": "exe"}.get(x, x)
        # decoys the program has no business with
        for n in ("other.dll", stem + ".sys"):
            with open(os.path.join(exedir, n), "wb") as f:
                f.write(exe)
        r = ctx.dump(*inl, pth, cwd=cwd)
        ref = clean({pn: pdb, found: exe}, pn) if found else clean({pn: pdb}, pn)
        form = "-"
    if r.hang or r.rc:
        ctx.violation("%s with candidates %r: the run fails: %s" % (case["dir"], laid, r.describe()))
        return
    if r.out != ref:
        la, lb = r.out.split(b"\n"), ref.split(b"\n")
        n = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
        ctx.violation("%s, recorded name %s, candidates %r, a partner %s: line %d is %r, expected %r" % (
            case["dir"], form, laid, "exists" if found else "does not exist", n + 1, la[n:n + 1], lb[n:n + 1]))
    ctx.tick("combined" if found else "alone")
    ctx.tick("server requests", nserv)
    ctx.seen(case["dir"], arch, form, bool(found), *["%s:%s" % kv for kv in sorted(laid.items())])
    if case["i"] < 4:
        ctx.sample = {"case": case, "candidates": laid, "recorded": form, "combined": bool(found)}
