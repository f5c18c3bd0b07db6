"""C18: symbol server and cache yield the right bytes or nothing."""
import os
import random
import shutil
import signal
import subprocess
import threading
import time

from vlib import batch, cab, common, httpd, msf, work

RULE = ("one case = an executable whose PDB is only on a loopback symbol server of ours (or a file asked for by its id), 1-5 servers with and without cache, given on the command line or in $HOME/.dump_syms/config, whose answers (late ones, status codes, "
        "redirects, length, chunked or unframed bodies, truncation at random points, resets, empty bodies, error pages, foreign or junk files, cabinets) are drawn at random; output, cache directory and the requests the servers saw are compared "
        "with what the answers determine, and a second run must use the cache without any request and print the same. Crash cases kill the process before, within and after every system call that changes the cache, or make that call fail, and "
        "check that files under their final name are complete and that the next run recovers. Concurrent cases run many instances and jobs on one cache with delayed and split writes while a monitor reads the final path "
        "continuously. distinct = (kind, answers per server, outcome) classes and (operation, kill mode) points")
ASSUMPTIONS = ["a server's HEAD and GET agree unless the GET is what fails", "no power loss: what was written before a kill stays", "a server that accepts a connection and never answers is not covered (the program has no timeout)"]
TECHNIQUE = "recording loopback server with scripted misbehaviour, kill/fault injection at every cache system call, continuous cache monitor under concurrency"
LEVEL = "exploration"
LEVEL_NOTE = "random server scripts; every cache operation of a run as kill point"
MIN_DISTINCT = 150
QUICK_S, THOROUGH_S = 90, 840
NEEDS = ["plain", "shim"]

KINDS = ["serve", "serve", "serve", "config", "byid", "kill", "concurrent", "cached", "serve", "multi", "fault", "serve", "bycode", "multi", "multi", "serve"]
DELIVERY = ["ok", "ok", "ok", "chunked", "close", "slow"]
BROKEN = ["short", "reset", "chunkcut"]
STATUS = [404, 404, 403, 410, 500, 503, 204, 206, 203, 201]


def cases(ctx):
    n = 416 if ctx.tier == "quick" else 7200
    return [{"i": i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]


class Setup:
    """An executable without PDB around it, and the PDB."""

    def __init__(self, ctx, tag="", stem=None):
        rng = ctx.rng
        self.ctx = ctx
        self.stem = stem or rng.choice(["m", "a.b", "Mod x", "caf\u00e9", "C#App", "100%zz", "UP", "q+r&s", "d'e", "_lib"])
        d = ctx.path("t" + tag, "x")[:-2]
        w = work.Work(ctx, rng.choice(["pdb64", "pdb64", "pdb32"]), "plain", dir=d)
        g, self.age = rng.randbytes(16), rng.choice([1, 2, 17])
        p0 = open(w.path, "rb").read()
        self.g, self.pn = g, self.stem + ".pdb"
        if not tag and rng.random() < 0.12:
            # the recorded name need not have an extension
            self.pn = self.stem.replace(".", "_")
        # the recorded name is bare: short names fit in place
        rec = self.pn.encode()
        os.makedirs(ctx.path("t2" + tag), exist_ok=True)
        dll, _ = w.w.build(ctx.path("t2" + tag), "m", pdb_name=self.pn)
        exe = msf.pe_with_id(open(dll, "rb").read(), g, self.age)
        self.pdb = msf.with_id(p0, g, self.age)
        g2 = bytearray(g)
        g2[rng.randrange(16)] ^= 1
        self.foreign = msf.with_id(p0, bytes(g2), self.age)
        self.id = msf.text(g, self.age)
        self.exedir = ctx.path("exe" + tag, "x")[:-2]
        os.makedirs(self.exedir, exist_ok=True)
        self.exe = os.path.join(self.exedir, self.stem + ".dll")
        with open(self.exe, "wb") as f:
            f.write(exe)
        self.inl = ["--inlines"] if rng.random() < 0.3 else []
        self.home = ctx.path("home", "x")[:-2]
        os.makedirs(self.home, exist_ok=True)
        self.env = {"HOME": self.home}
        # references
        self.alone = ctx.dump_ok(*self.inl, self.exe, env=self.env, cwd=self.home).out
        pd = ctx.path("pair" + tag, "x")[:-2]
        os.makedirs(pd, exist_ok=True)
        for n, b in ((self.stem + ".dll", exe), (self.pn, self.pdb)):
            with open(os.path.join(pd, n), "wb") as f:
                f.write(b)
        self.pairexe = os.path.join(pd, self.stem + ".dll")
        self.paired = ctx.dump_ok(*self.inl, self.pairexe, env=self.env, cwd=self.home).out
        if self.alone == self.paired:
            raise RuntimeError("the pair dumps like the executable")
        self.cab = cab.build([[(self.pn, self.pdb)]], mszip=rng.random() < 0.5)
        self.rel = os.path.join(self.pn, self.id, self.pn)

    def urls(self):
        n, c = httpd.q(self.pn), httpd.q(self.pn[:-1] + "_")
        return "/%s/%s/%s" % (n, self.id, n), "/%s/%s/%s" % (n, self.id, c)


def script(rng, s, cabinet, what=None):
    """One scripted answer: (description, kwargs for Server.add or None, delivered bytes or None, usable)."""
    what = what or rng.choice(["right", "right", "absent", "status", "empty", "notfound", "broken", "junk", "foreign", "redirect", "badcab", "dead", "getfails", "emptyclose", "prefix"])
    good = s.cab if cabinet or rng.random() < 0.1 else s.pdb
    if rng.random() < 0.06:
        # megabytes: many reads and writes; what follows the last block of a PDB or cabinet means nothing
        good += bytes(rng.choice([1 << 20, (3 << 20) + 1]))
    elif rng.random() < 0.08:
        good += rng.choice([b"Symbol Not Found\n", b"\nSymbol Not Found", b"<html>404</html>", b"\0" * 7])
    body, use = {"right": (good, True), "redirect": (good, True), "junk": (b"<html>oops</html>" * 9, False), "foreign": (s.foreign, False), "badcab": (s.cab[:len(s.cab) // 2], False),
                 "prefix": (b"Symbol Not Foun" + b"x" * 40, False)}.get(what, (good, False))
    if what == "absent":
        return what, None, None, False
    if what == "status":
        st = rng.choice(STATUS)
        return "%s%d" % (what, st), dict(body=b"" if st == 204 else good, status=st), None, False
    if what == "empty":
        return what, dict(body=b""), None, False
    if what == "emptyclose":
        return what, dict(body=b"", behave="close"), None, False
    if what == "notfound":
        return what, dict(body=b"Symbol Not Found\n" + rng.choice([b"", b"x" * 5000])), None, False
    if what == "broken":
        b = rng.choice(BROKEN)
        return what + b, dict(body=good, behave=b, cut=rng.choice([0, 1, 100, len(good) // 2, len(good) - 1])), None, False
    if what == "dead":
        return what, dict(body=b"", dead=True), None, False
    if what == "getfails":
        return what, dict(body=good, status=rng.choice([404, 500, 503, 204, 206, 203, 201, 202, 226]), head=200), None, False
    if what == "redirect":
        return what, dict(body=good, redirect=True), body, use
    return what, dict(body=body, behave=rng.choice(DELIVERY)), body, use


def lay(srv, url, kw):
    kw = dict(kw)
    hdelay = kw.pop("hdelay", 0)
    if kw.pop("redirect", None):
        srv.add("/moved" + url, kw["body"])
        srv.add(url, b"", status=302, headers=[("Location", "/moved" + url)])
    elif kw.pop("dead", None):
        srv.res[httpd.urllib.parse.unquote(url)] = dict(dead=True)
    else:
        srv.add(url, **kw)
    srv.res[httpd.urllib.parse.unquote(url)]["hdelay"] = hdelay


def judge(ctx, what, r, expect):
    if r.hang == "slow":
        raise common.Inconclusive("watchdog: " + r.describe())
    if r.hang or r.rc != 0:
        ctx.violation("%s: the run fails: %s" % (what, r.describe()))
    elif r.out != expect:
        la, lb = r.out.split(b"\n"), expect.split(b"\n")
        n = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
        ctx.violation("%s: line %d is %r, expected %r" % (what, n + 1, la[n:n + 1], lb[n:n + 1]))


def run_case(ctx, case):
    kind = case["kind"]
    {"serve": serve, "config": serve, "byid": serve, "cached": cached, "bycode": bycode, "kill": kill, "fault": kill, "concurrent": concurrent, "multi": multi}[kind](ctx, case)


def serve(ctx, case):
    rng, kind = ctx.rng, case["kind"]
    s = Setup(ctx)
    n = rng.choice([1, 1, 2, 3, 5])
    # in part of the cases a single place of all has the file
    only = (rng.randrange(n), rng.randrange(2)) if rng.random() < 0.35 else None
    # a few servers pause for seconds, before the answer or within it
    late = case["i"] % 65 == 0
    if late:
        only = (n - 1, rng.randrange(2))
    servers = [httpd.Server() for _ in range(n)]
    for x in servers:
        x.__enter__()
    try:
        caches, desc, used, spec = [], [], None, []
        for k, srv in enumerate(servers):
            c = rng.choice([None, "cache%d" % k, "cache%d" % k, "cache0"])
            tilde = rng.random() < 0.3
            cdir = None if c is None else os.path.join(s.home, c) if tilde else os.path.join(ctx.work, c)
            caches.append(cdir)
            url = srv.url + rng.choice(["", "", "/sub/dir", "/a b"])
            pre = httpd.urllib.parse.quote(url[len(srv.url):])
            spec.append("%s*%s%s" % (rng.choice(["SRV", "srv", "Srv"]), "" if c is None else ("~/" + c if tilde else cdir) + "*", url))
            for j, u in enumerate(s.urls()):
                pick = None if only is None else "right" if only == (k, j) else rng.choice(["absent", "absent", "status", "empty", "notfound", "broken", "dead", "getfails"])
                d, kw, body, use = script(rng, s, bool(j), pick)
                if kw is not None and rng.random() < 0.15:
                    kw["hdelay"] = rng.choice([0.02, 0.1])
                    d += "late"
                if late and only == (k, j):
                    kw.update(rng.choice([{"behave": "stall"}, {"behave": "stall"}, {"hdelay": 4}]))
                    d += "stall"
                desc.append("%s%d" % (d, j))
                if kw is not None:
                    lay(srv, pre + u, kw)
                if body is not None and used is None:
                    used = (body, use, cdir)
        if kind == "config":
            os.makedirs(os.path.join(s.home, ".dump_syms"), exist_ok=True)
            junk = ["", "# none", "cache*x", "foo*bar*http://127.0.0.1:1", "SRV*a*b*c*d"]
            lines = [rng.choice(["", "  "]) + x + rng.choice(["", " "]) for x in spec]
            for _ in range(rng.randrange(3)):
                lines.insert(rng.randrange(len(lines) + 1), rng.choice(junk))
            with open(os.path.join(s.home, ".dump_syms", "config"), "w") as f:
                f.write(rng.choice(["\n", ";", ";\n"]).join(lines) + rng.choice(["", "\n"]))
            opts = []
        else:
            opts = ["--symbol-server", ";".join(spec)]
        if kind == "byid":
            # the PDB itself is asked for
            opts += ["--debug-id", s.id]
            target = s.pn
            name = s.pn
            if used and used[1]:
                expect = ctx.dump_ok(*s.inl, ctx.write("only/" + s.pn, s.pdb) if os.makedirs(ctx.path("only"), exist_ok=True) is None else None, env=s.env, cwd=s.home).out
            else:
                expect = None
        else:
            target = s.exe
            expect = s.paired if used and used[1] else s.alone
        what = "answers %s" % desc
        for nrun in range(2):
            before = [len(x.log) for x in servers]
            r = ctx.dump(*s.inl, *opts, target, env=s.env, cwd=s.home, quiet_samples=80 if late else 12)
            reqs = [len(x.log) - b for x, b in zip(servers, before)]
            ctx.tick("requests seen", sum(reqs))
            if expect is None:
                if used and used[0] == s.foreign:
                    pass                 # asked for by id: whatever the server calls by this id
                elif r.hang or r.rc == 0 or r.out:
                    ctx.violation("%s: a file that cannot be had by id: %s" % (what, r.describe()))
            else:
                judge(ctx, what + (" (second run)" if nrun else ""), r, expect)
            have = {}
            for c in set(x for x in caches if x):
                for p, b in batch.tree(c).items():
                    have[os.path.join(c, p)] = b
            want = {}
            if used and used[2]:
                want = {os.path.join(used[2], s.rel): used[0]}
            if have != want:
                ctx.violation("%s: the cache holds %s, expected %s" % (what, {k: len(v) for k, v in have.items()}, {k: len(v) for k, v in want.items()}))
            if nrun and want and sum(reqs):
                ctx.violation("%s: %d requests although the file is cached" % (what, sum(reqs)))
            ctx.tick("cache files compared", len(have))
            if ctx.violations:
                return
        ctx.seen(kind, *desc, "used" if used and used[1] else "not")
        if case["i"] < 3:
            ctx.sample = {"case": case, "answers": desc, "requests": [x[1:3] for x in servers[0].log][:6]}
    finally:
        for x in servers:
            x.__exit__()


def bycode(ctx, case):
    """An executable asked for by its code id, and then its PDB, both from servers or caches."""
    rng = ctx.rng
    s = Setup(ctx)
    exe = open(s.exe, "rb").read()
    en, cid = s.stem + ".dll", rng.choice(["%08X%x" % (rng.randrange(1 << 32), 0x5000), "5D6AA5581AD000", "abcdef0"])
    ecab = cab.build([[(en, exe)]], mszip=rng.random() < 0.5)
    with httpd.Server() as a, httpd.Server() as b:
        ca, cb = ctx.path("ca"), rng.choice([ctx.path("cb"), ctx.path("ca")])
        opts = ["--symbol-server", "SRV*%s*%s;srv*%s*%s" % (ca, a.url, cb, b.url), "--code-id", cid]
        want = {}
        n, nc = httpd.q(en), httpd.q(en[:-1] + "_")
        how = rng.choice(["plain", "cab", "absent", "junk", "other", "cached", "cachedcab"])
        srv, cd = rng.choice([(a, ca), (b, cb)])
        rel = os.path.join(en, cid, en)
        if how == "plain":
            srv.add("/%s/%s/%s" % (n, cid, n), exe, behave=rng.choice(DELIVERY))
            want[os.path.join(cd, rel)] = exe
        elif how == "cab":
            srv.add("/%s/%s/%s" % (n, cid, nc), ecab, behave=rng.choice(DELIVERY))
            want[os.path.join(cd, rel)] = ecab
        elif how == "junk":
            srv.add("/%s/%s/%s" % (n, cid, n), b"junk" * 40)
        elif how == "other":
            # another build of it, and something of another name
            srv.add("/%s/%s/%s" % (n, cid + "0", n), exe)
            srv.add("/%s/%s/%s" % ("x" + n, cid, "x" + n), exe)
        elif how in ("cached", "cachedcab"):
            q = os.path.join(cd, rel)
            os.makedirs(os.path.dirname(q))
            with open(q, "wb") as f:
                f.write(exe if how == "cached" else ecab)
            want[q] = exe if how == "cached" else ecab
        usable = how in ("plain", "cab", "cached", "cachedcab")
        pdb = rng.choice(["right", "right", "absent", "foreign"])
        srv2, cd2 = rng.choice([(a, ca), (b, cb)])
        if pdb != "absent":
            body = s.pdb if pdb == "right" else s.foreign
            srv2.add(s.urls()[0], body)
            want[os.path.join(cd2, s.rel)] = body
        what = "--code-id, executable %s, PDB %s" % (how, pdb)
        out = ctx.path("by.sym")
        for k in range(2):
            before = len(a.log) + len(b.log)
            r = ctx.dump(*s.inl, *opts, *(["-o", out] if k else []), en, env=s.env, cwd=s.home)
            ctx.tick("requests seen", len(a.log) + len(b.log) - before)
            if not usable:
                if r.hang or r.rc == 0 or r.out or os.path.exists(out):
                    ctx.violation("%s: a file that cannot be had by id: %s" % (what, r.describe()))
                continue
            if k and not r.hang and not r.rc:
                with open(out, "rb") as f:
                    r.out = f.read()
            judge(ctx, what, r, s.paired if pdb == "right" else s.alone)
            have = {os.path.join(c, q): v for c in {ca, cb} for q, v in batch.tree(c).items()}
            if have != want:
                ctx.violation("%s: the cache holds %s, expected %s" % (what, {k: len(v) for k, v in have.items()}, {k: len(v) for k, v in want.items()}))
            if k and pdb != "absent" and len(a.log) + len(b.log) != before:
                ctx.violation("%s: requests although both files are cached" % what)
            ctx.tick("cache files compared", len(have))
            if ctx.violations:
                return
        ctx.seen("bycode", how, pdb, len({ca, cb}))


def cached(ctx, case):
    """A file already in one of several caches: used without a request."""
    rng = ctx.rng
    s = Setup(ctx)
    with httpd.Server() as srv:
        if rng.random() < 0.5:
            srv.add(s.urls()[0], rng.choice([s.foreign, b"junk" * 100]))
        n = rng.choice([1, 2, 3])
        dirs = [ctx.path("cc%d" % k) for k in range(n)]
        at = rng.randrange(n)
        what = rng.choice(["pdb", "pdb", "cab", "foreign", "cut", "empty", "junk"])
        body = {"pdb": s.pdb, "cab": s.cab, "foreign": s.foreign, "cut": s.cab[:200], "empty": b"", "junk": b"junk"}[what]
        p = os.path.join(dirs[at], s.rel)
        os.makedirs(os.path.dirname(p))
        with open(p, "wb") as f:
            f.write(body)
        # near misses that are not this file
        for q, b in ((os.path.join(dirs[rng.randrange(n)], s.pn, s.id[:-1] + "f", s.pn), s.foreign), (os.path.join(dirs[rng.randrange(n)], s.pn, s.id, s.pn + ".1.0.tmp"), b"half")):
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if not os.path.exists(q):
                with open(q, "wb") as f:
                    f.write(b)
        opts = ["--symbol-server", ";".join("SRV*%s*%s" % (d, srv.url) for d in dirs)]
        t0 = {d: batch.tree(d) for d in dirs}
        r = ctx.dump(*s.inl, *opts, s.exe, env=s.env, cwd=s.home)
        judge(ctx, "cache %d of %d holds %s" % (at, n, what), r, s.paired if what in ("pdb", "cab") else s.alone)
        if what in ("pdb", "cab") and srv.log:
            ctx.violation("%d requests although the file is cached" % len(srv.log))
        if {d: batch.tree(d) for d in dirs} != t0 and what in ("pdb", "cab"):
            ctx.violation("using the cache changes it")
        ctx.seen("cached", what, at, n)
        ctx.tick("cached files used")


def kill(ctx, case):
    """Dies, or is refused, at every operation that changes the cache."""
    rng = ctx.rng
    s = Setup(ctx)
    body = rng.choice([s.pdb, s.cab])
    with httpd.Server() as srv:
        srv.add(s.urls()[0], body, behave=rng.choice(["ok", "chunked"]))
        k = [0]

        def go(mode, at, err=28):
            k[0] += 1
            cd = os.path.join(ctx.work, "kc%d" % k[0], "deep")
            log = os.path.join(ctx.work, "log%d" % k[0])
            env = dict(s.env, LD_PRELOAD=ctx.bins["shim"], SHIM_ROOT=os.path.dirname(cd), SHIM_LOG=log, SHIM_MODE=mode, SHIM_AT=str(at), SHIM_ERR=str(err))
            r = ctx.dump(*s.inl, "--symbol-server", "SRV*%s*%s" % (cd, srv.url), s.exe, env=env, cwd=s.home)
            try:
                with open(log) as f:
                    l = [x.split() for x in f.read().splitlines()]
            except OSError:
                l = []
            return cd, r, l
        cd, r, log = go("none", 0)
        judge(ctx, "a fault-free run", r, s.paired)
        if ctx.violations:
            return
        if not log:
            raise RuntimeError("no cache operation seen")
        ctx.tick("cache operations in fault-free runs", len(log))
        modes = ["kill", "killmid"] if case["kind"] == "kill" else ["err", "errall", "short", "shorterr", "zero", "eintr"]
        for at in range(1, len(log) + 1):
            for mode in modes if len(log) < 12 or ctx.tier != "quick" else [rng.choice(modes)]:
                op = log[at - 1][1]
                if op not in ("write", "writev", "pwrite") and mode in ("short", "shorterr", "zero", "eintr"):
                    continue
                cd, r, l2 = go(mode, at, rng.choice([28, 5, 122, 13]))
                what = "%s at operation %d of %d (%s)" % (mode, at, len(log), op)
                if mode.startswith("kill") and r.rc != -signal.SIGKILL:
                    continue
                if r.hang:
                    ctx.violation("%s: the run never ends" % what)
                    continue
                if r.rc == 0:
                    judge(ctx, what, r, s.paired)
                elif not mode.startswith("kill") and not r.err.strip():
                    ctx.violation("%s: no message" % what)
                p = os.path.join(cd, s.rel)
                if os.path.exists(p):
                    got = open(p, "rb").read()
                    if got != body:
                        ctx.violation("%s: the cache holds %d of %d bytes under the final name" % (what, len(got), len(body)))
                r2 = ctx.dump(*s.inl, "--symbol-server", "SRV*%s*%s" % (cd, srv.url), s.exe, env=s.env, cwd=s.home)
                judge(ctx, what + ", next run", r2, s.paired)
                if not os.path.exists(p) or open(p, "rb").read() != body:
                    ctx.violation("%s: after the next run the cache does not hold the file" % what)
                ctx.seen(case["kind"], mode, op, "end%d" % (len(log) - at))
                ctx.tick("kill points" if mode.startswith("kill") else "failed operations")
                if len(ctx.violations) > 2:
                    return


def concurrent(ctx, case):
    """Several instances on one cache; a monitor reads the final path all the time."""
    rng = ctx.rng
    s = Setup(ctx)
    body = rng.choice([s.pdb, s.cab])
    with httpd.Server() as srv:
        srv.add(s.urls()[0], body, behave=rng.choice(["ok", "slow", "chunked"]))
        cd = ctx.path("shared")
        p = os.path.join(cd, s.rel)
        stop, seen, bad = threading.Event(), [0, 0], []

        def watch():
            while not stop.is_set():
                try:
                    with open(p, "rb") as f:
                        b = f.read()
                except OSError:
                    seen[0] += 1
                    time.sleep(0.0002)
                    continue
                seen[1] += 1
                if b != body:
                    bad.append(len(b))
                    return
                time.sleep(0.001)
        t = threading.Thread(target=watch)
        t.start()
        ps = []
        n = rng.choice([3, 6])
        for i in range(n):
            e = dict(os.environ, NO_PROXY="*", LD_PRELOAD=ctx.bins["shim"], SHIM_ROOT=cd, SHIM_MODE="delay", **s.env)
            ps.append(subprocess.Popen([ctx.bins["plain"]] + s.inl + ["--symbol-server", "SRV*%s*%s" % (cd, srv.url), s.exe], env=e, cwd=s.home, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
            ctx.evals += 1
            if rng.random() < 0.5:
                time.sleep(rng.random() * 0.02)
        killed = set()
        if rng.random() < 0.4:
            time.sleep(rng.random() * 0.06)
            v = rng.randrange(n)
            ps[v].kill()
            killed.add(v)
        for i, q in enumerate(ps):
            try:
                o, e = q.communicate(timeout=100)
            except subprocess.TimeoutExpired:
                for x in ps:
                    x.kill()
                raise common.Inconclusive("an instance takes too long")
            if i in killed and q.returncode < 0:
                continue
            if q.returncode or o != s.paired:
                ctx.violation("instance %d of %d: exit %s, %s output: %s" % (i, n, q.returncode, "right" if o == s.paired else "wrong", e.decode("utf-8", "replace")[-300:]))
        stop.set()
        t.join()
        if bad:
            ctx.violation("the cache shows %d of %d bytes under the final name while %d instances run" % (bad[0], len(body), n))
        if len(killed) < n and (not os.path.exists(p) or open(p, "rb").read() != body):
            ctx.violation("afterwards the cache does not hold the file")
        ctx.tick("instances run together", n)
        ctx.tick("monitor reads of a present file", seen[1])
        ctx.tick("monitor reads of an absent file", seen[0])
        ctx.seen("concurrent", n, bool(killed), "cab" if body is s.cab else "pdb", min(3, len([x for x in srv.log if x[1] == "GET"])))


def multi(ctx, case):
    """One batch over several executables, some of them copies, with a shared cache."""
    rng = ctx.rng
    ss = [Setup(ctx, tag=str(i), stem="m%d" % i) for i in range(rng.choice([2, 3]))]
    for x in ss:
        x.inl = ss[0].inl
    with httpd.Server() as srv:
        cd = ctx.path("shared")
        ok = {}
        for s in ss:
            ok[s] = rng.random() < 0.7
            if ok[s]:
                srv.add(s.urls()[rng.randrange(2)], rng.choice([s.pdb, s.cab]))
            else:
                srv.add(s.urls()[0], s.pdb, behave=rng.choice(BROKEN))
        st = ctx.path("st")
        files, same = [s.exe for s in ss], {s: [s.pairexe if ok[s] else s.exe] for s in ss}
        copies = rng.choice([0, 1, 3, 5])
        for k in range(copies):
            # copies of one executable: several threads fetch the same file
            s = ss[0] if rng.random() < 0.8 else ss[1]
            for d, l in (("copy%d" % k, files), ("pairs%d" % k, same[s])):
                os.makedirs(ctx.path(d))
                l.append(ctx.path(d, os.path.basename(s.exe)))
                shutil.copy(s.exe, l[-1])
                if l is not files and ok[s]:
                    shutil.copy(os.path.join(os.path.dirname(s.pairexe), s.pn), ctx.path(d))
        rng.shuffle(files)
        env = dict(ss[0].env, LD_PRELOAD=ctx.bins["shim"], SHIM_ROOT=cd, SHIM_MODE="delay") if copies else ss[0].env
        r = ctx.dump(*ss[0].inl, "-j", str(8 if copies else rng.choice([1, 2, 8])), "--symbol-server", "SRV*%s*%s" % (cd, srv.url), "--store", st, *files, env=env, cwd=ss[0].home)
        if not r.ok:
            ctx.violation("a batch with a symbol server fails: %s" % r.describe())
            return
        got = batch.tree(st)
        for s in ss:
            ctx.dump_ok(*s.inl, "-j", "1", "--store", ctx.path("ref"), *same[s], env=s.env, cwd=s.home)
            want, = [b for p, b in batch.tree(ctx.path("ref")).items() if s.id in p]
            t = [b for p, b in got.items() if s.id in p]
            if len(t) != 1:
                ctx.violation("%d symbol files for one module" % len(t))
            elif t[0] != want:
                ctx.violation("in a batch, a PDB that was %s: the dump is not that of %s" % (("delivered", "the pair") if ok[s] else ("not delivered completely", "the executable alone")))
        for p, b in batch.tree(cd).items():
            if not any(os.path.join(s.pn, s.id, s.pn) == p and b in (s.pdb, s.cab) and ok[s] for s in ss):
                ctx.violation("the cache holds %s (%d bytes)" % (p, len(b)))
        ctx.seen("multi", len(ss), sum(ok.values()), copies)
        ctx.tick("batches with a server")
