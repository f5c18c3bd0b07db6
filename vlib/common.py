"""Check framework: case pool, run helper with hang classification, verdicts, evidence."""
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_VIOLATIONS = int(os.environ.get("VERIF_MAX_VIOLATIONS", "5"))


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, **files):
        super().__init__(msg)
        self.msg, self.files = msg, files


class Run:
    """Result of one execution of the program under observation."""

    def __init__(self, argv, rc, out, err, hang, cpu):
        self.argv, self.rc, self.out, self.err, self.hang, self.cpu = argv, rc, out, err, hang, cpu

    @property
    def ok(self):
        return self.hang is None and self.rc == 0

    def describe(self):
        return "argv=%r rc=%r hang=%r stderr=%r" % (self.argv, self.rc, self.hang, self.err[-600:])


def _tasks(pid):
    """Scheduling snapshot of every thread: (tid, state, cpu ticks, context switches)."""
    out = []
    try:
        for t in sorted(os.listdir("/proc/%d/task" % pid)):
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                s = f.read()
            s = s[s.rindex(")") + 2:].split()
            sw = 0
            with open("/proc/%d/task/%s/status" % (pid, t)) as f:
                for line in f:
                    if "ctxt_switches" in line:
                        sw += int(line.split()[1])
            out.append((t, s[0], int(s[11]) + int(s[12]), sw))
    except (OSError, ValueError, IndexError):
        return None
    return out


def run(argv, cwd=None, env=None, stdin=None, watchdog=120.0, cpu_limit=60.0, settle=2.0,
        stdout=None, quiet_samples=12, mem_mb=None, pass_fds=()):
    """Runs argv. hang is None, 'deadlock' (every thread asleep, no thread consumed CPU or was
    scheduled during quiet_samples*0.25 s), 'spin' (more CPU than cpu_limit) or 'slow'
    (the wall-clock watchdog; inconclusive)."""
    e = dict(os.environ)
    for k in ("RUST_BACKTRACE", "RUST_LOG"):
        e.pop(k, None)
    e["NO_PROXY"] = "*"
    e.update(env or {})
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        def pre():
            os.setsid()
            if mem_mb:
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        p = subprocess.Popen([str(a) if not isinstance(a, bytes) else a for a in argv], cwd=cwd, env=e,
                             stdin=stdin if stdin is not None else subprocess.DEVNULL,
                             stdout=fo if stdout is None else stdout, stderr=fe, preexec_fn=pre, pass_fds=pass_fds)
        t0 = time.monotonic()
        hang, same, last, cpu = None, 0, None, 0.0
        try:
            p.wait(timeout=settle)
        except subprocess.TimeoutExpired:
            hz = os.sysconf("SC_CLK_TCK")
            while True:
                try:
                    p.wait(timeout=0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                snap = _tasks(p.pid)
                if snap:
                    cpu = sum(s[2] for s in snap) / hz
                    if cpu > cpu_limit:
                        hang = "spin"
                    elif snap == last and all(s[1] == "S" for s in snap):
                        same += 1
                        if same >= quiet_samples:
                            hang = "deadlock"
                    else:
                        same = 0
                    last = snap
                if time.monotonic() - t0 > watchdog:
                    hang = hang or "slow"
                if hang:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    break
        fo.seek(0)
        fe.seek(0)
        return Run(argv, p.returncode, fo.read(), fe.read().decode("utf-8", "replace"), hang, cpu)


class Ctx:
    """Per-case context handed to run_case."""

    def __init__(self, prop, tier, seed, case, work, bins):
        self.prop, self.tier, self.seed, self.case, self.work, self.bins = prop, tier, seed, case, work, bins
        h = hashlib.sha256(("%s/%s/%s" % (prop, seed, json.dumps(case, sort_keys=True, default=str))).encode()).digest()
        self.rng = random.Random(h)
        self.evals = 0
        self.sigs = set()
        self.counts = {}
        self.violations = []
        self.inconclusive = []
        self.sample = None
        self.known = []

    def path(self, *names):
        p = os.path.join(self.work, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, name, data):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p

    def seen(self, *sig):
        """Counts a non-trivial observation, keyed by what makes it distinct."""
        self.sigs.add(" ".join(str(s) for s in sig))

    def tick(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def violation(self, msg):
        self.violations.append(msg)

    def dump(self, *args, **kw):
        """Runs the real dump_syms binary."""
        self.evals += 1
        binary = kw.pop("binary", None) or self.bins["plain"]
        r = run([binary] + list(args), **kw)
        self.last_run = r
        return r

    def dump_ok(self, *args, what="a valid input", **kw):
        """The run must end by itself with exit status 0: anything else refutes the property."""
        r = self.dump(*args, **kw)
        if r.hang == "slow":
            raise Inconclusive("watchdog: " + r.describe())
        if r.hang:
            raise Violation("%s: the run never ends (%s): %s" % (what, r.hang, r.describe()))
        if r.rc != 0:
            raise Violation("%s: the run fails: %s" % (what, r.describe()))
        return r


def _worker(args):
    mod_name, prop, tier, seed, case, bins, base = args
    import importlib
    mod = importlib.import_module(mod_name)
    work = tempfile.mkdtemp(prefix="c-", dir=base)
    ctx = Ctx(prop, tier, seed, case, work, bins)
    err = None
    try:
        mod.run_case(ctx, case)
    except Violation as v:
        ctx.violations.append(v.msg)
    except Inconclusive as i:
        ctx.inconclusive.append(str(i))
    except Exception:
        err = traceback.format_exc()
    if ctx.violations and not err:
        rep = os.path.join(VERIF, "replays", prop)
        os.makedirs(rep, exist_ok=True)
        name = hashlib.sha256(json.dumps([case, seed], sort_keys=True, default=str).encode()).hexdigest()[:12]
        dst = os.path.join(rep, name)
        shutil.rmtree(dst, ignore_errors=True)
        try:
            shutil.copytree(work, dst, symlinks=True, ignore_dangling_symlinks=True)
        except Exception:
            os.makedirs(dst, exist_ok=True)
        with open(os.path.join(dst, "replay.json"), "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "case": case,
                       "violations": ctx.violations[:20], "scratch_dir": work,
                       "replay": "cd /verif && ./check %s --tier %s --seed %d --case '%s'" % (prop, tier, seed, json.dumps(case, default=str))},
                      f, indent=1, default=str)
        replay = dst
    else:
        replay = None
    shutil.rmtree(work, ignore_errors=True)
    return dict(evals=ctx.evals, sigs=ctx.sigs, counts=ctx.counts, violations=ctx.violations,
                inconclusive=ctx.inconclusive, sample=ctx.sample, err=err, replay=replay, case=case, known=ctx.known)


def main(prop, argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--jobs", type=int, default=None)
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    mod_name = "checks." + prop.lower()
    mod = importlib.import_module(mod_name)
    from . import build
    base = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    os.chmod(base, 0o755)
    code = 2
    try:
        bins = build.ensure(getattr(mod, "NEEDS", ["plain"]))
        tb = time.monotonic() - t0
        ctx0 = Ctx(prop, a.tier, a.seed, "prepare", base, bins)
        if hasattr(mod, "prepare"):
            mod.prepare(ctx0)
        cases = [json.loads(a.case)] if a.case else list(mod.cases(ctx0))
        budget = a.budget or (getattr(mod, "QUICK_S", 60) if a.tier == "quick" else getattr(mod, "THOROUGH_S", 480))
        jobs = a.jobs or getattr(mod, "JOBS", 8)
        sigs, counts, viol, samples, incon, errs, known = set(), {}, [], [], [], [], set()
        evals = done = 0
        t1 = time.monotonic()
        items = [(mod_name, prop, a.tier, a.seed, c, bins, base) for c in cases]
        stopped = None
        mp = multiprocessing.get_context("fork")
        with mp.Pool(jobs, maxtasksperchild=200) as pool:
            it = pool.imap_unordered(_worker, items, chunksize=1)
            for r in it:
                done += 1
                evals += r["evals"]
                sigs |= r["sigs"]
                known |= set(r["known"])
                for k, v in r["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                if r["sample"] is not None and len(samples) < 5:
                    samples.append(r["sample"])
                if r["err"]:
                    errs.append((r["case"], r["err"]))
                incon += [(r["case"], m) for m in r["inconclusive"]]
                if r["violations"]:
                    viol.append(r)
                if len(viol) >= MAX_VIOLATIONS:
                    stopped = "violations"
                    break
                if time.monotonic() - t1 > budget and done < len(items):
                    stopped = "time budget"
                    break
            pool.terminate()
        evals += ctx0.evals
        sigs |= ctx0.sigs
        for k, v in ctx0.counts.items():
            counts[k] = counts.get(k, 0) + v
        wall = time.monotonic() - t0
        ev = {
            "property": prop, "tier": a.tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
                "samples": samples or ["(none)"],
                "cases_planned": len(items), "cases_run": done, "stopped_by": stopped or "all cases run",
                "observed": counts, "inconclusive_cases": len(incon), "build_s": round(tb, 1),
                "signature_examples": sorted(sigs)[:40],
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2), "violations": len(viol),
        }
        if not a.case:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for c, m in incon[:5]:
            print("inconclusive: case %s: %s" % (json.dumps(c, default=str)[:200], m))
        for r in viol:
            for m in r["violations"][:3]:
                print("  %s" % m[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
        for c, e in errs[:3]:
            print("harness error in case %s:\n%s" % (json.dumps(c, default=str)[:300], e))
        print("%s %s seed=%d: %d cases, %d evaluations, %d distinct observations, %d violations, %d inconclusive, %d harness errors, %.1fs (build %.1fs)%s" % (
            prop, a.tier, a.seed, done, evals, len(sigs), len(viol), len(incon), len(errs), wall, tb,
            "; stopped by " + stopped if stopped else ""))
        if counts:
            print("  observed: " + ", ".join("%s=%s" % kv for kv in sorted(counts.items())))
        if viol:
            code = 1
        elif errs:
            code = 2
        elif incon and len(incon) > max(2, done // 20):
            code = 2
        elif not a.case and len(sigs) < getattr(mod, "MIN_DISTINCT", 2):
            print("inconclusive: too little was observed")
            code = 2
        else:
            code = 0
    except build.BuildError as e:
        print("build failed: %s" % e)
        code = 2
    except Inconclusive as e:
        print("inconclusive: %s" % e)
        code = 2
    except Violation as v:
        rep = os.path.join(VERIF, "replays", prop, "prepare")
        os.makedirs(rep, exist_ok=True)
        with open(os.path.join(rep, "replay.json"), "w") as f:
            json.dump({"property": prop, "violations": [v.msg]}, f)
        print("  " + v.msg)
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        code = 1
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return code
