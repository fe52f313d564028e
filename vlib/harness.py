"""Common machinery: running the instrumented programs, collecting what the
monitors saw, known findings, evidence."""
import os, sys, time, json, random, shutil, tempfile, subprocess, signal, traceback, hashlib
import multiprocessing as mp
from collections import Counter

from . import build as B

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UID = GID = 65534

SAN = ("ERROR: AddressSanitizer", "runtime error:", "WARNING: MemorySanitizer",
       "ERROR: LeakSanitizer", "SUMMARY: UndefinedBehaviorSanitizer",
       "AddressSanitizer:DEADLYSIGNAL", "==ABORTING")


def can_drop():
    return os.geteuid() == 0


class R:
    __slots__ = ("rc", "out", "err", "timeout", "cmd")

    def __init__(self, rc, out, err, timeout, cmd):
        self.rc, self.out, self.err, self.timeout, self.cmd = rc, out, err, timeout, cmd

    def san(self):
        """Sanitizer report / crash signal / hang, or None."""
        if self.timeout:
            return "hang: " + " ".join(self.cmd)
        e = self.err.decode("latin1")
        for line in e.split("\n"):
            for s in SAN:
                if s in line:
                    fr = [l.strip() for l in e.split("\n")
                          if l.strip().startswith("#") and " in " in l and "libsanitizer" not in l][:4]
                    fr = [f.split(" in ")[-1] for f in fr]
                    return "%s: %s | %s" % (os.path.basename(self.cmd[0]),
                                            line.strip()[:200], " < ".join(fr)[:300])
        if self.rc < 0:
            return "%s: died of signal %d" % (os.path.basename(self.cmd[0]), -self.rc)
        return None


def sanenv():
    return {
        "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:exitcode=99:"
                        "handle_abort=1:detect_stack_use_after_return=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
        "MSAN_OPTIONS": "exitcode=99:halt_on_error=1",
    }


def run_cmd(cmd, cwd, env=None, input=None, timeout=60, drop=True, preexec=None,
            pass_fds=()):
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC0",
         "HOME": cwd, "LOGNAME": "nobody", "USER": "nobody"}
    e.update(sanenv())
    if env:
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    kw = {}
    if drop and can_drop():
        kw = dict(user=UID, group=GID, extra_groups=[])
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if input is not None
                         else subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True,
                         preexec_fn=preexec, pass_fds=pass_fds, umask=0o022, **kw)
    to = False
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    return R(p.returncode, out, err, to, cmd)


def popen(cmd, cwd, env=None, drop=True, stdin=subprocess.DEVNULL):
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC0",
         "HOME": cwd, "LOGNAME": "nobody", "USER": "nobody"}
    e.update(sanenv())
    if env:
        e.update(env)
    kw = {}
    if drop and can_drop():
        kw = dict(user=UID, group=GID, extra_groups=[])
    return subprocess.Popen(cmd, cwd=cwd, env=e, stdin=stdin, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, start_new_session=True, umask=0o022, **kw)


class Case:
    """What one case reports."""

    def __init__(self, index, rng, ctx, d):
        self.index, self.rng, self.ctx, self.dir = index, rng, ctx, d
        self.ev = Counter()        # observed events
        self.sigs = set()          # distinct non-trivial situations
        self.viol = []             # (key, text)
        self.sample = None
        self.evals = 0

    def seen(self, what, n=1):
        self.ev[what] += n

    def sig(self, *a):
        self.sigs.add(hashlib.sha1(repr(a).encode()).hexdigest()[:16])

    def check(self, cond, key, text=""):
        """One oracle evaluation."""
        self.evals += 1
        if not cond:
            self.fail(key, text)
        return bool(cond)

    def fail(self, key, text=""):
        if callable(text):
            text = text()
        self.viol.append((key, str(text)[:1500]))

    def san(self, r, key="crash"):
        self.evals += 1
        s = r.san()
        if s:
            self.fail(key, s + "\n" + " ".join(r.cmd))
            return False
        return True

    # -- running repository programs --------------------------------------
    def run(self, prog, args=(), input=None, env=None, timeout=60, variant="asan",
            cwd=None, preexec=None):
        src = self.ctx["src"][variant]
        cmd = [os.path.join(src, prog)] + [a for a in args]
        self.seen("runs")
        return run_cmd(cmd, cwd or self.dir, env, input, timeout, preexec=preexec)


def chown_tree(d):
    if not can_drop():
        return
    os.chown(d, UID, GID)
    for r, ds, fs in os.walk(d):
        for x in ds + fs:
            os.lchown(os.path.join(r, x), UID, GID)


_CTX = None
_FUNC = None


def _worker(job):
    i, seed, prop, deadline = job
    if time.time() > deadline:
        return None
    d = tempfile.mkdtemp(prefix="fgv-run-", dir=B._scratch_root())
    os.chmod(d, 0o755)
    rng = random.Random("%s:%s:%s" % (seed, prop, i))
    c = Case(i, rng, _CTX, d)
    try:
        _FUNC(c)
        return (i, c.evals, c.ev, c.sigs, c.viol, c.sample, None)
    except (ValueError, LookupError, AttributeError, TypeError, FileNotFoundError, NotADirectoryError,
            IsADirectoryError):
        # what the program left behind can't be interpreted (missing fields or
        # files, malformed packets, ...), never happens where it works
        if not c.viol:
            c.fail("not-interpretable", traceback.format_exc()[-1500:])
        return (i, c.evals, c.ev, c.sigs, c.viol, None, None)
    except Exception:
        if c.viol:
            return (i, c.evals, c.ev, c.sigs, c.viol, None, None)
        return (i, 0, Counter(), set(), [], None, traceback.format_exc())
    finally:
        if not os.environ.get("FGV_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


class Check:
    """
    prop, title: id and name
    phases: list of (name, func, n_quick, n_thorough)
    """

    def __init__(self, prop, level, rule, assumptions=(), variants=("asan",), prepare=None):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.variants = variants
        self.prepare = prepare
        self.phases = []
        self.cov_extra = {}
        self.post = None

    def phase(self, name, func, quick, thorough, workers=None):
        self.phases.append((name, func, quick, thorough, workers))

    def main(self, argv=None):
        import argparse
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--phase")
        ap.add_argument("--case", type=int)
        ap.add_argument("--scale", type=float, default=1.0)
        ap.add_argument("--budget", type=float)
        a = ap.parse_args(argv)
        tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        t0 = time.time()
        global _CTX, _FUNC
        srcs = {}
        try:
            for v in self.variants:
                srcs[v] = B.build(v)
            extra = self.prepare(srcs) if self.prepare else {}
        except B.BuildError as e:
            sys.stderr.write("build failed: %s\n" % e)
            return 2
        _CTX = {"src": srcs, "tier": tier, "seed": a.seed}
        _CTX.update(extra)
        budget = a.budget or (300 if tier == "quick" else 3000)
        deadline = t0 + budget
        ev, sigs, evals, viol, samples, errors = Counter(), set(), 0, [], [], []
        done = Counter()
        skipped = 0
        try:
            for name, func, q, t, workers in self.phases:
                if a.phase and a.phase != name:
                    continue
                n = int((q if tier == "quick" else t) * a.scale) or 1
                if a.case is not None:
                    jobs = [(a.case, a.seed, self.prop + name, deadline)]
                else:
                    jobs = [(i, a.seed, self.prop + name, deadline) for i in range(n)]
                _FUNC = func
                w = workers or (os.cpu_count() or 4)
                with mp.get_context("fork").Pool(min(w, max(1, len(jobs)))) as pool:
                    for res in pool.imap_unordered(_worker, jobs, chunksize=1):
                        if res is None:
                            skipped += 1
                            continue
                        i, e_, ev_, s_, v_, sm, err = res
                        evals += e_
                        ev.update(ev_)
                        sigs |= {name + ":" + x for x in s_}
                        done[name] += 1
                        for k, txt in v_:
                            viol.append((k, name, i, txt))
                        if sm and len([1 for x in samples if x.startswith(name)]) < 3:
                            samples.append("%s#%d: %s" % (name, i, sm))
                        if err:
                            errors.append((name, i, err))
        finally:
            for s in srcs.values():
                B.cleanup(s)
        return self.finish(tier, a.seed, t0, ev, sigs, evals, viol, samples, errors,
                           done, skipped, partial=a.case is not None or a.phase)

    def finish(self, tier, seed, t0, ev, sigs, evals, viol, samples, errors, done,
               skipped, partial):
        known = load_known(self.prop)
        new, hit = [], {}
        for k, name, i, txt in viol:
            if k in known:
                hit.setdefault(k, (name, i, txt))
            else:
                new.append((k, name, i, txt))
        for k in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        evd = os.environ.get("FGV_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        out = {
            "property": self.prop, "tier": tier, "seed": seed, "level": self.level,
            "coverage": dict({
                "evaluations": int(evals),
                "distinct_nontrivial": len(sigs),
                "rule": self.rule,
                "samples": samples[:12] or ["(none)"],
                "events": {k: int(v) for k, v in sorted(ev.items())},
                "cases": {k: int(v) for k, v in sorted(done.items())},
                "cases_skipped_for_time": skipped,
            }, **self.cov_extra),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(out, f, indent=1)
            f.write("\n")
        rc = 0
        if new:
            rd = os.path.join(evd, "replay")
            os.makedirs(rd, exist_ok=True)
            new.sort(key=lambda x: (x[1], x[2]))
            byk = {}
            for v in new:
                byk.setdefault(v[0], v)
            first = None
            for n, (k, name, i, txt) in enumerate(list(byk.values())[:5]):
                rp = os.path.join(rd, "%s-%d.json" % (self.prop, n))
                with open(rp, "w") as f:
                    json.dump({"property": self.prop, "key": k, "phase": name, "case": i,
                               "seed": seed, "what": txt,
                               "rerun": "python3 /verif/run.py %s --seed %d --phase %s --case %d"
                                        % (self.prop, seed, name, i)}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
                print("  key=%s phase=%s case=%d\n  %s" % (k, name, i, txt.replace("\n", "\n  ")))
            print("%d violations, %d kinds" % (len(new), len(byk)))
            rc = 1
        elif errors:
            for name, i, e in errors[:3]:
                sys.stderr.write("harness error in %s#%d:\n%s\n" % (name, i, e))
            rc = 3
        print("%s %s: %d evaluations, %d distinct situations, %s, %.1fs -> %s" % (
            self.prop, tier, evals, len(sigs), dict(done), time.time() - t0,
            {0: "held", 1: "VIOLATED", 3: "harness error"}[rc]))
        return rc


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("status", "open") == "open" and d["property"] == prop:
                known[d["key"]] = d["what"]
    return known
