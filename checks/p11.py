"""P11: killed at any point, nothing lost"""
import os
from collections import Counter
from vlib.harness import Check
from vlib import faults as X, flows as F

KINDS = ["toss", "route", "pack", "gate", "toss", "pack", "list", "repack"]


def gone(fl):
    """Lost messages: nowhere delivered, waiting or put aside"""
    w = fl.where()
    return fl.lost(w), w


def rerun(case, fl, what, key):
    """runs the program until it ends by itself"""
    for k in range(3):
        if hasattr(fl, "finished") and fl.finished():
            break
        p, a, i = fl.cmd()
        R = fl.sp.run(p, *a, input=i, variant="plain")
        if not case.san(R, "crash-" + key):
            return
        if R.rc == 0:
            break
    else:
        case.fail("rerun-fails-" + key, "%s: still rc %d after 3 runs\n%s" % (what, R.rc, fl.sp.log()[-800:]))


def state(case, fl, what, key, when):
    lost, w = gone(fl)
    case.check(not w[3], "broken-output-%s" % key, "%s, %s: %s" % (what, when, w[3][:3]))
    case.check(not lost, "lost-%s" % key, lambda: "%s, %s: lost %s\n%s" % (what, when, lost[:4], fl.sp.log()[-600:]))
    return w


def one(case, key, npoints):
    r = case.rng
    cls = X.ALL[key]
    seed = r.getrandbits(48)
    import random

    def fresh(tag):
        # the same workload again in an empty spool
        fl = cls(Sub(case, tag), random.Random(seed))
        fl.fill(nf)
        fl.sp.write_conf()
        return fl
    nf = r.choice([1, 1, 2, 3])
    fl = fresh("dry")
    R, calls = X.traced_run(fl, fl.cmd())
    case.check(R.rc == 0, "dry-%s" % key, "rc %d %s\n%s" % (R.rc, R.err[-300:], fl.sp.log()[-300:]))
    w = state(case, fl, "no kill", key, "after a complete run")
    case.check(not fl.open_(w), "dry-%s" % key, lambda: "complete run left %s" % fl.open_(w)[:3])
    fl.sp.drop()
    pts = X.points(fl, calls)
    case.seen("calls_" + key, len(pts))
    case.sample = ["%s %s #%d" % (c, X.klass(q), k) for c, q, k in pts][:60]
    if not pts:
        return
    # prefer the ends: renames, unlinks and what is around them
    hot = [p for p in pts if p[0].startswith(("rename", "unlink", "link", "ftrunc")) or X.klass(p[1]) in ("pkt", "tmp", "out", "flo", "rfc")]
    for n in range(npoints):
        c, q, k = r.choice(hot if hot and r.random() < .6 else pts)
        fl = fresh("k%d" % n)
        what = "%s killed at %s #%d (%s)" % (fl.prog, c, k, os.path.relpath(q, fl.sp.d) if q.startswith("/") else q)
        R, _ = X.traced_run(fl, fl.cmd(), "%s:signal=KILL:when=%d" % (c, k))
        if R.rc in (-9, 137):
            case.seen("killed_" + key)
            case.sig(key, c, X.klass(q), min(k, 40))
        else:
            case.seen("not_reached")
        state(case, fl, what, key, "right after")
        if r.random() < .25:       # once more
            c2, q2, k2 = r.choice(pts)
            R, _ = X.traced_run(fl, fl.cmd(), "%s:signal=KILL:when=%d" % (c2, k2))
            case.seen("killed_twice", R.rc in (-9, 137))
            what += " and again at %s #%d" % (c2, k2)
            state(case, fl, what, key, "right after")
        if r.random() < .2:        # new mail in the meantime
            fl.fill(1) if key not in ("list", "repack") else None
            X.chown(fl)
            case.seen("mail_in_between")
        rerun(case, fl, what, key)
        w = state(case, fl, what, key, "after running again")
        # packets taken back from the outbound wait for the packer even
        # where they were not routed again
        ok = w[2] | (fl.taken() if key == "repack" else set())
        op = [x for x in fl.open_(w) if x[0] not in ok]
        case.check(not op, "not-delivered-%s" % key, lambda: "%s: still not delivered %s (in %s)\n%s" % (
            what, op[:3], sorted(w[1])[:3], fl.sp.log()[-600:]))
        dup = sum(1 for k3, v in w[0].items() if v > 1)
        case.seen("delivered_twice", dup)
        left = [f for f in fl.sp.tree("lock")]
        case.seen("messages_followed", len(fl.need))
        fl.sp.drop()


class Sub:
    """the case with its own directory"""
    def __init__(self, case, tag):
        self.__dict__["_c"] = case
        d = os.path.join(case.dir, tag)
        os.makedirs(d)
        os.chmod(d, 0o755)
        self.__dict__["dir"] = d

    def __getattr__(self, n):
        return getattr(self._c, n)

    def __setattr__(self, n, v):
        setattr(self._c, n, v)


CHECK = Check("P11", "exploration",
              "the accounting of messages (input, finished output, set aside) right after a kill at a chosen system call "
              "and after running the program again",
              ["kills happen between system calls (a write is done or not done)",
               "the file system keeps what was written before the kill (no power failure)"],
              variants=("plain",))
for k in sorted(set(KINDS)):
    CHECK.phase(k, (lambda kk: lambda case: one(case, kk, 8))(k), {"toss": 40, "pack": 36, "list": 10, "repack": 12}.get(k, 24),
                {"toss": 1500, "pack": 1500, "list": 300, "repack": 400}.get(k, 900))
