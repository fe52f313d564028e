"""P12: system calls that fail, full disks"""
import os, re, resource, signal, random
from collections import Counter
from vlib.harness import Check
from vlib import faults as X, flows as F
from checks.p11 import Sub

ERR = {"write": ["ENOSPC", "EIO", "EDQUOT"], "openat": ["ENOSPC", "EACCES", "EMFILE", "EIO"], "rename": ["ENOSPC", "EACCES", "EIO"],
       "unlink": ["EACCES", "EROFS", "EIO"], "link": ["ENOSPC", "EACCES", "EMLINK"], "close": ["EIO", "ENOSPC", "EDQUOT"],
       "fsync": ["EIO"], "ftruncate": ["EIO"], "mkdir": ["ENOSPC", "EACCES"], "chmod": ["EPERM"], "fchmod": ["EPERM"],
       "lseek": ["EIO"], "fcntl": ["ENOLCK"]}


def pick(r, pts, key):
    """an injection: (text, strace expression, class)"""
    pts = [p for p in pts if p[0] in ERR and not (p[0] == "openat" and X.klass(p[1]) in ("r:etc", "r:areas"))]
    hot = [p for p in pts if X.klass(p[1]) not in ("log", "etc") and not p[1].startswith("r:")]
    pool = hot if hot and r.random() < .8 else pts
    if r.random() < .5:              # seldom made calls as often as frequent ones
        by = {}
        for x in pool:
            by.setdefault((x[0], X.klass(x[1])), []).append(x)
        pool = by[r.choice(sorted(by))]
    c, q, k = r.choice(pool)
    err = [x for x in ERR[c] if x != "EACCES" or key != "list" or c != "openat"]    # unreadable articles are skipped
    e = r.choice(err) if not q.startswith("r:") else r.choice(["EMFILE", "EIO"])
    # one failure, or the disk stays full
    more = r.choice(["", "", "+", "+2"]) if c in ("write", "openat", "rename", "link", "close", "mkdir") else r.choice(["", "", "+"])
    return (c, q, k, e, more), "%s:error=%s:when=%d%s" % (c, e, k, more), X.klass(q)


def problems(log):
    return [l for l in log.splitlines() if re.search(r"ERROR|WARNING|\$", l)]


def one(case, key, n, how):
    r = case.rng
    cls = FLOWS[key]
    seed = r.getrandbits(48)
    nf = r.choice([1, 1, 2, 3]) if key != "outgate" else 1

    def fresh(tag):
        fl = cls(Sub(case, tag), random.Random(seed), big=how == "size")
        fl.fill(nf)
        fl.sp.write_conf()
        return fl
    fl = fresh("dry")
    cmd = fl.cmd()
    R, calls = X.traced_run(fl, cmd)
    w = fl.where()
    case.check(R.rc == 0 and not fl.open_(w) and not w[3], "dry-%s" % key,
               lambda: "rc %d, open %s, broken %s\n%s" % (R.rc, fl.open_(w)[:3], w[3][:3], fl.sp.log()[-500:]))
    sizes = sorted({len(v) for v in fl.sp.tree().values()} | {0, 1})
    nofile = R.rc
    fl.sp.drop()
    pts = X.points(fl, calls)
    for k in range(n):
        fl = fresh("f%d" % k)
        cmd = fl.cmd()
        if how == "inject":
            (c, q, no, e, more), inj, kl = pick(r, pts, key)
            what = "%s: %s %s at #%d%s (%s)" % (fl.prog, c, e, no, more, os.path.relpath(q[2:] if q.startswith("r:") else q, X.base(fl)) if "/" in q else q)
            R, _ = X.traced_run(fl, cmd, inj)
            case.sig(key, c, e, kl, more, min(no, 30))
        else:
            if how == "size":
                lim = max(0, r.choice(sizes) + r.choice([-1, 0, 1, -100, 50, 4096]))
                if r.random() < .5:
                    lim = r.randrange(0, max(sizes) + 1)
                what = "%s: files limited to %d bytes" % (fl.prog, lim)

                def pre():
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            else:
                lim = r.randrange(3, 14)
                what = "%s: %d files at once" % (fl.prog, lim)

                def pre():
                    resource.setrlimit(resource.RLIMIT_NOFILE, (lim, lim))
            p, a, i = cmd
            R = fl.sp.run(p, *a, input=i, variant="plain", preexec=pre)
            case.sig(key, how, lim.bit_length(), R.rc)
        case.seen("faults_" + key)
        case.seen("exit_nonzero", R.rc != 0)
        case.check(R.rc >= 0 and R.rc < 128, "died-%s" % key, lambda: "%s: status %d\n%s\n%s" % (what, R.rc, R.err[-600:], fl.sp.log()[-600:]))
        w = fl.where()
        case.check(not w[3], "broken-output-%s" % key, lambda: "%s: %s (rc %d)\n%s" % (what, w[3][:3], R.rc, fl.sp.log()[-600:]))
        stdin = cmd[2] is not None
        if stdin:
            # whoever fed the program still has the message unless the
            # exit status was 0
            op = fl.open_(w)
            case.check(R.rc or not op, "lost-%s" % key, lambda: "%s: exit 0, not written: %s\n%s" % (what, op[:3], fl.sp.log()[-600:]))
        else:
            lost = fl.lost(w)
            case.check(not lost, "lost-%s" % key, lambda: "%s: lost %s (rc %d)\n%s" % (what, lost[:4], R.rc, fl.sp.log()[-900:]))
            op = fl.open_(w)
            if key == "repack":
                t = fl.taken()
                op = [x for x in op if x[0] not in t]
        log = problems(fl.sp.log())
        # (no log either where every write fails)
        told = how == "inject" and c == "write" and more == "+" or R.rc != 0 or bool(log) or bool(problems(R.err.decode("latin1")))
        if op:
            case.seen("undelivered_after_fault")
            case.check(told, "silent-%s" % key, lambda: "%s: exit 0 and no word in the log, but not delivered: %s" % (what, op[:3]))
        again = {i for i, _ in w[0]} & w[1]
        if again and not op and not stdin and key != "repack":
            case.seen("done_but_not_removed")
            case.check(told, "silent-input-%s" % key, lambda: "%s: exit 0 and no word in the log, but the input is still there: %s" % (what, sorted(again)[:3]))
        # the fault is gone: everything comes through
        q0 = w[2]
        for _ in range(3):
            if hasattr(fl, "finished") and fl.finished():
                break
            if stdin:
                if R.rc == 0:
                    break
                p, a, i = cmd
            else:
                p, a, i = fl.cmd()
            R = fl.sp.run(p, *a, input=i, variant="plain")
            if not case.san(R, "crash-" + key):
                break
            if R.rc == 0 and not fl.open_():
                break
        w = fl.where()
        case.check(not w[3], "broken-output-%s" % key, lambda: "%s, run again: %s" % (what, w[3][:3]))
        ok = w[2] | (fl.taken() if key == "repack" else set())
        op = [x for x in fl.open_(w) if x[0] not in ok]
        case.check(not op, "not-delivered-%s" % key, lambda: "%s: later runs (rc %d) do not deliver %s (in the input %s)\n%s" % (
            what, R.rc, op[:3], sorted(w[1])[:3], fl.sp.log()[-900:]))
        if w[2] and how != "inject":
            case.seen("set_aside", len(w[2]))
        # a disk where nothing can be written is no reason to put good mail
        # aside (a packet that can't be opened is, though)
        # (a packet that is done but can't be removed may be renamed)
        bad = sorted({x[0] for x in fl.open_(w)} & w[2])
        case.check(not bad or how == "files" or how == "inject" and c == "openat", "quarantined-%s" % key, lambda: "%s: good packets were put aside: %s\n%s" % (what, bad[:3], fl.sp.log()[-900:]))
        case.seen("messages_followed", len(fl.need))
        fl.sp.drop()


FLOWS = dict(X.ALL, batch=X.Batch, outgate=F.OutGate)
CHECK = Check("P12", "exploration",
              "the accounting of messages (input, finished output, set aside), the exit status and the log after a run in which "
              "chosen system calls failed, files could not grow or could not be opened, and after running again without faults",
              ["faults of writing, creating, renaming, removing and closing; errors of reading are not injected",
               "fault injection by strace -e inject= and resource limits"],
              variants=("asan", "plain"))
QN = {"toss": 40, "pack": 40, "list": 8}
for k in FLOWS:
    CHECK.phase(k, (lambda kk: lambda case: one(case, kk, 8, "inject"))(k), QN.get(k, 20), QN.get(k, 20) * 30)
    CHECK.phase(k + "-size", (lambda kk: lambda case: one(case, kk, 8, "size"))(k), QN.get(k, 20) // 2, QN.get(k, 20) * 15)
    CHECK.phase(k + "-files", (lambda kk: lambda case: one(case, kk, 4, "files"))(k), QN.get(k, 20) // 4, QN.get(k, 20) * 6)
