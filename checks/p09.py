"""P09: program, node and area-list locks"""
import os, re, signal, struct, subprocess, time, threading
from vlib.harness import Check, popen, chown_tree, UID, GID
from vlib import native, par, flows as F
from vlib.spool import Spool
from vlib.pkt import N, Msg, Pkt, parse
from vlib.tossmodel import fts_date


def prepare(srcs):
    return {"locktest": native.helper(srcs["plain"], "locktest"), "shim": native.shim(srcs["plain"])}


# ---------------------------------------------------------------- stress
def stress(case):
    """many processes taking the same lock, some of them dying inside or at
    any file operation; a shared word watches for two owners"""
    r = case.rng
    sp = Spool(case)
    sp.write_conf()
    mode = r.choice("pfb")
    name = "prog" if mode == "p" else sp.p("lock/file.lock")
    sh = sp.p("shared")
    with open(sh, "wb") as f:
        f.write(b"\0" * 4096)
    os.chown(sh, UID, GID) if os.geteuid() == 0 else None
    nproc = r.choice([2, 3, 4, 6, 8])
    wait = r.choice([-1, -1, 0, 0, 1, 3])
    iters = {-1: 12, 0: 60}.get(wait, 12)
    churn = r.random() < .4          # processes come and go
    if churn:
        iters = 1
    die = r.choice([0, 0, 5, 30])
    killp = r.choice([0, 0, 2000, 20000])
    delay = r.choice([0, 50, 500, 2000])
    env = dict(sp.env(), LD_PRELOAD=case.ctx["shim"], SHIM_DELAY=str(delay), SHIM_PROB=str(r.choice([20, 60, 100])),
               SHIM_SLEEP=str(r.choice([100, 500, 1000])), SHIM_KILL=str(killp), SHIM_LOG=sp.p("shimlog"))
    pidoff = 0
    if r.random() < .4:              # a machine with high process numbers
        pidoff = r.choice([32768, 65536, 99999, 1000000, 4000000])
        env["SHIM_PIDOFF"] = str(pidoff)
        case.seen("high_process_numbers")
    if r.random() < .4:      # a lock left by a dead process at the start
        dead = subprocess.Popen(["true"])
        dead.wait()
        lf = {"p": "lock/prog", "f": "lock/file.lock", "b": "bt/out/13a60007.pnt/00000003.bsy"}[mode]
        sp.put(lf, "%d\n" % (dead.pid + pidoff))
        chown_tree(sp.d)
        case.seen("stale_at_start")

    def start(k, n, w=wait):
        e = dict(env, SHIM_SEED=str(k))
        return popen([case.ctx["locktest"], sp.p("etc/fidogate.conf"), mode, name, str(n), str(w),
                      str(r.choice([0, 50, 300])), str(die), sh], sp.d, e)
    procs = [start(k, iters) for k in range(nproc)]
    k = nproc
    respawn = 10 * nproc if churn else 3 * nproc
    end = time.time() + 60
    while procs:
        for p in list(procs):
            rc = p.poll()
            if rc is None:
                continue
            procs.remove(p)
            out = p.stdout.read().decode() + p.stderr.read().decode()
            p.stdout.close(); p.stderr.close()
            if rc == -9 or churn:
                case.seen("killed", rc == -9)
                if respawn:
                    respawn -= 1
                    k += 1
                    procs.append(start(k, iters))
            if rc != -9:
                case.check(rc in (0, 9), "lock-crash", "locktest ended with %s: %s" % (rc, out[-300:]))
            case.check("VIOLATION" not in out, "two-owners",
                       "mode %s wait %s die %s kill %s: %s" % (mode, wait, die, killp, out[:300]))
        if time.time() > end:
            for p in procs:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            case.fail("lock-hang", "%d of %d processes still wait after 60 s (mode %s wait %s die %s kill %s): %s" % (
                len(procs), nproc, mode, wait, die, killp, sp.ls("lock")))
            break
        time.sleep(.0005 if churn else .002)
    own, inside, fails, deaths, takeover, viol, errs = struct.unpack("<i4x6q", open(sh, "rb").read(56))
    case.check(viol == 0, "two-owners", "%d times two processes were inside (mode %s wait %s)" % (viol, mode, wait))
    case.check(errs == 0, "wait-gave-up", "%d times a process that waits was refused (mode %s)" % (errs, mode))
    case.seen("locked_sections", inside); case.seen("refused", fails); case.seen("died_inside", deaths)
    case.seen("taken_over", takeover)
    if os.path.exists(sp.p("shimlog")):
        n = [list(map(int, x.split())) for x in open(sp.p("shimlog"))]
        case.seen("file_operations", sum(x[0] for x in n)); case.seen("injected_delays", sum(x[1] for x in n))
    # whatever happened, the lock can be had now
    env = dict(env, SHIM_DELAY="0", SHIM_KILL="0")
    die = 0
    p = start(0, 1, 0)
    p.wait()
    p.stdout.close(); p.stderr.close()
    f2 = struct.unpack("<i4x6q", open(sh, "rb").read(56))[2]
    case.check(f2 == fails, "lock-stuck", "the lock cannot be taken after all processes are gone: %s" % sp.ls("lock"))
    left = [x for x in list(sp.tree("lock")) + [x for x in sp.tree("bt") if x.endswith(".bsy")] if ".L" not in x]
    case.check(not left, "lock-left", "lock files left: %s" % left)
    case.sig(mode, nproc, wait, die > 0, killp > 0, delay > 0, min(takeover, 2), min(fails, 2))
    case.sample = "mode %s, %d processes, wait %s: %d sections, %d refused, %d died inside, %d taken over" % (
        mode, nproc, wait, inside, fails, deaths, takeover)


# -------------------------------------------------------------- programs
def af_spool(case, extra=""):
    sp = Spool(case, conf=["AreafixMailer cat > /dev/null"])
    sp.put("etc/areas.bbs", "# list\n" + "".join("#- AREA%d 2:5030/1 2:5030/9\n" % i for i in range(6)))
    sp.put("etc/passwd", "".join("af 2:5030/%d pw 9 A\n" % i for i in range(1, 9)))
    return sp


class AfPkt:
    prog, name = "areafix/ftnafpkt", "ftnafpkt"

    def __init__(s, case, r):
        s.sp = af_spool(case)
        s.n = 0

    def fill(s):
        for i in range(3):
            s.n += 1
            m = Msg(b"Sysop", b"areafix", b"pw", b"\1INTL 2:5030/100 2:5030/%d\r\1MSGID: 2:5030/%d %08x\r+AREA%d\r" % (i + 2, i + 2, s.n, i),
                    N("2:5030/%d" % (i + 2)), N("2:5030/100"), 1, 0, fts_date(int(time.time())))
            s.sp.put("bt/pin/%08x.pkt" % s.n, Pkt(N("2:5030/%d" % (i + 2)), N("2:5030/100"), [m]).raw())

    def cmd(s):
        return s.prog, ["-l"], None

    def pending(s):
        return s.sp.tree("bt/pin")

    def done(s):
        b = s.sp.get("etc/areas.bbs").decode()
        return all(re.search(r"AREA%d 2:5030/1 .*2:5030/%d\b|AREA%d.*5030/1 %d" % (i, i + 2, i, i + 2), b) for i in range(3)) or \
            not s.sp.ls("bt/pin", "*.pkt")


class FlowProg:
    def __init__(s, cls, case, r):
        s.f = cls(case, r)
        s.sp, s.prog, s.name = s.f.sp, s.f.prog, s.f.mail_lock

    def fill(s):
        s.f.fill(3)

    def cmd(s):
        return s.f.cmd()

    def pending(s):
        return s.f.sp.tree(s.f.indir)

    def done(s):
        return not s.f.open_()


class Bsy(FlowProg):
    """the packer and a busy node: the mailer holds the node"""
    def __init__(s, case, r):
        FlowProg.__init__(s, F.Pack, case, r)
        s.lock = "bt/out/13a60001.bsy"
        s.name = None

    def fill(s):
        for _ in range(50):
            s.f.fill(1)
            if any("2:5030/1" in v for v in s.f.need.values()):
                break

    def pending(s):
        return {k: v for k, v in s.sp.tree("bt/out").items() if k.startswith("13a60001") and not k.endswith(".bsy")}


class Attach:
    prog, name = "util/ftnfattach", None

    def __init__(s, case, r):
        s.sp = Spool(case)
        s.sp.put("file.txt", "data")
        s.lock = "bt/out/13a60001.bsy"

    def fill(s):
        pass

    def cmd(s):
        return s.prog, ["2:5030/1", s.sp.p("file.txt")], None

    def pending(s):
        return s.sp.tree("bt/out") and {k: v for k, v in s.sp.tree("bt/out").items() if not k.endswith(".bsy")}

    def done(s):
        return any(b"file.txt" in v for v in s.sp.tree("bt/out").values())


class AfCmd:
    prog = "areafix/ftnaf"

    def __init__(s, case, r):
        s.sp = af_spool(case)
        s.lock, s.name = "etc/areas.bbs.lock", None

    def fill(s):
        pass

    def cmd(s):
        return s.prog, ["2:5030/3", "+AREA1"], None

    def pending(s):
        return {"x": s.sp.get("etc/areas.bbs")}

    def done(s):
        return b"5030/3" in s.sp.get("etc/areas.bbs") or re.search(rb"AREA1 .*\b3\b", s.sp.get("etc/areas.bbs"))


class AfMail(AfCmd):
    def cmd(s):
        return s.prog, ["-m"], (b"From: sysop@p0.f3.n5030.z2.fidonet.org\nX-FTN-From: Sysop @ 2:5030/3\nTo: areafix@gate.example.org\n"
                                b"Subject: pw\n\n+AREA1\n")


class AfUtil(AfCmd):
    """delete a subscription with the command line tool"""
    prog = "areafix/ftnafutil"

    def cmd(s):
        return s.prog, ["-w", "deleteall", "-n"], None


PROGS = {
    "toss": lambda c, r: FlowProg(F.Toss, c, r), "route": lambda c, r: FlowProg(F.Route, c, r),
    "pack": lambda c, r: FlowProg(F.Pack, c, r), "gate": lambda c, r: FlowProg(F.Gate, c, r),
    "afpkt": AfPkt, "bsy": Bsy, "attach": Attach, "afcmd": AfCmd, "afmail": AfMail,
}


def holder(as_root):
    """a living process; root's cannot be signalled by the programs"""
    kw = {} if as_root else dict(user=UID, group=GID, extra_groups=[]) if os.geteuid() == 0 else {}
    return subprocess.Popen(["sleep", "300"], **kw)


def programs(case):
    r = case.rng
    key = sorted(PROGS)[case.index % len(PROGS)]
    P = PROGS[key](case, r)
    P.fill()
    P.sp.write_conf()
    lock = getattr(P, "lock", None) or "lock/" + P.name
    prog, args, inp = P.cmd()
    before = P.pending()
    live = r.random() < .7
    if not live:                 # lock of a process that is gone
        dead = subprocess.Popen(["true"])
        dead.wait()
        P.sp.put(lock, "%d\n" % dead.pid)
        chown_tree(P.sp.d)
        R = P.sp.run(prog, *args, input=inp, variant="plain", timeout=40)
        case.san(R)
        case.check(R.rc == 0 and P.done(), "stale-lock", "%s: lock %s of a dead process: rc %d, not done\n%s" % (
            key, lock, R.rc, P.sp.log()[-400:] + R.err.decode("latin1")[-400:]))
        case.check(not os.path.exists(P.sp.p(lock)), "lock-left", "%s: %s left after the run" % (key, lock))
        case.sig(key, "stale")
        case.seen("stale_locks")
        return
    h = holder(r.random() < .4)
    text = "%d\n" % h.pid
    P.sp.put(lock, text)
    chown_tree(P.sp.d)
    waits = key in ("toss", "route", "pack", "gate", "afpkt", "attach", "afcmd", "afmail") and r.random() < .5
    try:
        env = dict(P.sp.env(), LD_PRELOAD=case.ctx["shim"], SHIM_SLEEP="20000")
        p = popen([os.path.join(case.ctx["src"]["plain"], prog)] + args, P.sp.d, env,
                  stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL)
        if inp is not None:
            p.stdin.write(inp); p.stdin.close()
            p.stdin = None
        t = time.time()
        while p.poll() is None and time.time() - t < r.choice([.4, .8]):
            time.sleep(.02)
        waiting = p.poll() is None
        got = P.pending()
        case.check(got == before, "worked-despite-lock", "%s: with %s held by a living process the data changed: %s" % (
            key, lock, [k for k in set(before) | set(got) if before.get(k) != got.get(k)][:5]))
        case.check(os.path.exists(P.sp.p(lock)) and P.sp.get(lock).decode() == text, "foreign-lock-removed",
                   "%s: lock %s of a living process is gone or changed" % (key, lock))
        case.seen("waited" if waiting else "refused")
        # the holder goes away and releases
        if os.path.exists(P.sp.p(lock)):
            os.unlink(P.sp.p(lock))
        h.kill(); h.wait()
        try:
            out, err = p.communicate(timeout=30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            case.fail("lock-hang", "%s: still waiting 30 s after %s was released" % (key, lock))
            return
        if waiting:
            case.check(p.returncode == 0 and P.done(), "not-done-after-wait", "%s waited for %s: rc %s, not done\n%s%s" % (
                key, lock, p.returncode, err[-300:], P.sp.log()[-300:]))
        elif key not in ("bsy", "pack"):
            case.check(p.returncode != 0 or "lock" in (P.sp.log() + err.decode("latin1")).lower(), "silent-refusal",
                       "%s refused to work with lock %s held, rc 0 and nothing said" % (key, lock))
        if not P.done():
            R = P.sp.run(prog, *args, input=inp, variant="plain", timeout=40)
            case.san(R)
            case.check(R.rc == 0 and P.done(), "not-done-after-release", "%s: rc %d, not done after %s was released\n%s" % (
                key, R.rc, lock, P.sp.log()[-400:]))
        case.check(not os.path.exists(P.sp.p(lock)), "lock-left", "%s: %s left after the run" % (key, lock))
    finally:
        h.kill(); h.wait()
    case.sig(key, waiting)
    case.seen("live_locks")


def waits(case):
    """-w N: gives up after about N seconds, goes on if released before"""
    r = case.rng
    key = ["toss", "history"][case.index % 2]
    P = FlowProg(F.Toss, case, r)
    P.fill()
    lock = "etc/areas.bbs.lock"
    if key == "history":
        lock = "lock/history"
    P.sp.write_conf()
    h = holder(False)
    n = 1 + case.index // 2 % 3
    rel = [None, .5][case.index // 6 % 2]
    P.sp.put(lock, "%d\n" % h.pid)
    before = P.pending()
    try:
        t = time.time()
        p = popen([os.path.join(case.ctx["src"]["plain"], P.prog), "-w", str(n)], P.sp.d, P.sp.env())
        if rel:
            time.sleep(rel)
            os.unlink(P.sp.p(lock))
        try:
            out, err = p.communicate(timeout=n + 25)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            case.fail("lock-hang", "-w %d with %s held: still waiting after %d s" % (n, lock, n + 25))
            return
        dt = time.time() - t
        if rel:
            case.check(p.returncode == 0 and P.done(), "not-done-after-wait", "-w %d, %s released after %.1f s: rc %d\n%s" % (
                n, lock, rel, p.returncode, P.sp.log()[-300:]))
        else:
            case.check(p.returncode != 0, "silent-refusal", "-w %d with %s held: rc 0" % (n, lock))
            case.check(dt > n - .2, "gave-up-early", "-w %d with %s held: ended after %.1f s" % (n, lock, dt))
            case.check(P.pending() == before, "worked-despite-lock", "-w %d with %s held: input changed" % (n, lock))
            case.check(os.path.exists(P.sp.p(lock)), "foreign-lock-removed", "lock %s of a living process is gone" % lock)
            os.unlink(P.sp.p(lock)) if os.path.exists(P.sp.p(lock)) else None
        left = [x for x in list(P.sp.tree("lock")) + list(P.sp.tree("etc")) if x.endswith(".lock") or x in ("history", "ftntoss")]
        case.check(not left, "lock-left", "-w %d: %s left" % (n, left))
    finally:
        h.kill(); h.wait()
    case.sig(key, n, rel)
    case.seen("timed_waits")


# ------------------------------------------------------------- concurrent
def concurrent(case):
    """several instances of one program work on the same mail"""
    r = case.rng
    cls = F.FLOWS[sorted(F.FLOWS)[case.index % 4]]
    fl = cls(case, r)
    fl.fill(r.choice([3, 6, 10]))
    fl.sp.write_conf()
    n = r.choice([2, 3, 4])
    delay = r.choice([50, 300, 1500])
    res = par.run_many(case, fl.sp, [fl.cmd() for _ in range(n)], delay)
    # whoever was refused leaves its mail to a last run
    p, a, i = fl.cmd()
    R = fl.sp.run(p, *a, input=i, variant="plain")
    case.san(R)
    w = fl.where()
    nm = cls.__name__
    rcs = [x[1] for x in res]
    case.check(not w[3], "broken-output", "%s: %d at once (%s): %s" % (nm, n, rcs, w[3][:3]))
    case.check(not fl.open_(w), "message-lost", lambda: "%s: %d at once (%s): not delivered %s, in input %s, set aside %s\n%s" % (
        nm, n, rcs, fl.open_(w)[:4], sorted(w[1])[:4], sorted(w[2])[:4], fl.sp.log()[-500:]))
    case.check(not fl.extra(w), "message-twice", "%s: %d at once (%s): %s" % (nm, n, rcs, fl.extra(w)[:5]))
    left = [x for x in fl.locks()] + [x for x in fl.sp.tree("etc") if x.endswith(".lock")] + \
        [x for x in fl.sp.tree("bt") if x.endswith(".bsy")]
    case.check(not left, "lock-left", "%s: left %s" % (nm, left))
    tmp = [x for d in ("spool/toss/toss", "spool/toss/route", "spool/outrfc", "bt/out") for x in fl.sp.tree(d) if x.endswith(".tmp")]
    case.check(not tmp, "tmp-left", "%s: left %s" % (nm, tmp))
    case.sig(nm, n, delay, len([x for x in rcs if x]))
    case.seen("messages", sum(map(len, fl.need.values())))
    case.sample = "%s: %d instances (exit codes %s), %d messages, each delivered once" % (nm, n, rcs, len(fl.need))


def areasbbs(case):
    """all writers of the area list at the same time: no change is lost"""
    r = case.rng
    sp = Spool(case, conf=["DupeCheck", "AreafixMailer cat > /dev/null"])
    na = 6
    sp.put("etc/areas.bbs", "# list\n" + "".join("#- AREA%d 2:5030/1 2:5030/9\n" % i for i in range(na)))
    sp.put("etc/passwd", "".join("af 2:5030/%d pw 9 A$\n" % i for i in range(1, 30)))
    want, new = set(), set()
    cmds = []
    pk = 0
    now = int(time.time())
    node = 10
    for _ in range(r.choice([3, 5, 7])):
        t = r.choice(["cmd", "cmd", "mail", "pkt", "toss"])
        node += 1
        a = r.randrange(na)
        if t == "cmd":
            cmds.append(("areafix/ftnaf", ["2:5030/%d" % node, "+AREA%d" % a], None))
            want.add((a, node))
        elif t == "mail":
            cmds.append(("areafix/ftnaf", ["-m"],
                         b"From: sysop@p0.f%d.n5030.z2.fidonet.org\nX-FTN-From: Sysop @ 2:5030/%d\nTo: areafix@gate.example.org\n"
                         b"Subject: pw\n\n+AREA%d\n" % (node, node, a)))
            want.add((a, node))
        elif t == "pkt":
            pk += 1
            m = Msg(b"Sysop", b"areafix", b"pw", b"\1INTL 2:5030/100 2:5030/%d\r\1MSGID: 2:5030/%d %08x\r+AREA%d\r" % (node, node, node, a),
                    N("2:5030/%d" % node), N("2:5030/100"), 1, 0, fts_date(now))
            sp.put("bt/afin/%08x.pkt" % pk, Pkt(N("2:5030/%d" % node), N("2:5030/100"), [m]).raw())
            cmds.append(("areafix/ftnafpkt", ["-l", "-I", sp.p("bt/afin")], None))
            want.add((a, node))
        else:
            pk += 1
            m = Msg(b"Sysop", b"All", b"x", b"AREA:NEW%d\rhello\r--- x\r * Origin: o (2:5030/1)\rSEEN-BY: 5030/1\r\1PATH: 5030/1\r" % node,
                    N("2:5030/1"), N("2:5030/100"), 0, 0, fts_date(now))
            sp.put("bt/pin/%08x.pkt" % pk, Pkt(N("2:5030/1"), N("2:5030/100"), [m]).raw())
            cmds.append(("toss/ftntoss", ["-l", "-w", "100000"], None))
            new.add("NEW%d" % node)
    sp.write_conf()
    delay = r.choice([50, 500, 2000])
    res = par.run_many(case, sp, cmds, delay)
    for prog, d in (("toss/ftntoss", ["-l"]), ("areafix/ftnafpkt", ["-l", "-I", sp.p("bt/afin")])):
        if any(c[0] == prog for c in cmds):
            case.san(sp.run(prog, *d, variant="plain"))
    # read the list
    subs = {}
    for l in sp.get("etc/areas.bbs").decode("latin1").splitlines()[1:]:
        f = l.split()
        if len(f) < 2:
            continue
        nodes, net = set(), None
        for x in f[2:]:
            if x.startswith("-"):
                continue
            mm = re.match(r"(?:\d+:)?(?:(\d+)/)?(\d+)$", x)
            if mm:
                nodes.add(int(mm[2]))
        subs[f[1]] = nodes
    rcs = [(c[0].split("/")[1], rc) for c, rc, e in res]
    for a, nd in want:
        # the command line program gives up when it cannot get the list; then it says so
        case.check(nd in subs.get("AREA%d" % a, ()), "subscription-lost", lambda: "2:5030/%d asked for AREA%d, list %s\n%s\n%s" % (
            nd, a, subs, rcs, sp.log()[-600:]))
    for x in new:
        case.check(x in subs, "area-lost", lambda: "created area %s is not in the list %s\n%s\n%s" % (x, sorted(subs), rcs, sp.log()[-600:]))
    for i in range(na):
        case.check({1, 9} <= subs.get("AREA%d" % i, set()), "old-subscription-lost", lambda: "AREA%d: %s" % (i, subs.get("AREA%d" % i)))
    left = list(sp.tree("lock")) + [x for x in sp.tree("etc") if ".lock" in x or ".new" in x]
    case.check(not left, "lock-left", "left %s" % left)
    case.sig(tuple(sorted(c[0] + (c[1][0] if c[1][0] == "-m" else "") for c in cmds)), delay)
    case.seen("list_changes", len(want) + len(new))


CHECK = Check("P09", "exploration",
    "stress: 2-8 processes take one lock (program, path, node) with random delays before every file operation, deaths "
    "inside the section and at any operation, a shared word watched for two owners; programs: every locking program "
    "with its lock held by a living (own or foreign) or dead process; timed waits in real time; several instances of "
    "the tosser, router, packer, gateway and all area-list writers at the same time, each message and change accounted for",
    ["processes on one machine and a local file system (the lock is a PID in a file)",
     "a process that died is reaped by its parent (a zombie counts as alive)"],
    variants=("plain",), prepare=prepare)
CHECK.phase("stress", stress, 140, 4000, 4)
CHECK.phase("programs", programs, 60, 900)
CHECK.phase("waits", waits, 12, 60)
CHECK.phase("concurrent", concurrent, 48, 1500, 4)
CHECK.phase("areasbbs", areasbbs, 32, 1500, 4)
