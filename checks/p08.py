"""P08 Busy flags."""
import os, re, time, random, subprocess
from collections import Counter, defaultdict
from vlib.harness import Check, popen, chown_tree, UID
from vlib.pkt import Node, Msg, Pkt, parse, PktError
from vlib import packrun as P
from vlib.strace import traced

DEAD = 4194000        # above pid_max: no such process


def flagname(s, n):
    return s.base(n) + "bsy"


def setflag(s, n, text):
    return s.sp.put(s.rel(flagname(s, n)), text)


def held(case):
    """flags held by others: untouched, mail stays; stale flags do not count"""
    rng = case.rng
    s = P.Scen(case, rng)
    sp = s.sp
    s.packets(rng, rng.choice([2, 4, 8, 14]))
    if not s.ends:
        return
    busy = set(rng.sample(s.ends, rng.randrange(1, len(s.ends) + 1)))
    stale = set()
    for n in busy:
        # our own process: alive, and not the packer's user
        setflag(s, n, rng.choice(["%d\n", "%d", "%d binkd\n"]) % os.getpid())
    for n in set(s.ends) - busy:
        if rng.random() < 0.4:
            setflag(s, n, "%d\n" % DEAD)
            stale.add(n)
    flags = {n: flagname(s, n) for n in busy}
    need = {n for nm in s.want for n in s.plan(nm)[4]}
    todo, stay = P.run_and_check(case, Stale(s, stale, need), busy=busy)
    for n, f in flags.items():
        case.check(os.path.exists(f), "foreign-flag-removed", lambda: "%s; %s" % (n.s(), s.L))
    case.sig("held", len(busy), len(stale), len(todo), len(stay), s.aso)
    if case.viol:
        return
    for f in flags.values():
        os.unlink(f)
    P.run_and_check(case, s)


class Stale:
    """the same scenario; stale flags are cleared in the 'before' picture"""

    def __new__(cls, s, stale, need):
        sp = s.sp
        real = sp.tree
        gone = {os.path.relpath(flagname(s, n), sp.p("bt")) for n in stale}

        def tree(rel="."):
            t = real(rel)
            if rel == "bt":
                for g in gone:
                    t.pop(g, None)
            return t
        sp.tree = tree
        return s


class Owner:
    """checker over a trace: outbound files are only changed under their system's flag"""

    def __init__(self, case, s):
        self.case, self.s = case, s
        m = s.addrs[0]
        self.bt = s.sp.p("bt") + "/"
        self.m = m

    def flag(self, path):
        """path of the busy flag protecting an outbound file, or None"""
        d, f = os.path.split(path)
        e = f.rsplit(".", 1)[-1]
        if e in P.OUTEXT.values() or e in P.FLOEXT.values():
            return path[:-3] + "bsy"
        if not re.fullmatch(r"(su|mo|tu|we|th|fr|sa)[0-9a-z]", e):
            return None
        if self.s.aso:
            return path[:-3] + "bsy"
        a, b = int(f[:4], 16), int(f[4:8], 16)
        if d.endswith(".pnt"):
            return "%s/0000%04x.bsy" % (d, (self.m.point - b) & 0xffff)
        return "%s/%04x%04x.bsy" % (d, (self.m.net - a) & 0xffff, (self.m.node - b) & 0xffff)

    def check(self, ops, what, foreign=()):
        held = set()
        seen = set()
        for pid, op, p, p2, a in ops:
            for x in (p, p2):
                if not x or not x.startswith(self.bt):
                    continue
                if x.endswith(".bsy"):
                    if op == "link" and x == p2 or op == "create":
                        self.case.check(x not in held, "flag-taken-twice", lambda: "%s: %s" % (what, x))
                        held.add(x)
                        self.case.seen("flags_taken")
                    elif op in ("unlink", "rename"):
                        self.case.check(x in held or x in foreign, "foreign-flag-removed",
                                        lambda: "%s: removes %s which it did not create" % (what, x))
                        held.discard(x)
                        self.case.seen("flags_released")
                    continue
                if op in ("read", "mkdir"):
                    continue
                fl = self.flag(x)
                if fl:
                    self.case.seen("outbound_changes")
                    seen.add((op, x.rsplit(".", 1)[-1]))
                    self.case.check(fl in held, "change-without-flag", lambda: "%s: %s %s without holding %s; holding %s" % (
                        what, op, x, os.path.basename(fl), sorted(held)))
        self.case.check(not held, "flag-left", lambda: "%s: %s still there at the end" % (what, held))
        return seen


def spoil(case, s):
    """make operations of the following run fail half way"""
    rng = case.rng
    sp = s.sp
    out = []
    if rng.random() < 0.6:
        # the archiver fails for some or for all packets
        sp.put("bin/arc.sh", "#!/bin/sh\ncase $2 in *%s.pkt) exit 2;; esac\nexec sh %s \"$@\"\n" % (
            rng.choice(["", "[02468ace]", "[1357]"]), sp.put("bin/arc2.sh", sp.get("bin/arc.sh"))))
        out.append("archiver")
    for n in s.ends:
        if rng.random() < 0.3:
            # flow file that can't be opened for writing
            p = s.rel(s.base(n) + rng.choice(list(P.FLOEXT.values())))
            if not os.path.exists(sp.p(p)):
                os.makedirs(sp.p(p))
                out.append("flow")
        if rng.random() < 0.3:
            # packet which can't be appended to
            p = s.rel(s.base(n) + rng.choice(list(P.OUTEXT.values())))
            sp.put(p, rng.choice([b"x", b"no packet at all" * 9, b""]))
            out.append("outpacket")
    for nm in sorted(s.want):
        if rng.random() < 0.15:
            p = "spool/toss/route/" + nm
            d = sp.get(p)
            sp.put(p, d[:rng.choice([0, 20, 58, 70, len(d) - 2])])
            out.append("input")
    case.seen("spoiled_runs")
    return set(out)


def owner(case):
    """the programs' file operations"""
    rng = case.rng
    s = P.Scen(case, rng)
    sp = s.sp
    s.packets(rng, rng.choice([1, 2, 4, 8]))
    o = Owner(case, s)
    stale = set()
    for n in s.ends:
        if rng.random() < 0.15:
            stale.add(setflag(s, n, "%d\n" % DEAD))
    which = rng.choice(["pack", "pack", "pack", "attach", "flo", "rfc"])
    broken = spoil(case, s) if rng.random() < 0.5 else []
    if which == "pack":
        sp.write_conf()
        r, ops = traced(sp, "toss/ftnpack", s.args(rng))
    elif which == "attach":
        n = rng.choice(s.ends)
        r, ops = traced(sp, "util/ftnfattach", [n.s(), rng.choice("^# ").strip() + sp.p(
            rng.choice(["etc/passwd", "etc/passwd", "etc/nosuch"]))])
    elif which == "flo":
        n = rng.choice(s.ends)
        sp.put("bin/do.sh", "#!/bin/sh\nexit %d\n" % rng.choice([0, 0, 1]))
        r, ops = traced(sp, "util/ftnflo", rng.choice([["-x", "sh %s %%s" % sp.p("bin/do.sh")],
                                                       ["-n", "-x", "sh %s %%s" % sp.p("bin/do.sh")], []]) + [n.s()])
    else:
        n = rng.choice(s.ends)
        to = "Some_User@f%d.n%d.z%d.fidonet.org" % (n.node, n.net, n.zone)
        r, ops = traced(sp, "gate/rfc2ftn", ["-w", rng.choice(["Crash", "Hold", "Normal"]), to],
                        input=b"From: a@example.org\nTo: x\nSubject: y\nMessage-ID: <1@example.org>\n\ntext\n")
    case.san(r)
    seen = o.check(ops, which, stale)
    case.sig(which, sorted(seen), s.aso, bool(stale), sorted(broken))
    case.sample = "%s: %d operations, %s" % (which, len(ops), sorted(seen))


def rivals(case):
    """several packers and a mailer at the same outbound at the same time"""
    rng = case.rng
    s = P.Scen(case, rng)
    s.fa = None
    sp = s.sp
    for f in os.listdir(sp.p("bt")):
        pass
    # plain rules only: everything ends in the outbound
    sp.put("etc/packing", "\n".join(s.L[:3] + rng.choice([
        ["netmail", "pack noarc *", "echomail", "pack noarc *"],
        ["netmail", "pack noarc *", "echomail", "pack zip *"],
        ["netmail", "pack zip *", "echomail", "pack zip *"]])) + "\n")
    sp.put("bin/arc.sh", "printf 'MEMBER %s %s\\n' $(basename $2) $(stat -c %s $2) >>$1\n"
           "%s\ncat $2 >>$1\n" % ("%s", rng.choice(["", "sleep 0.003"])) if False else
           "{ printf 'MEMBER %s %s\\n' $(basename $2) $(stat -c %s $2); cat $2; } >>$1\n")
    import shutil
    shutil.rmtree(sp.p("bt"))
    os.makedirs(sp.p("bt/out"))
    s.ends = s.ends[:rng.choice([1, 1, 2, 3])]
    s.packets(rng, rng.choice([12, 24]))
    # packets spread over several spools
    k = rng.choice([2, 3, 4])
    ids = {}
    for i, nm in enumerate(sorted(s.want)):
        d = "spool/in%d" % (i % k)
        os.makedirs(sp.p(d), exist_ok=True)
        typ, flav, to, ms = s.want[nm]
        if typ == "t":
            os.unlink(sp.p("spool/toss/route", nm))
            continue
        os.rename(sp.p("spool/toss/route", nm), sp.p(d, nm))
        for m in ms:
            ids[s.cid_of(m)] = to
    for i in range(k):
        os.makedirs(sp.p("spool/in%d" % i), exist_ok=True)
        os.makedirs(sp.p("spool/tmp%d" % i), exist_ok=True)
    sp.write_conf()
    prog = os.path.join(case.ctx["src"]["plain"], "toss/ftnpack")
    got = Counter()
    me = os.getpid()
    env = sp.env()
    procs = {}
    taken = 0

    def eat(path, n):
        with open(path, "rb") as f:
            data = f.read()
        try:
            if re.search(r"\.(su|mo|tu|we|th|fr|sa)[0-9a-z]$", path):
                ps = [parse(x[1]) for x in P.members(data)]
            else:
                ps = [parse(data)]
        except (PktError, ValueError, IndexError) as e:
            case.fail("mailer-got-garbage", "%s under the flag: %r" % (path, e))
            return
        for p in ps:
            for m in p.msgs:
                c = s.cid_of(m)
                got[c] += 1
                case.check(ids.get(c) == n, "mailer-wrong-system", "cid %s for %s" % (c, n.s()))

    def mailer(n, final=False):
        nonlocal taken
        fl = flagname(s, n)
        if not os.path.isdir(os.path.dirname(fl)):
            return
        tmp = sp.put("tmp%d" % me, "%d\n" % me)
        try:
            os.link(tmp, fl)
        except FileExistsError:
            if final:
                case.fail("flag-left", "%s left at the end" % fl)
            return
        taken += 1
        case.seen("mailer_sessions")
        for e in P.OUTEXT.values():
            p = s.base(n) + e
            if os.path.exists(p):
                eat(p, n)
                os.unlink(p)
        for e in P.FLOEXT.values():
            p = s.base(n) + e
            if os.path.exists(p):
                for l in P.flo_lines(open(p, "rb").read()):
                    a = l.lstrip("#^@")
                    if os.path.exists(a):
                        eat(a, n)
                        if l[0] == "#":
                            open(a, "w").close()
                        else:
                            os.unlink(a)
                os.unlink(p)
        os.unlink(fl)
    t0 = time.time()
    while time.time() - t0 < 40:
        for i in range(k):
            if i in procs and procs[i].poll() is None:
                continue
            if i in procs:
                out, err = procs[i].communicate()
                if procs[i].returncode:
                    case.check(False, "packer-failed", "rc %s %s" % (procs[i].returncode, err[-300:]))
            procs.pop(i, None)
            if os.listdir(sp.p("spool/in%d" % i)):
                procs[i] = popen([prog, "-I", sp.p("spool/in%d" % i), "-O", sp.p("spool/tmp%d" % i)], sp.d, env)
                case.seen("packer_runs")
        if not procs:
            break
        if rng.random() < 0.7:
            mailer(rng.choice(s.ends))
        time.sleep(rng.choice([0, 0, 0.001, 0.003]))
    for p in procs.values():
        p.kill()
        p.communicate()
    case.check(not procs, "not-finished", lambda: "spools not empty after 40 s: %s; %s" % (
        sp.ls("spool/in*"), sp.log()[-500:]))
    for n in s.ends:
        mailer(n, True)
    lost = [c for c in ids if not got[c]]
    case.check(not lost, "lost", lambda: "%d packers and a mailer: lost %s of %d; log %s" % (
        k, lost, len(ids), sp.log()[-800:]))
    dup = [c for c in ids if got[c] > 1]
    case.check(not dup, "twice", lambda: "%d packers and a mailer: twice %s of %d" % (k, dup, len(ids)))
    case.seen("messages_followed", len(ids))
    case.sig("rivals", k, len(s.ends), len(ids) // 8, taken // 5, s.aso)
    case.sample = "%d packers, %d systems, %d messages, %d mailer sessions" % (k, len(s.ends), len(ids), taken)


CHECK = Check("P08", "exploration",
              "runs with flags of live and dead processes compared with the packer model; system call traces of "
              "every program writing to the outbound checked for flag ownership; packers racing each other and a "
              "simulated mailer with message conservation as oracle",
              ["a mailer creates its flag atomically and leaves other systems' files alone"],
              variants=("asan", "plain"))
CHECK.phase("held", held, 220, 6000)
CHECK.phase("owner", owner, 300, 8000)
CHECK.phase("rivals", rivals, 60, 1500)
