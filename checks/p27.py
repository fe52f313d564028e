"""P27: history expiry"""
import os, re, time, random, resource, signal, struct
from vlib.harness import Check, run_cmd
from vlib import native, faults as X
from vlib.spool import Spool
from vlib.pkt import N, Msg, Pkt, parse
from vlib.tossmodel import fts_date


def prepare(srcs):
    return {"histtest": native.helper(srcs["plain"], "histtest")}


NAMES = {0: "history", 1: "bdc", 2: "tic_hist"}
OPT = {0: [], 1: ["-d"], 2: ["-t"]}
KEY = {0: "MaxHistory", 1: "MaxHistoryDBC", 2: "MaxTicHistory"}


class Hist:
    """a history of one of the three kinds and what is in it"""
    def __init__(self, case, typ, dirname="s", rng=None):
        self.case, self.typ, self.rng = case, typ, rng or case.rng
        self.sp = Spool(case, name=dirname)
        self.base = self.sp.p("var/" + NAMES[typ])
        self.e = []         # (key, rest, time, stored line)
        self.n = 0

    def helper(self, what, text, *more):
        R = run_cmd([self.case.ctx["histtest"], what, self.base] + list(more), self.sp.d, self.sp.env(), text.encode("latin1"), 120)
        if R.rc:
            raise RuntimeError("histtest %s: %d %s" % (what, R.rc, R.err[-300:]))
        return R.out.decode("latin1").split("\n")[:-1]

    def key(self):
        r = self.rng
        self.n += 1
        if self.typ == 1:
            return "%08x" % (self.n * 2654435761 & 0xffffffff)
        if self.typ == 2:
            return "%s %s%d.zip %08x" % (r.choice(["AREA", "FILES.X"]), r.choice(["a", "long-name " * 3]), self.n, r.getrandbits(32))
        k = r.random()
        t = "%s MSGID: 2:5030/%d %08x" % (r.choice(["ALPHA", "SU.GENERAL", "beta"]), r.randrange(100), self.n)
        if k < .1:
            t += "z" * r.choice([100, 180, 200, 215, 220])
            t = t[:253]
        elif k < .2:
            t += r.choice(["'\"$`\\", "\xe0\xe1\xff", "  two  blanks ", "@net.work", "%s%n", "<a@B.c>", " ", "="])
        return t

    def add(self, t, raw=None):
        r = self.rng
        if raw is not None:
            self.e.append((None, raw, 0))
            return
        k = self.key()
        if self.e and r.random() < .02:
            k = r.choice([x[0] for x in self.e[-50:] if x[0]] or [k])     # the same key again
        if self.typ == 1:
            rest = "<%s@%s>" % (r.randrange(10 ** 9), r.choice(["x.org", "a.b.c", "gate" * r.choice([1, 10])]))
            self.e.append((k, "%s\t%s\t%d\n" % (k, rest, t), t))
        else:
            self.e.append((k, "%s\t%d\n" % (k, t), t))

    def build(self):
        new = self.e[getattr(self, "built", 0):]
        self.built = len(self.e)
        if self.typ == 1 or any(x[0] is None for x in new):
            self.helper("build", "".join(("!" if k is None else "") + l for k, l, t in new))
        else:
            self.helper("write", "".join(l for k, l, t in new))

    def look(self, keys):
        return self.helper("look", "".join(k + "\n" for k in keys), *(["value"] if self.typ == 1 else []))

    def text(self):
        with open(self.base, "rb") as f:
            return f.read().decode("latin1")

    def expect(self, lo, hi):
        """(surely kept, maybe kept): entries by time of expiry"""
        return [x[0] is not None and (x[2] >= hi) for x in self.e], [x[0] is not None and lo <= x[2] < hi for x in self.e]

    def verify(self, what, keep, maybe, key="expire"):
        """text and look-ups are those of the entries kept; returns them"""
        case, r = self.case, self.rng
        lines = self.text().split("\n")
        case.check(lines[-1] == "", key + "-text", "%s: last line cut %r" % (what, lines[-1][:80]))
        i, kept = 0, []
        for j, x in enumerate(self.e):
            here = i < len(lines) and lines[i] + "\n" == x[1]
            if keep[j] or maybe[j] and here:
                if not case.check(here, key + "-lost", lambda: "%s: entry %r (time %d) expected, found %r" % (
                        what, x[1][:100], x[2], lines[i][:100] if i < len(lines) else None)):
                    return None
                i += 1
                kept.append(x)
        case.check(i == len(lines) - 1, key + "-kept", lambda: "%s: entries that should be gone: %r" % (what, lines[i:i + 3]))
        have = {x[0]: x for x in kept}
        q = sorted({x[0] for x in self.e if x[0]})
        if len(q) > 3000:
            q = r.sample(q, 3000)
        near = []
        for k in r.sample(q, min(len(q), 60)):
            near += [k[:-1], k + "x", k[:-1] + chr((ord(k[-1]) + 1) % 26 + 97)]
        q += [k for k in near if k not in have and k and len(k) < 254]
        for k, a in zip(q, self.look(q)):
            if k not in have:
                case.check(a == "0", key + "-found", lambda: "%s: %r not in the history any more is found" % (what, k))
            else:
                want = {"1"} if self.typ != 1 else {y[1].split("\t")[1] for y in kept if y[0] == k}
                case.check(a in want, key + "-notfound", lambda: "%s: %r kept, but look-up answers %s" % (what, k, a))
        case.seen("lookups", len(q))
        case.seen("kept", len(kept))
        return kept


def times(r, exp, now):
    """a time of an entry around the limit or anywhere"""
    k = r.random()
    if k < .3:
        return exp + r.choice([-1, 1]) * r.choice([5, 6, 60, 3600, 86400])
    if k < .4:
        return now - r.choice([0, 1, 5])
    if k < .45:
        return r.choice([now + 100, now + 10 ** 6, 2 ** 31 - 1, 2 ** 31 + r.randrange(10 ** 6), 2 ** 32 + r.randrange(1000)])
    if k < .5:
        return r.choice([0, 1, 86400])
    return now - int(r.random() ** 3 * 86400 * 90)


def setting(r, sp, typ):
    """(arguments, days)"""
    days = r.choice([14, 7, 1, .5, .25, 30, 2.5, 0, 0.01, 365, 100000, 1e30, 3, 60])
    k = r.random()
    args = list(OPT[typ])
    if k < .5:
        sp.conf.append("%s %g" % (KEY[typ], days))
    elif k < .8:
        sp.conf.append("%s %g" % (KEY[typ], r.choice([1, 50, 14])))
        args += r.choice([["-m", "%g" % days], ["--maxhistory", "%g" % days]])
    elif k < .9:
        days = 14
    else:
        days = 0
        sp.conf.append("%s -5" % KEY[typ])
    # those of the other histories don't matter
    for o in KEY:
        # (without a value of its own a history has that of MaxHistory)
        if o != typ and r.random() < .5 and not (o == 0 and .8 <= k < .9):
            sp.conf.append("%s %d" % (KEY[o], r.choice([0, 3, 1000])))
    return args, days


def limit(days, now):
    s = int(86400 * days) if 86400 * days < now else now
    return now - s


def one(case, big=False):
    r = case.rng
    typ = r.choice([0, 0, 1, 2])
    h = Hist(case, typ)
    args, days = setting(r, h.sp, typ)
    h.sp.write_conf()
    now = int(time.time())
    exp = limit(days, now)
    rounds = r.choice([1, 1, 2, 3])
    for rnd in range(rounds):
        n = r.choice([0, 1, 2, 10, 50, 300]) if not big else r.choice([5000, 20000, 70000])
        if rnd and r.random() < .3:
            n = r.choice([0, 1000])
        for _ in range(n):
            h.add(times(r, exp, now))
            if r.random() < .01:
                h.add(0, r.choice(["broken line\n", "\n", "\t\n", "nothing else\t\n" if typ != 1 else "x\ty\n", "a b c d\n"]))
        h.build()
        h.sp.put("log/log", "")
        t0 = int(time.time())
        R = h.sp.run("toss/ftnexpire", *args, variant="asan", timeout=200)
        t1 = int(time.time())
        if not case.san(R, "crash"):
            return
        what = "%s, %g days, %d entries, run %d" % (NAMES[typ], days, len(h.e), rnd)
        case.check(R.rc == 0, "status", "%s: exit %d %s" % (what, R.rc, h.sp.log()[-300:]))
        keep, maybe = h.expect(limit(days, t0), limit(days, t1))
        kept = h.verify(what, keep, maybe)
        if kept is None:
            return
        good = sum(1 for x in h.e if x[0] is not None)
        m = re.search(r"ids processed: (\d+) total, (\d+) expired", h.sp.log())
        case.check(m and (int(m[1]), int(m[2])) == (good, good - len(kept)), "report", "%s: %s, but %d expired of %d" % (
            what, m and m[0], good - len(kept), good))
        left = [f for f in h.sp.tree("var") if re.search(r"\.(n|o)(\.|$)", f)]
        case.check(not left and not h.sp.tree("lock"), "leftover", "%s: %s %s" % (what, left, list(h.sp.tree("lock"))))
        case.seen("expiries")
        case.seen("entries", good)
        case.sig(typ, days, min(good, 50), min(good - len(kept), 20), rnd)
        h.e, h.built = kept, len(kept)
    # the others were not touched
    for o, nm in NAMES.items():
        if o != typ:
            case.check(not os.path.exists(h.sp.p("var/" + nm)), "other", "%s appeared" % nm)


class _Fl:
    def __init__(self, h, args):
        self.case, self.sp, self.c = h.case, h.sp, ("toss/ftnexpire", args, None)


def state(h, new, old):
    """'new' or 'old' by the text, None if neither"""
    t = h.text()
    if t == "".join(x[1] for x in new):
        return "new"
    if t == "".join(x[1] for x in old):
        return "old"
    return None


def faults(case, how):
    r = case.rng
    seed = r.getrandbits(48)
    typ = r.choice([0, 1, 2])
    now = int(time.time())
    exp = now - 14 * 86400
    n = r.choice([3, 20, 120])

    def fresh(tag):
        q = random.Random(seed)
        h = Hist(case, typ, tag, q)
        h.sp.write_conf()
        for _ in range(n):
            h.add(times(q, exp, now))
        h.build()
        return h, [x for x in h.e if x[2] >= exp]
    h, new = fresh("dry")
    R, calls = X.traced_run(_Fl(h, OPT[typ]), ("toss/ftnexpire", OPT[typ], None))
    case.check(R.rc == 0 and state(h, new, h.e) == "new", "dry", "rc %d %s" % (R.rc, h.sp.log()[-300:]))
    pts = X.points(_Fl(h, OPT[typ]), calls)
    ren = [k for c, q, k in pts if c == "rename"]
    h.sp.drop()
    hot = [p for p in pts if not p[1].startswith("r:") and X.klass(p[1]) == "history"]
    for j in range(6):
        h, new = fresh("f%d" % j)
        old = list(h.e)
        fl = _Fl(h, OPT[typ])
        if how == "size":
            lim = r.choice([0, 1, len(h.text()) // 2, len(h.text()) - 1, 1000, 4096, 5000, os.path.getsize(h.base + ".pag") - r.choice([1, 100, 4096])])
            lim = max(0, lim)
            what = "files limited to %d bytes" % lim

            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            R = h.sp.run("toss/ftnexpire", *OPT[typ], variant="plain", preexec=pre)
            window = False
            case.sig(how, lim.bit_length(), R.rc)
        else:
            # the last part, where the new files are written and put in place, mostly
            c, q, k = r.choice(hot[-14:] if r.random() < .6 else hot)
            err = "signal=KILL" if how == "kill" else "error=" + r.choice(["ENOSPC", "EIO", "EDQUOT"])
            R, tr = X.traced_run(fl, ("toss/ftnexpire", OPT[typ], None), "%s:%s:when=%d" % (c, err, k))
            what = "%s %s #%d (%s)" % (err, c, k, os.path.basename(q))
            nren = sum(1 for c2, q2, k2 in tr if c2 == "rename") - (c == "rename" and how == "kill")
            window = how == "kill" and R.rc in (-9, 137) and 0 < nren < 3
            case.sig(how, c, X.klass(q), min(k, 30), R.rc)
        what = "%s, %d entries: %s" % (NAMES[typ], n, what)
        case.seen("faults_" + how)
        case.check(R.rc < 128 and (R.rc >= 0 or how == "kill"), "died", "%s: %d" % (what, R.rc))
        st = state(h, new, old)
        if not case.check(st, "damaged", lambda: "%s: neither the old nor the new history remains (rc %d)\n%s" % (what, R.rc, h.sp.log()[-400:])):
            h.sp.drop()
            continue
        case.seen("then_" + st)
        if how != "kill" and R.rc == 0:
            case.check(st == "new", "silent", "%s: exit 0, nothing expired" % what)
        if not window:
            cur = new if st == "new" else old
            yes = [x in cur for x in h.e]
            h.verify(what + " (%s history stays)" % st, yes, [False] * len(yes), "fault")
        else:
            case.seen("killed_between_renames")
        # still usable, and the next run gets through
        if not window:
            h.add(now)
            h.build()
        R = h.sp.run("toss/ftnexpire", *OPT[typ], variant="plain")
        case.check(R.rc == 0, "stuck", "%s: next run ends with %d\n%s" % (what, R.rc, h.sp.log()[-500:]))
        h.verify(what + ", run again", [x[2] >= exp for x in h.e], [False] * len(h.e), "again")
        left = [f for f in h.sp.tree("var") if re.search(r"\.(n|o)(\.|$)", f)]
        case.check(not left, "leftover", "%s: %s" % (what, left))
        h.sp.drop()


US, LINK, OTHER = N("2:5030/100"), N("2:5030/1"), N("2:5030/2")


def tossed(case):
    """the tosser knows the kept messages and no others afterwards"""
    r = case.rng
    days = r.choice([7, 14, 30])
    sp = Spool(case, conf=["DupeCheck", "KillDupe", "MaxHistory %d" % days])
    sp.put("etc/areas.bbs", "# areas\n#- ALPHA %s %s\n#- BETA %s %s\n" % (LINK.s(), OTHER.s(), LINK.s(), OTHER.s()))
    now = int(time.time())
    msgs = {}
    for i in range(r.choice([5, 40])):
        k = r.random()
        a = r.choice(["ALPHA", "BETA"])
        mid = b"" if k < .2 else b"\1MSGID: %s %08x%s\r" % (LINK.s().encode(), i, b"y" * 300 if k > .9 else b"\tTAB" if k > .8 else b"")
        b = b"AREA:%s\r%sID:%d;\r--- x\r * Origin: o (%s)\rSEEN-BY: 5030/1\r\1PATH: 5030/1\r" % (a.encode(), mid, i, LINK.s().encode())
        msgs[i] = Msg(b"Name %d" % i, b"All", b"subj", b, LINK, US, 0, 0, fts_date(now - 60))

    def toss(tag, want):
        sp.put("bt/pin/%s.pkt" % tag, Pkt(LINK, US, [msgs[i] for i in sorted(msgs)]).raw())
        R = sp.run("toss/ftntoss", variant="plain")
        case.san(R, "crash-toss")
        got = set()
        for f in sp.ls("spool/toss/toss", "*.pkt"):
            for m in parse(open(f, "rb").read()).msgs:
                got |= {int(x) for x in re.findall(rb"ID:(\d+);", m.body)}
            os.unlink(f)
        case.check(got == want, "dupes", lambda: "%s: passed %s, expected %s\n%s" % (tag, sorted(got)[:8], sorted(want)[:8], sp.log()[-500:]))
    toss("00000001", set(msgs))
    toss("00000002", set())
    # age some entries (same length, the index stays right)
    lines = sp.get("var/history").decode("latin1").splitlines()
    old, out = set(), []
    for l in lines:
        k, t = l.rsplit("\t", 1)
        x = r.random() < .5
        i = lines.index(l)
        out.append("%s\t%d" % (k, now - days * 86400 + (-100 if x else 100)))
        if x:
            old.add(i)
    case.check(len(lines) == len(msgs), "entries", "%d lines of %d messages" % (len(lines), len(msgs)))
    sp.put("var/history", "\n".join(out) + "\n")
    R = sp.run("toss/ftnexpire", variant="asan")
    case.san(R, "crash")
    case.check(R.rc == 0, "status", "exit %d" % R.rc)
    toss("00000003", old)
    toss("00000004", set())
    case.seen("dupe_rounds")
    case.sig("toss", days, len(old))


CHECK = Check("P27", "exploration",
              "text of the history and answers of look-ups by the library's own functions for every entry before and after "
              "ftnexpire, compared with a model of the ages; the same after injected faults and kills, and through the tosser",
              ["a kill in the moment between the three final renames may leave look-ups incomplete until the next expiry (the entries are kept)",
               "history lines shorter than 32K"],
              variants=("asan", "plain"), prepare=prepare)
CHECK.phase("random", one, 220, 9000)
CHECK.phase("big", lambda c: one(c, True), 2, 120, workers=4)
CHECK.phase("faults", lambda c: faults(c, "error"), 40, 2000)
CHECK.phase("size", lambda c: faults(c, "size"), 16, 800)
CHECK.phase("kill", lambda c: faults(c, "kill"), 40, 2000)
CHECK.phase("toss", tossed, 30, 1500)
