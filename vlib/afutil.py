"""Maintenance of the area list (ftnafutil) and areas created by incoming mail (P31)."""
import os, re, time
from collections import Counter
from .pkt import Node, N, Msg, Pkt
from .spool import Spool
from .tossmodel import fts_date
from . import afix as A
from . import afrun
from .afrun import UPS, DOWN

DAY = 86400
OWN = {2: N("2:5030/100"), 3: N("3:640/100"), 1: N("1:1/100"), 21: N("21:100/100")}
ADDRS = ("2:5030/100", "3:640/100", "1:1/100", "21:100/100")


def gen_areas(rng, now):
    areas, links, uplinks = afrun.gen_setup(rng, True)
    for a in areas:
        a.state = rng.choice([None, "S", "S", "S", "U", "W", "F", "F", "P"])
        a.en = rng.choice([0, 0, 3, 30])
        a.et = rng.choice([0, 0, 2, 7])
        d = rng.choice([0, 1, 2, 3, 5, 7, 8, 12, 13, 29, 30, 31, 400])
        # half a day off the limits: the clock goes on while the program runs
        a.time = rng.choice([0, now - d * DAY - DAY // 2, now - d * DAY - DAY // 2])
        a.up = 1
        if rng.random() < .1 and a.nodes:
            a.nodes[0] = OWN[a.nodes[0].zone]
        if rng.random() < .1:
            a.nodes = a.nodes[:1]
        # without a state of its own an area is not touched by expiry; a node twice in a list is no list
        seen = []
        for n in a.nodes:
            if n not in seen:
                seen.append(n)
        a.nodes = seen
        if not a.nodes:
            a.zone = 0
    if len(areas) > 1 and rng.random() < .3:
        # an uplink of one area is an ordinary member of others
        for a in areas:
            if rng.random() < .5 and a.nodes:
                for u in rng.sample(UPS, 2):
                    if u not in a.nodes:
                        a.nodes.append(u)
    return areas, links, uplinks


class Maint:
    """what each command has to do"""

    def __init__(self, areas, uplinks, now, notr, reqt):
        self.areas = [a.copy() for a in areas]
        self.upl = {}
        for tags, n, robot, pw, opt in uplinks:
            self.upl.setdefault(n, (robot, pw))
        self.now, self.notr, self.reqt = now, notr, reqt
        self.req = []           # (uplink, robot, password, line)
        self.notes = []         # (node, area, days)
        self.touched = set()
        self.changed = False
        self.stats = Counter()

    def ask(self, n, line):
        self.req.append((n, self.upl[n][0], self.upl[n][1], line))

    def touch(self, a):
        self.changed = True
        self.touched.add(a.tag)

    def chst(self, a, to):
        a.state = to

    def delete(self):
        for a in list(self.areas):
            if not a.nodes or a.isstate("U"):
                self.areas.remove(a)
                self.changed = True
                self.stats["deleted"] += 1

    def drop(self, a, days):
        self.ask(a.nodes[0], "-" + a.tag)
        for n in a.nodes[1:]:
            if days is not None:
                self.notes.append((n, a.tag, days))
        a.nodes = a.nodes[:1]
        self.touch(a)

    def expire(self):
        for a in list(self.areas):
            tm = (self.now - a.time) // DAY
            up = a.nodes and a.nodes[0] in self.upl
            if (a.isstate("F") or a.isstate("W")) and a.time and (0 < self.reqt < tm or 0 < a.et < tm):
                if not up:
                    self.stats["expired_without_uplink"] += 1
                    continue
                self.drop(a, tm)
                self.stats["expired_" + a.state] += 1
                if a.isstate("F"):
                    self.areas.remove(a)
                else:
                    self.chst(a, "U")
            elif a.isstate("S") and a.time and (0 < self.notr < tm or 0 < a.en < tm):
                if not up:
                    self.stats["expired_without_uplink"] += 1
                    continue
                self.drop(a, tm)
                self.chst(a, "U")
                self.stats["expired_S"] += 1
            elif a.isstate("S") and len(a.nodes) <= 1 and a.pt:
                if up:
                    self.drop(a, None)
                    self.chst(a, "U")
                    self.stats["dropped_without_members"] += 1

    def resubscribe(self):
        for a in self.areas:
            if a.nodes and a.nodes[0] in self.upl and (a.state is None or a.state in ("S", "F", "W")):
                self.ask(a.nodes[0], "+" + a.tag)
                self.touch(a)
                self.stats["resubscribed"] += 1

    def unresubscribe(self):
        for a in self.areas:
            if a.nodes and a.nodes[0] in self.upl:
                self.ask(a.nodes[0], "-" + a.tag)
                if a.state in ("S", "F", "W"):
                    self.ask(a.nodes[0], "+" + a.tag)
                    self.touch(a)
                    self.stats["unresubscribed"] += 1

    def listgwlinks(self):
        out = []
        for a in self.areas:
            n = len(a.nodes)
            if a.nodes and OWN.get(a.zone) == a.nodes[0]:
                n -= 1
                self.stats["gateway_links"] += 1
            out.append("%s %s %d" % (a.tag, a.nodes[0].s() if a.nodes else "-", n))
        return out

    def listareatime(self):
        return ["area %s, state = %s, zone %d, %s" % (
            a.tag, a.state or "", a.zone, time.asctime(time.gmtime(a.time)) if a.time else "time_none") for a in self.areas]


CMDS = ["delete", "expire", "expire", "expire", "resubscribe", "unresubscribe", "listgwlinks", "listareatime", "bogus"]


def maint(case):
    rng = case.rng
    now = int(time.time())
    sp = Spool(case, addrs=ADDRS, uplink="2:5030/0", zones=(1, 2, 3, 21))
    ff = rng.random() < .3
    notr, reqt = rng.choice([0, 0, 7, 30]), rng.choice([0, 0, 2, 12])
    P, O = ("FileFix", "AreaFix") if ff else ("AreaFix", "FileFix")
    if notr or rng.random() < .3:
        sp.conf.append("%sNoTrafficTimeout %d" % (P, notr))
    if reqt:
        sp.conf.append("%sRequestTimeout %d" % (P, reqt))
    if rng.random() < .5:
        sp.conf += ["%sNoTrafficTimeout 1" % O, "%sRequestTimeout 1" % O]
    areas, links, uplinks = gen_areas(rng, now)
    if rng.random() < .4 and uplinks:
        # several entries of one system: the first one speaks for it
        u = rng.choice(uplinks)
        uplinks.append((["OTHER.TAG"], u[1], "Second", "PW2ND", []))
    L = []
    for tags, n, robot, pw, opt in uplinks:
        L.append("%s %s %s %s %s" % ("ff" if ff else "af", ",".join(tags), n.s(), robot, pw))
    for n in UPS:
        if rng.random() < .3:
            L.insert(rng.randrange(len(L) + 1), "%s * %s Wrong WRONGPW" % ("af" if ff else "ff", n.s()))
    sp.put("etc/uplinks", "\n".join(L) + "\n")
    sp.put("etc/passwd", "af 2:5030/10 x\n")
    first = rng.choice(afrun.FIRSTS)
    text = first + "\n" + "".join(A.line(a, rng) + "\n" for a in areas)
    alt = rng.random() < .2
    main, other = ("etc/fareas.bbs", "etc/areas.bbs") if ff else ("etc/areas.bbs", "etc/fareas.bbs")
    lst = "etc/other.bbs" if alt else main
    decoy = b"; decoy\n- DECOY -z 2 -s F -t 1000000000 -e 1 -n 1 2:5030/0 2:5030/11\n"
    for f in ("etc/areas.bbs", "etc/fareas.bbs"):
        if f != lst:
            sp.put(f, decoy.decode())
    sp.put(lst, text)
    _, cur = A.parse_file(sp.get(lst))
    for rnd in range(rng.choice([1, 2, 3])):
        cmd = rng.choice(CMDS)
        noact = rng.random() < .15
        args = []
        if ff:
            args.append("-F")
        if alt:
            args += ["-b", sp.p(lst)]
        if noact:
            args.append("-n")
        rng.shuffle(args) if not alt else None
        before = sp.get(lst)
        t0 = int(time.time())
        res = sp.run("areafix/ftnafutil", *args, cmd)
        t1 = int(time.time())
        case.san(res)
        case.sample = "ftnafutil %s %s" % (" ".join(args), cmd)
        after = sp.get(lst)
        m = Maint(cur, uplinks, t0, notr, reqt)
        out = None
        if cmd != "bogus":
            out = getattr(m, cmd)()
        if noact:
            m2 = Maint(cur, uplinks, t0, notr, reqt)
            m2.stats = m.stats
            m = m2
        ctxt = "ftnafutil %s %s\nlimits: no traffic %d request %d\nuplinks:\n%s\nbefore:\n%s\nafter:\n%s\nlog:\n%s" % (
            " ".join(args), cmd, notr, reqt, "\n".join(L), before.decode("latin1")[:3000], after.decode("latin1")[:3000],
            sp.log()[-1500:])
        case.seen("commands")
        for k, v in m.stats.items():
            case.seen(k, v)
        if cmd == "bogus":
            case.check(res.rc != 0, "exit-status", "unknown command: exit status 0\n" + ctxt)
        else:
            case.check(res.rc == 0, "exit-status", "exit status %s\n%s" % (res.rc, ctxt))
        if not m.changed:
            case.check(before == after, "list-changed", ctxt)
        for f in ("etc/areas.bbs", "etc/fareas.bbs"):
            if f != lst:
                case.check(sp.get(f) == decoy, "other-list-changed", ctxt)
        f1, got = A.parse_file(after)
        case.check(f1 == first, "first-line-changed", "%r -> %r\n%s" % (first, f1, ctxt))
        ef, gf = [a.fields() for a in m.areas], [a.fields() for a in got]
        if ef != gf:
            d = "\n".join(["expected %s" % a.show() for a, x in zip(m.areas, ef) if x not in gf] +
                          ["     got %s" % a.show() for a, x in zip(got, gf) if x not in ef])
            case.fail("area-list-differs", (d or "order of areas") + "\n" + ctxt)
        case.evals += len(ef)
        old = {a.tag: a for a in cur}
        for a in got:
            if a.tag in m.touched:
                case.check(t0 <= a.time <= t1, "area-time", "%s: time %s, run at %s\n%s" % (a.tag, a.time, t0, ctxt))
            elif a.tag in old:
                case.check(a.time == old[a.tag].time, "area-time", "%s: %s -> %s\n%s" % (a.tag, old[a.tag].time, a.time, ctxt))
        if cmd in ("listgwlinks", "listareatime"):
            # addresses may be shown with point 0
            txt = [re.sub(r"(\d+:\d+/\d+)\.0\b", r"\1", x.rstrip()) for x in res.out.decode("latin1").split("\n") if x.strip()]
            exp = [x.rstrip() for x in out] if out else []
            case.check(txt == exp, "listing", "expected %s\n     got %s\n%s" % (exp[:40], txt[:40], ctxt))
            case.seen("listed_areas", len(exp))
        # messages
        reqs, notes = Counter(), Counter()
        for f, t, ms, tx in afrun.read_out(case, sp):
            case.check(f == OWN.get(t.zone, f), "sender-address", "%s to %s\n%s" % (f.s(), t.s(), ctxt))
            if ms.to == b"Sysop":
                case.check(ms.subj == b"Notify", "notification", "subject %r\n%s" % (ms.subj, ctxt))
                area = None
                for l in tx:
                    if not l.strip() or l.startswith("--- "):
                        continue
                    mm = re.fullmatch(r"You are unsubscribed from area (\S+)\s*", l)
                    mr = re.fullmatch(r"\s+Reason: .*?(-?\d+) day\(s\)", l)
                    if mm:
                        area = mm[1]
                    elif mr and area:
                        notes[(t, area, int(mr[1]))] += 1
                        area = None
                    else:
                        case.fail("foreign-line", "%r in the notification of %s\n%s" % (l, t.s(), ctxt))
                case.check(area is None, "notification", "no reason for %s\n%s" % (area, ctxt))
            else:
                for l in tx:
                    if l.strip() and not l.startswith("--- "):
                        reqs[(t, ms.to.decode("latin1"), ms.subj.decode("latin1"), l.strip())] += 1
        want = Counter(m.req)
        case.check(reqs == want, "uplink-requests", lambda: "expected %s\n     got %s\n%s" % (
            sorted((want - reqs).items()), sorted((reqs - want).items()), ctxt))
        want = Counter(m.notes)
        case.check(notes == want, "notifications", lambda: "expected %s\n     got %s\n%s" % (
            sorted((want - notes).items()), sorted((notes - want).items()), ctxt))
        case.seen("uplink_requests", sum(reqs.values()))
        case.seen("notifications", sum(notes.values()))
        case.sig((cmd, ff, noact, tuple(sorted(m.stats))))
        if case.viol:
            return
        cur = got


class Line:
    """options after the name of a created area"""

    def __init__(self, rng, own):
        self.opt = []
        for k, p, v in (("-#", .4, None), ("-r", .2, None), ("-l", .4, rng.choice(["1", "5", "30"])),
                        ("-k", .3, rng.choice(["A", "BC"])), ("-d", .3, rng.choice(["plain", "two words", "a-b"])),
                        ("-s", .2, rng.choice("SFU")), ("-e", .2, "30"), ("-n", .2, "7"), ("-a", .2, own)):
            if rng.random() < p:
                self.opt.append((k, v))
        rng.shuffle(self.opt)

    def s(self):
        return " ".join(k if v is None else k + " " + ('"%s"' % v if " " in v else v) for k, v in self.opt)

    def apply(self, a):
        for k, v in self.opt:
            if k == "-#":
                a.pt = True
            elif k == "-r":
                a.ro = True
            elif k == "-l":
                a.lvl = int(v)
            elif k == "-k":
                a.key = v
            elif k == "-d":
                a.desc = v
            elif k == "-s":
                a.state = v
            elif k == "-e":
                a.en = int(v)
            elif k == "-n":
                a.et = int(v)
            elif k == "-a":
                a.addr = N(v)


NAMES = ["new.area", "NEW.X", "Ru.Test", "SU.1", "FWD.A.1", "x", "LONG.NAME.%s" % ("A" * 40), "a#b", "-r", "#x", "P2:5030/1",
         "R&D", "a/b", "..", "50%", ";x", "N'EW", "*", "a?c", "W.3", "include"]
BADN = ["TWO WORDS", "q\"uote", "tab\tx", ""]


def mailed(case):
    """mail for unknown areas: who may create them, what they look like, where the messages go"""
    rng = case.rng
    now = int(time.time())
    sp = Spool(case, addrs=ADDRS, uplink="2:5030/0", zones=(1, 2, 3, 21))
    # SEEN-BY has no zones: no two members with the same net/node
    senders = rng.sample(UPS + [n for n in DOWN if n != N("1:5030/10")], rng.choice([2, 3, 4]))
    pw = {}
    L = []
    for n in senders:
        r = rng.random()
        if r < .15:
            continue
        key = "".join(sorted(rng.sample("ABC&~%", rng.randrange(3)))) + ("$" if rng.random() < .7 else "")
        pw[n] = key
        L.append("af %s PW%d 1 %s" % (n.s(), rng.randrange(99), key or "-"))
    for n in senders:
        if rng.random() < .3:
            L.insert(rng.randrange(len(L) + 1), "ff %s X 9 $&~%%" % n.s())
    sp.put("etc/passwd", "\n".join(L) + "\n")
    o = afrun.gen_opts(rng, sp)
    if N("1:5030/10") in o.get("subnodes", []):
        o["subnodes"] = []
        sp.conf[:] = [c for c in sp.conf if not c.startswith("AutoCreateSubscribeNodes")]
    forb, fchars, subn = o.get("forb", []), o.get("fchars", ""), o.get("subnodes", [])
    own = rng.choice(["2:5030/100", "2:5030/101.5"])
    line = Line(rng, own) if rng.random() < .6 else None
    if line:
        sp.conf.append("AutoCreateLine " + line.s())
    U, ulines = [], {}
    for n in senders:
        if rng.random() < .4:
            l = Line(rng, own)
            ulines[n] = l
            U.append("af UPL.* %s Areafix UPW %s" % (n.s(), l.s()))
            if rng.random() < .3:
                U.append("af * %s Areafix UPW2 -l 99 -k ZZ" % n.s())
        if rng.random() < .3:
            U.insert(0, "ff * %s Filefix UPW3 -l 98 -k XX" % n.s())
    sp.put("etc/uplinks", "\n".join(U) + "\n")
    # known areas
    areas = []
    for i in range(rng.choice([0, 1, 3])):
        a = A.new_area()
        a.tag, a.zone, a.state = "KNOWN.%d" % i, senders[0].zone, "S"
        a.nodes = list(senders)
        areas.append(a)
    first = rng.choice(afrun.FIRSTS)
    sp.put("etc/areas.bbs", first + "\n" + "".join(A.line(a, rng) + "\n" for a in areas))
    before = sp.get("etc/areas.bbs")
    _, cur = A.parse_file(before)
    model = {a.tag.upper(): a for a in cur}
    order = [a.tag for a in cur]
    created, msgs, unknown = [], [], set()
    kill = rng.random() < .2
    if kill:
        sp.conf.append("KillUnknown")
    names = rng.sample(NAMES, rng.choice([1, 3, 6]))
    k = 0
    stats = Counter()
    for pi in range(rng.choice([1, 2, 4])):
        n = rng.choice(senders)
        ms = []
        for _ in range(rng.choice([1, 2, 5])):
            r = rng.random()
            tag = rng.choice(names) if r < .75 else rng.choice(BADN) if r < .85 else "KNOWN.0"
            if rng.random() < .3:
                tag = tag.swapcase()
            k += 1
            mark = "mark%d.%d" % (case.index, k)
            body = ("AREA:%s\r\1MSGID: %s %08x\r%s\r--- x\r * Origin: y (%s)\rSEEN-BY: %d/%d\r\1PATH: %d/%d\r" % (
                tag, n.s(), k, mark, n.s(), n.net, n.node, n.net, n.node)).encode("latin1")
            ms.append(Msg(b"A B", b"All", mark.encode(), body, n, OWN[n.zone], 0, 0, fts_date(now)))
            # the decision
            a = model.get(tag.upper())
            if a is None:
                ok = "$" in pw.get(n, "") and tag and not any(c in tag for c in ' \t"') and \
                    not any(A.wm(p, tag) for p in forb) and not any(c in tag for c in fchars)
                if not ok:
                    unknown.add(mark)
                    msgs.append((mark, n, tag, None))
                    stats["refused"] += 1
                    continue
                a = A.new_area()
                a.tag, a.zone, a.state = tag.upper(), n.zone, "S"
                if line:
                    line.apply(a)
                if n in ulines:
                    ulines[n].apply(a)
                a.nodes = [n] + [x for x in subn if x != n]
                if a.pt:
                    stats["created_passthru"] += 1
                model[a.tag] = a
                order.append(a.tag)
                created.append((a.tag, n, None))
                stats["created"] += 1
            if n not in a.nodes:
                msgs.append((mark, n, tag, None))
                stats["insecure"] += 1
            else:
                if a.state in ("U", "F", "W"):
                    a.state = "S" if n == a.nodes[0] else a.state
                msgs.append((mark, n, tag, a))
                stats["tossed"] += 1
        sp.put("bt/pin/%02d.pkt" % pi, Pkt(n, OWN[n.zone], ms).raw(), now - 1000 + pi)
    t0 = int(time.time())
    res = sp.run("toss/ftntoss")
    case.san(res)
    after = sp.get("etc/areas.bbs")
    ctxt = "conf %s\npasswd:\n%s\nuplinks:\n%s\nbefore:\n%s\nafter:\n%s\nmessages %s\nlog:\n%s" % (
        sp.conf, "\n".join(L), "\n".join(U), before.decode("latin1"), after.decode("latin1"),
        [(m, n.s(), t) for m, n, t, a in msgs], sp.log()[-2500:])
    case.sample = "messages %s" % [(m, n.s(), t) for m, n, t, a in msgs]
    case.check(res.rc == 0, "exit-status", "ftntoss exit status %s\n%s" % (res.rc, ctxt))
    f1, got = A.parse_file(after)
    case.check(f1 == first, "first-line-changed", ctxt)
    gd = {a.tag.upper(): a for a in got}
    case.check([a.tag for a in got] == order, "created-areas", "expected %s\n     got %s\n%s" % (order, [a.tag for a in got], ctxt))
    new = {t for t, n, x in created}
    for t in order:
        if t in gd:
            case.evals += 1
            e, g = model[t.upper()].fields(), gd[t].fields() if t in gd else None
            if t in new:
                # what the first message does to the state is the tosser's business
                e, g = e[:9] + e[10:], g[:9] + g[10:]
                case.check(t0 <= gd[t].time <= time.time() + 1, "creation-time", "%s %s\n%s" % (t, gd[t].time, ctxt))
            case.check(e == g, "created-area-differs" if t in new else "other-area-changed",
                       lambda: "%s\nexpected %s\n     got %s\n%s" % (t, model[t.upper()].show(), gd[t].show(), ctxt))
    class M:
        pass
    m = M()
    m.created = created
    if o.get("clog"):
        afrun.judge_created(case, m, sp, b"", t0, ctxt)
    # messages
    where = {}
    for p, pk in sp.read_pkts("spool/toss/toss"):
        for x in pk.msgs:
            where.setdefault(x.subj.decode(), []).append(pk.dest)
    bad = Counter()
    for p, pk in sp.read_pkts("spool/toss/bad"):
        for x in pk.msgs:
            bad[x.subj.decode()] += 1
    for mark, n, tag, a in msgs:
        if a is None:
            case.check(mark not in where, "message-for-unknown-area-sent", "%s %s\n%s" % (mark, tag, ctxt))
            if True:
                case.check(bad[mark] == (0 if kill and mark in unknown else 1), "message-lost", "%s %s: %d times in bad\n%s" % (mark, tag, bad[mark], ctxt))
        else:
            want = sorted(x for x in a.nodes if x != n and not (
                (x.net, x.node) == (n.net, n.node) and not x.point and not n.point))
            g = sorted(where.get(mark, []))
            ours = [x for x in g if x in OWN.values() or x._replace(point=0) == N("2:5030/101")._replace(point=0) and x not in a.nodes
                    or x == N(own)]
            g = [x for x in g if x not in ours]
            case.check(len(ours) == (0 if a.pt else 1), "own-copy", "%s %s passthru %s: %s\n%s" % (
                mark, tag, a.pt, [x.s() for x in ours], ctxt))
            case.check(set(g) <= set(a.nodes) - {n} and len(set(g)) == len(g), "sent-to-others", "%s %s: %s\n%s" % (
                mark, tag, [x.s() for x in g], ctxt))
            case.check(bad[mark] == 0, "tossed-message-in-bad", "%s %s\n%s" % (mark, tag, ctxt))
            case.check(g == want, "members-missed", lambda: "%s %s: %s instead of %s\n%s" % (
                mark, tag, [x.s() for x in g], [x.s() for x in want], ctxt))
        case.evals += 1
    for k2, v in stats.items():
        case.seen(k2, v)
    case.sig((tuple(sorted(stats)), tuple(sorted(o)), bool(line), bool(U)))
