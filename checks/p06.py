"""P06 Routing."""
import re, os, time
from collections import defaultdict
from vlib.harness import Check
from vlib.spool import Spool
from vlib.pkt import Node, Msg, Pkt
from vlib.tossmodel import fts_date, gen_text
from vlib.tossrun import netgen, short
from vlib import netm
from vlib.netm import Pat, PN, addr4, lead, want_text

W, E = -2, -1
FL = {"n": ["normal", "out", "Normal"], "h": ["hold", "HUT", "hut"], "c": ["crash", "cut"],
      "d": ["direct", "dut"]}
TY = {"n": "netmail", "e": "echomail", "t": "tick"}


def zero(p):
    return Node(*[0 if x < 0 else x for x in p.t])


class Rule:
    def __init__(self, rng, cmd, type_, ends, us):
        self.cmd, self.type = cmd, type_
        self.flav = rng.choice("nhcd")
        self.new = rng.choice("nhcd")
        self.pats = []
        for i in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice(ends)
            self.pats.append(netm.pat_of(rng, n))
        self.short = 0.4
        if rng.random() < 0.3:
            # several systems of a net, the usual place for the short notation
            b = rng.choice(ends)
            near = [n for n in ends if n[:2] == b[:2]]
            near = rng.sample(near, min(len(near), rng.choice([2, 3, 5])))
            self.pats = [Pat(*n) if n.point or rng.random() < 0.6 else Pat(*(n[:3] + (rng.choice([E, W]),)))
                         for n in near]
            if rng.random() < 0.3:
                self.pats.insert(0, Pat(b.zone, b.net, b.node + 1, 0))
            self.short = 0.9
        if cmd == "route":
            self.pats.insert(0, netm.pat_of(rng, rng.choice(ends), dst=True))
        if cmd in ("hostroute", "hubroute", "bossroute"):
            # full notation only
            self.pats = [p if p.t[3] != E else Pat(*(p.t[:3] + (W,))) for p in self.pats]
        if cmd == "xroute":
            self.dst = rng.choice(ends)
            f = rng.choice([Pat(*us), Pat(us.zone, us.net, W, W), Pat(W, W, W, W)])
            self.pats = [f, Pat(*[W if x == E else x for x in netm.pat_of(rng, rng.choice(ends)).t])]

    def text(self, rng):
        kw = rng.choice([self.cmd, self.cmd.upper(), self.cmd.title()])
        fl = rng.choice(FL[self.flav])
        sep = rng.choice([" ", "\t", "  "])
        out = [kw, fl]
        if self.cmd == "change":
            out.append(rng.choice(FL[self.new]))
        if self.cmd == "xroute":
            out.append(self.dst.p4())
        prev = None
        for p in self.pats:
            s = p.s()
            # short notation relative to the previous address
            if prev and self.cmd not in ("xroute",) and p.t[0] == prev.t[0] and min(p.t[:3]) >= 0 and \
                    min(prev.t[:2]) >= 0 and rng.random() < self.short:
                pt = "" if p.t[3] == E else ".%s" % ("*" if p.t[3] == W else p.t[3])
                s = "%d/%d%s" % (p.t[1], p.t[2], pt)
                if p.t[1] == prev.t[1] and rng.random() < (self.short + 1) / 3:
                    s = "%d%s" % (p.t[2], pt)
                    if p.t[2] == prev.t[2] and pt and rng.random() < 0.7:
                        s = pt
            out.append(s)
            prev = p
        return sep.join(out)


def one(case):
    rng = case.rng
    addrs, pool = netgen(rng, {})
    us = addrs[0]
    ends = pool + [Node(rng.choice([1, 2, 3, 4]), rng.randrange(1, 32000), rng.randrange(0, 32000),
                        rng.choice([0, 0, 3])) for _ in range(3)]
    boss = [n for n in ends if not n.point]
    if boss:
        ends.append(rng.choice(boss)._replace(point=rng.randrange(1, 99)))
    # nodelist: hubs and nodes of some nets
    hub, nl = {}, []
    usehub = rng.random() < 0.25
    if usehub:
        for z in sorted({n.zone for n in ends}):
            nl.append("Zone,%d,Zone,Town,Sysop,-Unpublished-,300" % z)
            for net in sorted({n.net for n in ends if n.zone == z}):
                nl.append("Host,%d,Host,Town,Sysop,-Unpublished-,300" % net)
                cur = Node(z, net, 0, 0)
                for f in sorted({n.node for n in ends if n.zone == z and n.net == net and n.node}):
                    if rng.random() < 0.3:
                        h = rng.randrange(20000, 32000)
                        if Node(z, net, h, 0) in hub or any(n[:3] == (z, net, h) for n in ends):
                            continue
                        nl.append("Hub,%d,Hub,Town,Sysop,-Unpublished-,300" % h)
                        cur = Node(z, net, h, 0)
                    if rng.random() < 0.1:
                        continue
                    kw = rng.choice(["", "", "", "Pvt", "Hold", "Down"])
                    nl.append("%s,%d,Node,Town,Sysop,-Unpublished-,300" % (kw, f))
                    hub[Node(z, net, f, 0)] = cur
                    if rng.random() < 0.2:
                        nl.append("; comment")
    routing, L = [], ["# routes"]
    mk = []
    cur = "n"
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        if rng.random() < 0.35:
            cur = rng.choice("nnet")
            L.append(rng.choice([TY[cur], TY[cur].upper(), TY[cur].title()]))
        cmds = ["send", "sendmove", "route", "change"]
        if rng.random() < 0.4:
            cmds = ["hostroute", "bossroute", "xroute"] + (["hubroute"] * 2 if usehub else [])
        r = Rule(rng, rng.choice(cmds), cur, ends, us)
        L.append(r.text(rng))
        if rng.random() < 0.05:
            L.append(rng.choice(["bogus line", "send", "route crash", "send sideways *", "", "# x"]))
        (mk if r.cmd in ("hostroute", "bossroute", "xroute", "hubroute") else routing).append(r)
    conf = []
    if rng.random() < 0.4:
        conf.append("MaxOpenFiles %d" % rng.choice([1, 2, 3]))
    if usehub:
        conf += ["NlFile %s/s/etc/nodelist" % case.dir, "HUBROUTEDB %V/hubroute"]
    pwd = {n: rng.choice(["SECRET", "x", "Pass1234"]) for n in ends + list(hub.values()) if rng.random() < 0.3}
    sp = Spool(case, addrs=[a.s() for a in addrs], uplink=pool[0].s(), conf=conf)
    sp.put("etc/routing", "\n".join(L) + "\n")
    sp.put("etc/passwd", "".join("packet %s %s\n" % (n.s(), p) for n, p in sorted(pwd.items())))
    if usehub:
        sp.put("etc/nodelist", "\r\n".join(nl) + "\r\n", mtime=1700000000)
    now = int(time.time())

    def decide(typ, flav, frm, to):
        """(to, flav, move)"""
        if typ == "n":
            for r in mk:
                if r.cmd == "xroute" and r.pats[0].match(frm) and r.pats[1].match(to):
                    return r.dst, r.flav, False
                if r.cmd == "hostroute" and any(p.match(to) for p in r.pats):
                    return to._replace(node=0, point=0), r.flav, False
                if r.cmd == "bossroute" and flav == r.flav and any(p.match(to) for p in r.pats):
                    return to._replace(point=0), flav, False
                if r.cmd == "hubroute" and any(p.match(to) for p in r.pats):
                    b = to._replace(point=0)
                    if b in hub:
                        return hub[b], r.flav, False
        for r in routing:
            if r.type != typ:
                continue
            p = next((p for p in r.pats if p.match(to)), None)
            if not p:
                continue
            if r.cmd == "change":
                if flav == r.flav:
                    return to, r.new, False
            elif flav == "n":
                if r.cmd == "send":
                    return (to._replace(point=0) if p.t[3] == E and p.t != (W, W, W, W) else to), r.flav, False
                if r.cmd == "sendmove":
                    return to, r.flav, True
                if r.cmd == "route":
                    return zero(r.pats[0]), r.flav, False
        return to, flav, False

    sent, want, files = {}, {}, {}
    cid = 0
    nfile = rng.choice([1, 2, 4, 8, 15])
    for i in range(nfile):
        typ = rng.choice("nnnee")
        if rng.random() < 0.05:
            typ = "t"
        flav = rng.choice("nnnnhcd")
        to = rng.choice(ends)
        frm = rng.choice(addrs)
        if rng.random() < 0.05:
            frm = frm._replace(point=rng.choice([0, 7, 9]))
        grade = rng.choice("nnnm")
        ms = []
        for _ in range(rng.choice([1, 1, 2, 5])):
            cid += 1
            if typ == "n":
                m = netm.gen(rng, frm, to, rng.choice(ends), to if rng.random() < 0.9 else rng.choice(ends),
                             cid, now, quirks=False)
                m.attr &= ~0x400
                if rng.random() < 0.12:
                    m.attr |= 0x400
                if not any(re.match(rb"INTL", k) for k in m.kludges):
                    m.kludges.insert(0, b"INTL %s %s" % (m.dest._replace(point=0).s().encode(),
                                                         m.orig._replace(point=0).s().encode()))
                sent[cid] = m
                ms.append(m.msg())
            else:
                L2 = ["AREA:%s" % rng.choice(["TEST", "SU.A", "B"])]
                L2 = [x.encode() for x in L2]
                if rng.random() < 0.8:
                    L2.append(b"\x01MSGID: 2:5030/1 %08x" % cid)
                if rng.random() < 0.4:
                    L2.append(b"\x01PID: x")
                L2 += gen_text(rng, "cid=%06d" % cid)
                L2.append(rng.choice([b"---", b"--- tear"]))
                if rng.random() < 0.9:
                    L2.append(b" * Origin: x (2:5030/1)")
                if rng.random() < 0.9:
                    L2 += [b"SEEN-BY: 5030/1 2 3", b"SEEN-BY: 5031/1"][:rng.choice([1, 2])]
                if rng.random() < 0.85:
                    L2 += [b"\x01PATH: 5030/1 100"]
                m = Msg(rng.choice(netm.NAMES), rng.choice(netm.NAMES), rng.choice(netm.SUBJ),
                        b"".join(x + b"\r" for x in L2), frm, to, rng.choice([0, 0x100, 0x80, 4]), 0,
                        fts_date(now - cid * 60))
                sent[cid] = m
                ms.append(m)
        p = Pkt(frm, to, ms, rng.choice([b"", b"pw"]))
        raw = p.raw()
        if rng.random() < 0.04:
            nm = "%08x.pkt" % (0x12345600 + i)
            typ = flav = grade = None
        else:
            nm = "%s%s%s%05x.pkt" % (grade, typ, flav, i + 1)
        sp.put("spool/toss/toss/" + nm, raw, mtime=now - 5000 + i * 2)
        if typ is None:
            d = (to, "n", False)
        else:
            d = decide(typ, flav, frm, to)
        case.seen("packets")
        case.seen("decision_" + ("moved" if d[2] else "rerouted" if d[0] != to else
                                 "flavour" if d[1] != flav else "unchanged"))
        case.sig(typ, flav, d[1], d[2], d[0] == to, bool(to.point), bool(d[0].point), len(ms),
                 len(routing), len(mk), to.zone == us.zone)
        for m in ms:
            c = int(re.search(rb"cid=(\d{6})", m.body)[1])
            t = to if m.attr & 0x400 and not d[2] else d[0]
            want[c] = (t, d[1], grade or "-", typ or "-", frm, i, nm, d[2], p.pw)
    r = sp.run("toss/ftnroute")
    case.san(r)
    case.check(r.rc == 0, "exit-status", lambda: "rc=%d %s" % (r.rc, sp.log()[-600:]))
    case.check(not sp.ls("spool/toss/toss"), "input-left", lambda: "%s %s" % (
        sp.ls("spool/toss/toss"), sp.log()[-500:]))
    got = defaultdict(list)
    for path, p in sp.read_pkts("spool/toss/route"):
        last = -1
        for m in p.msgs:
            mm = re.search(rb"cid=(\d{6})", m.body)
            got[int(mm[1]) if mm else None].append((path, p, m))
            if mm and int(mm[1]) in want:
                i = want[int(mm[1])][5] * 1000000 + int(mm[1])
                case.check(i > last, "reordered", lambda: "%s: cid %s after a later one" % (path, mm[1]))
                last = i
    case.check(not sp.ls("spool/toss/route", "*.tmp"), "temporary-left", lambda: str(sp.ls("spool/toss/route")))
    rules = L
    for c, (to, flav, grade, typ, frm, i, nm, moved, opw) in want.items():
        g = got.pop(c, [])
        desc = "cid=%d in %s from %s, rules %s, should go to %s as %s%s%s" % (
            c, nm, frm.s(), rules, to.s(), grade, typ, flav)
        if not case.check(len(g) == 1, "copies", lambda: "%s: %d copies %s; log %s" % (
                desc, len(g), [x[1].dest.s() for x in g], sp.log()[-400:])):
            continue
        path, p, m = g[0]
        o = sent[c]
        case.check(p.dest == to, "destination", lambda: "%s: packet to %s" % (desc, p.dest.s()))
        case.check(p.orig == frm, "packet-origin", lambda: "%s: packet from %s" % (desc, p.orig.s()))
        b = os.path.basename(path)
        case.check(b[2] == flav, "flavour", lambda: "%s: %s" % (desc, b))
        case.check(b[0] == grade and b[1] == typ, "grade-type", lambda: "%s: %s" % (desc, b))
        pw = opw if moved else pwd.get(to, "").encode()
        case.check(p.pw == pw, "packet-password", lambda: "%s: %r should be %r" % (desc, p.pw, pw))
        for f in ("frm", "to", "subj", "attr"):
            case.check(getattr(m, f) == getattr(o, f), "field-" + f, lambda: "%s: %r was %r" % (
                desc, getattr(m, f), getattr(o, f)))
        od = o.date if isinstance(o.date, bytes) else fts_date(o.date)
        case.check(m.date == od, "date", lambda: "%s: %r was %r" % (desc, m.date, od))
        if isinstance(o, netm.NM):
            pn = PN(m.body)
            gf, gt, err = addr4(m, pn, p)
            case.check(not err and (gf, gt) == (o.orig, o.dest), "addressing", lambda: "%s: %s -> %s, was %s -> %s %s" % (
                desc, gf.s(), gt.s(), o.orig.s(), o.dest.s(), err))
            case.check(pn.addressing()[3] == o.more, "control-lines", lambda: "%s: %r was %r" % (
                desc, pn.addressing()[3], o.more))
            case.check(lead(pn.text) == lead(want_text(o)), "text", lambda: "%s: %s was %s" % (
                desc, short(pn.text), short(want_text(o))))
            case.check(pn.via[:len(o.via)] == o.via, "via", lambda: "%s: %r was %r" % (desc, pn.via, o.via))
        else:
            def norm(body):
                l = body.split(b"\r")
                k = [x for x in l if x.startswith(b"\x01") and not x.startswith(b"\x01PATH")]
                rest = [x for x in l if x not in k]
                return k, [rest[0]] + lead(rest[1:])
            case.check(norm(m.body) == norm(o.body), "echomail-body", lambda: "%s: %s was %s" % (
                desc, short(norm(m.body)), short(norm(o.body))))
        case.seen("messages_checked")
    for k, v in got.items():
        case.fail("unknown-message", short(v[0][2].body))
    case.sample = "%d packets, rules %s" % (nfile, L)


CHECK = Check("P06", "exploration",
              "runs of the instrumented router on generated tossed packets and routing files, compared with an "
              "independent interpreter of the routing file; distinct by packet type, flavours, decision, points "
              "and rule counts",
              ["routing targets written with wildcards are read as 0 in the missing parts",
               "the order of messages is only required within one output packet"])
CHECK.phase("random", one, 1500, 40000)
