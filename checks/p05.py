"""P05 Netmail in transit."""
import re, time
from collections import defaultdict
from vlib.harness import Check
from vlib.spool import Spool
from vlib.pkt import Node, N, Pkt
from vlib.tossmodel import fts_date, wild
from vlib.tossrun import netgen, short
from vlib import netm
from vlib.netm import Pat, PN, addr4, lead, want_text, NAMES


def best(addrs, zone):
    for a in addrs:
        if a.zone == zone:
            return a
    return addrs[0]


def one(case):
    rng = case.rng
    addrs, pool = netgen(rng, {})
    far = [Node(rng.choice([1, 2, 3, 4, 5, 6]), rng.randrange(1, 32000), rng.randrange(0, 32000),
                rng.choice([0, 0, 1, 17])) for _ in range(4)]
    ends = pool + far + addrs + [a._replace(point=a.point + 5) for a in addrs]
    conf, args = [], []
    spies, rules = [], []
    route = []
    killempty = rng.random() < 0.3
    if killempty:
        conf.append("KillEmpty")
    ping = rng.random() < 0.2
    if ping:
        conf.append("SupportPing")
    if rng.random() < 0.3:
        conf.append("LogNetMail")
    sflag = rng.random() < 0.1
    if sflag:
        args.append("-s")
    npat = [b"*", b"areafix", b"AreaMgr", b"Sysop", b"Ivan*", b"?", b"*mgr", b"Ivan Ivanov", b"UUCP", b"A*"]
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 2, 4])):
            kind = rng.choice(["remapto", "remapfrom", "rewrite", "rewriteto", "rewritefrom"])
            src = netm.pat_of(rng, rng.choice(ends))
            dst = netm.pat_of(rng, rng.choice(ends), dst=True)
            if kind.startswith("remap") and rng.random() < 0.12:
                dst = Pat(0, 0, 0, 0)
            name = rng.choice(npat) if kind != "rewrite" else b"*"
            rules.append((kind, src, dst, name))
            kw = kind if rng.random() < 0.7 else rng.choice([kind.upper(), kind.title()])
            l = "%s %s %s" % (kw, src.s(), dst.s())
            if kind != "rewrite":
                n = name.decode("latin1")
                l += ' "%s"' % n if " " in n or rng.random() < 0.5 else " " + n
            route.append(l)
    if rng.random() < 0.15:
        for _ in range(rng.choice([1, 2])):
            n = rng.choice(ends)._replace(point=0)
            if n not in [x[0] for x in spies]:
                spies.append((n, rng.choice(ends)))
    if rng.random() < 0.3:
        conf.append("MaxOpenFiles %d" % rng.choice([1, 2, 3]))
    if rng.random() < 0.3:
        conf.append("MaxMsg %d" % rng.choice([1, 2, 5]))
    pwd = {n: rng.choice(["SECRET", "x", "Pass1234"]) for n in ends if rng.random() < 0.2}
    sp = Spool(case, addrs=[a.s() for a in addrs], uplink=pool[0].s(), conf=conf)
    sp.put("etc/routing", "\n".join(["# routing of the check"] + route) + "\n")
    sp.put("etc/spyes", "".join("%s %s\n" % (a.s(), b.s()) for a, b in spies))
    sp.put("etc/passwd", "".join("packet %s %s\n" % x for x in
                                 ((n.s(), p) for n, p in sorted(pwd.items()))))
    now = int(time.time())
    cid, sent = 0, []
    pk = []
    for i in range(rng.choice([1, 1, 2, 4])):
        po, pd = rng.choice(pool), rng.choice(addrs)
        ms = []
        for _ in range(rng.choice([0, 1, 2, 5])):
            cid += 1
            f = rng.choice(ends)
            t = rng.choice(ends)
            m = netm.gen(rng, po, pd, f, t, cid, now)
            ms.append(m)
            sent.append(m)
        p = Pkt(po, pd, [m.msg() for m in ms], rng.choice([b"", b"pw"]), kind=rng.choice(["2+", "48"]))
        sp.put("bt/pin/%08x.pkt" % rng.randrange(1 << 32), p.raw(), mtime=now - 1000 + i)
        pk.append(p)
    r = sp.run("toss/ftntoss", *args)
    case.san(r)
    case.check(r.rc == 0, "exit-status", lambda: "rc=%d %s" % (r.rc, sp.log()[-600:]))
    case.check(not sp.ls("bt/pin"), "input-left", lambda: str(sp.ls("bt/pin")) + sp.log()[-500:])

    # model
    def rewrite(f, t, m):
        for kind, src, dst, name in rules:
            if kind not in ("rewrite", "rewriteto", "rewritefrom"):
                continue
            nm = name.decode("latin1")
            if src.match(f) and (kind == "rewrite" or kind == "rewritefrom" and
                                 wild(m.frm.decode("latin1"), nm)):
                return dst.apply(f)
            if src.match(t) and (kind == "rewrite" or kind == "rewriteto" and
                                 wild(m.to.decode("latin1"), nm)):
                return dst.apply(f)
        return f

    def remap(f, t, m):
        for kind, src, dst, name in rules:
            nm = name.decode("latin1")
            if kind == "remapto" and src.match(t) and wild(m.to.decode("latin1"), nm) or \
               kind == "remapfrom" and src.match(f) and wild(m.frm.decode("latin1"), nm):
                return dst.apply(t)
        return t

    want = []        # (m, from, to, subject, ours)
    pongs = []
    for m in sent:
        f, t = m.orig, m.dest
        spy = None
        for a in (f, t):
            spy = spy or next((s for s in spies if s[0][:3] == a[:3]), None)
        subj, nvia = m.subj, 0
        for copy in (0, 1) if spy else (0,):
            if copy:
                subj = ("[FWD] from %s to %s: " % (f.p4(), t.p4())).encode() + m.subj
                subj = subj[:71]
                t = spy[1]
            isping = m.to.lower() == b"ping"
            if isping and ping:
                pongs.append((f, m))
            if killempty and m.empty and not isping and t in addrs:
                case.seen("killed_empty")
                continue
            f = rewrite(f, t, m)
            t = remap(f, t, m)
            if t == Node(0, 0, 0, 0):
                case.seen("killed_remap")
                continue
            nvia += 1
            want.append((m, f, t, subj, nvia))
            if (f, t) != (m.orig, m.dest):
                case.seen("readdressed")
            case.sig(m.orig == f, m.dest == t, bool(m.orig.point), bool(m.dest.point),
                     m.orig.zone == addrs[0].zone, m.dest.zone == addrs[0].zone, copy,
                     m.attr & 0x202, len(m.more), len(m.via), m.empty, len(rules))
    got = defaultdict(list)
    for path, p in sp.read_pkts("spool/toss/toss"):
        for m in p.msgs:
            mm = re.search(rb"cid=(\d{6})", m.body)
            got[int(mm[1]) if mm else None].append((path, p, m, PN(m.body)))
    bad = sp.read_pkts("spool/toss/bad")
    case.check(not bad, "in-bad-store", lambda: sp.log()[-800:])
    byc = defaultdict(list)
    for w in want:
        byc[w[0].cid].append(w)
    for m in sent:
        ws, gs = byc[m.cid], got.pop(m.cid, [])
        desc = "cid=%d %s@%s -> %s@%s pkt %s->%s %s %s" % (
            m.cid, m.frm, m.orig.s(), m.to, m.dest.s(), m.porig.s(), m.pdest.s(), m.kludges[:4], route)
        if not case.check(len(ws) == len(gs), "copies", lambda: "%s: %d copies expected %d; log %s" % (
                desc, len(gs), len(ws), sp.log()[-500:])):
            continue
        # pair by destination and via count
        gs = sorted(gs, key=lambda g: len(g[3].via))
        for (mm, f, t, subj, nvia), (path, p, o, b) in zip(ws, gs):
            case.seen("copies_checked")
            gf, gt, err = addr4(o, b, p)
            case.check(not err, "addressing-lines", lambda: "%s: %s" % (desc, err))
            case.check(gf == f, "origin-address", lambda: "%s: from %s, should be %s" % (desc, gf.s(), f.s()))
            case.check(gt == t, "destination-address", lambda: "%s: to %s, should be %s" % (desc, gt.s(), t.s()))
            case.check(p.dest == t, "packet-destination", lambda: "%s: packet to %s, should be %s" % (
                desc, p.dest.s(), t.s()))
            us = best(addrs, t.zone)
            case.check(p.orig == us, "packet-origin", lambda: "%s: packet from %s, should be %s" % (
                desc, p.orig.s(), us.s()))
            case.check(p.pw == pwd.get(t, "").encode(), "packet-password", lambda: "%s: %r" % (desc, p.pw))
            for nm, x, y in (("from-name", o.frm, m.frm), ("to-name", o.to, m.to), ("subject", o.subj, subj),
                             ("attributes", o.attr, m.attr), ("date", o.date, fts_date(m.date))):
                case.check(x == y, nm, lambda: "%s: %s %r, should be %r" % (desc, nm, x, y))
            other = b.addressing()[3]
            case.check(other == m.more, "control-lines", lambda: "%s: %s, should be %s" % (
                desc, short(other), short(m.more)))
            case.check(lead(b.text) == lead(want_text(m)), "text", lambda: "%s: %s, should be %s" % (
                desc, short(b.text), short(want_text(m))))
            case.check(b.term, "last-line", lambda: desc)
            case.check(b.via[:len(m.via)] == m.via and len(b.via) == len(m.via) + nvia, "via-kept",
                       lambda: "%s: %r, had %r" % (desc, b.via, m.via))
            if len(b.via) > len(m.via):
                mv = re.fullmatch(rb"Via (\S+) @\d{8}\.\d{6}\S* FIDOGATE/ftntoss", b.via[-1])
                case.check(mv and mv[1].decode() == us._replace(point=0).s() or
                           mv and mv[1].decode() == us.s(), "via-line",
                           lambda: "%s: %r, we are %s" % (desc, b.via[-1], us.s()))
            flav = "c" if o.attr & 2 else "h" if o.attr & 0x200 else "n"
            if sflag:
                flav = "n"
            nm = path.rsplit("/", 1)[1]
            case.check(nm[:3] == "nn" + flav, "flavour", lambda: "%s: attr %x in %s" % (desc, o.attr, nm))
    for k, v in got.items():
        case.fail("unknown-message", short(v[0][2].body))
    # answers to pings
    ans = [m for _, p in sp.read_pkts("spool/outpkt") for m in p.msgs]
    case.check(len(ans) == len(pongs), "ping-answers", lambda: "%d answers for %d pings" % (len(ans), len(pongs)))
    for m in ans:
        case.check(any((f.net, f.node) == (m.dnet, m.dnode) and q.frm == m.to for f, q in pongs),
                   "ping-answers", lambda: "answer to %r %d/%d" % (m.to, m.dnet, m.dnode))
    if sent:
        case.sample = "%d netmails %s" % (len(sent), route)


CHECK = Check("P05", "exploration",
              "runs of the instrumented tosser on generated netmail packets, compared with an independent "
              "model of addressing, rewrite and remap rules; a situation is distinct by readdressing, "
              "points, zones, attributes, copies and line counts",
              ["netmail without any control line is set aside with its packet by design (not generated)",
               "leading blank lines of the text are not significant"])
CHECK.phase("random", one, 1200, 30000)
