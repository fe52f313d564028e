"""Facets of the tosser oracle: distribution, duplicates, SEEN-BY/PATH, quarantine."""
from collections import Counter
from .tossrun import Scenario, content_diff, describe, short, want_text, lead
from .tossmodel import expand, echo_in

SEC = {"password", "unknown", "routed", "insecure", "noorigin"}
DUP = {"dupe", "nomsgid", "noorigin2", "old"}


def rounds(case, weights, n):
    s = Scenario(case, weights)
    for _ in range(n):
        pkts, exp, got = s.run_round()
        yield s, pkts, exp, got


def split(got, o):
    l = got.get(o.msg.cid, [])
    return [x for x in l if x[0] == "out"], [x for x in l if x[0] == "bad"]


def note(case, s, pkts, exp):
    for o in exp:
        case.seen("expect_" + o.kind + ("_" + o.why if o.why else ""))
    case.seen("packets", len(pkts))
    case.seen("messages", len(exp))
    case.sig(tuple((o.kind, o.why, o.area.tag if o.area else None,
                    tuple(o.new or ())) for o in exp), s.cfg.conf(), s.cfg.args())
    if case.sample is None and exp:
        o = exp[0]
        case.sample = describe(o) + " to " + " ".join(n.s() for n in (o.new or []))


def dist(case, s, pkts, exp, got):
    """P01"""
    for o in exp:
        out, bad = split(got, o)
        if o.kind != "tossed":
            continue
        want = Counter(o.new)
        have = Counter(x[1].dest for x in out)
        case.check(not (want - have), "not-delivered", lambda: "%s: missing %s, got %s, %d in bad; log:\n%s" % (
            describe(o), [n.s() for n in (want - have)], [n.s() for n in have], len(bad), s.spool.log()[-600:]))
        ex = have - want
        case.check(not ex, "delivered-too-often", lambda: "%s: extra %s want %s" % (
            describe(o), [(n.s(), c) for n, c in ex.items()], [n.s() for n in want]))
        if want == have:
            case.check(not bad, "also-in-bad", lambda: describe(o))
        for w, p, m, b in out:
            d = content_diff(o.msg, p, m, b)
            case.check(not d, "content-changed:" + ",".join(x[0] for x in d),
                       lambda: "%s: %s" % (describe(o), short(d)))
            case.check(p.orig == o.us, "packet-origin", lambda: "%s: packet from %s, should be %s" % (
                describe(o), p.orig.s(), o.us.s()))
            case.check((m.onet, m.onode) == (o.us.net, o.us.node) and
                       (m.dnet, m.dnode) == (p.dest.net, p.dest.node), "message-address",
                       lambda: "%s: message %d/%d -> %d/%d in packet %s -> %s" % (
                           describe(o), m.onet, m.onode, m.dnet, m.dnode, p.orig.s(), p.dest.s()))
            pw = s.cfg.passwords.get(p.dest, "")
            case.check(p.pw == pw.encode(), "packet-password", lambda: "%s to %s: %r != %r" % (
                describe(o), p.dest.s(), p.pw, pw))
            case.seen("copies_checked")
    for x in got.get(None, []):
        case.fail("content-changed:unidentified", short(x[2].body))
    known = {o.msg.cid for o in exp}
    for cid in got:
        if cid is not None and cid not in known:
            case.fail("resurrected", "cid %d from an earlier run came out again" % cid)
    case.check(not s.left, "input-left", lambda: "left in inbound: %s rc=%d" % (s.left, s.rc))
    case.check(s.rc == 0, "exit-status", lambda: "rc=%d" % s.rc)


def dupes(case, s, pkts, exp, got):
    """P02"""
    for o in exp:
        out, bad = split(got, o)
        if o.kind == "tossed" and o.new:
            case.check(out or not bad, "false-duplicate", lambda: "%s was not distributed; log:\n%s" % (
                describe(o), s.spool.log()[-600:]))
            case.check(out, "false-duplicate", lambda: "%s vanished" % describe(o))
        elif o.why in DUP:
            case.check(not out, "duplicate-distributed", lambda: "%s went to %s" % (
                describe(o), [x[1].dest.s() for x in out]))
            if o.kind == "bad":
                case.check(len(bad) == 1, "duplicate-not-kept", lambda: "%s: %d in bad" % (
                    describe(o), len(bad)))
            case.seen("duplicates_checked")


def uniq(l):
    return [n for i, n in enumerate(l) if i == 0 or l[i - 1] != n]


def seenpath(case, s, pkts, exp, got):
    """P03"""
    for o in exp:
        out, bad = split(got, o)
        if o.why == "circular":
            case.check(not out, "circular-distributed", lambda: "%s went to %s path %s" % (
                describe(o), [x[1].dest.s() for x in out], o.msg.path))
            continue
        if o.kind != "tossed":
            continue
        if o.new:
            case.check(out or not bad or "ircular" not in s.spool.log(), "false-circular",
                       lambda: "%s path %s; log %s" % (describe(o), [n.s() for n in o.msg.path],
                                                       s.spool.log()[-400:]))
        pt = lambda l: [(n.net, n.node, n.point) for n in l if s.cfg.echo4d or not n.point]
        for w, p, m, b in out:
            zg = next((ns for z, ns in s.cfg.zonegate if z == p.dest), None)
            want = set(pt(o.seenby if zg is None else [n for n in zg if n != p.dest]))
            try:
                have = expand(b.seenby, b"SEEN-BY:")
            except ValueError as e:
                case.fail("seenby-unreadable", "%s: %s %s" % (describe(o), e, b.seenby))
                have = None
            if have is not None:
                case.check(set(have) == want, "seenby-wrong", lambda: "%s -> %s: missing %s, extra %s\nin: %s\nout: %s" % (
                    describe(o), p.dest.s(), sorted(want - set(have)), sorted(set(have) - want),
                    short(o.msg.seenby), short(b.seenby)))
            wp = uniq(pt(o.path))
            try:
                hp = uniq(expand(b.path, b"\x01PATH:"))
            except ValueError as e:
                case.fail("path-unreadable", "%s: %s" % (describe(o), e))
                hp = None
            if hp is not None:
                case.check(hp == wp, "path-wrong", lambda: "%s: PATH %s expected %s" % (
                    describe(o), hp, wp))
            case.check(all(len(l) <= 80 for l in b.seenby + b.path), "line-too-long",
                       lambda: short(b.seenby + b.path))
            o1, o2 = b.order.find("S"), b.order.find("P")
            case.check("t" not in b.order[o1:] if o1 >= 0 else False, "seenby-placement",
                       lambda: "%s: %s" % (describe(o), b.order))
            if o2 >= 0:
                case.check(b.order.rstrip("P").find("P") < 0, "path-placement", lambda: b.order)
            case.seen("seenby_entries", len(want))
            case.seen("path_entries", len(wp))


def quarantine(case, s, pkts, exp, got):
    """P04"""
    for o in exp:
        out, bad = split(got, o)
        if o.why in SEC:
            case.check(not out, "insecure-distributed", lambda: "%s went to %s" % (
                describe(o), [x[1].dest.s() for x in out]))
            case.seen("insecure_" + o.why)
            if o.kind == "bad":
                case.check(len(bad) == 1, "not-kept", lambda: "%s: %d copies in bad" % (
                    describe(o), len(bad)))
            else:
                case.check(not bad, "killed-but-kept", lambda: describe(o))
            for w, p, m, b in bad:
                d = content_diff(o.msg, p, m, b)
                case.check(not d, "bad-content-changed", lambda: "%s: %s" % (describe(o), short(d)))
        elif o.kind == "tossed" and o.new:
            case.check(bool(out), "good-not-distributed", lambda: "%s: log %s" % (
                describe(o), s.spool.log()[-500:]))
            case.check(not bad, "good-in-bad", lambda: describe(o))
