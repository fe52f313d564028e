"""Scenarios for the echomail tosser: generate, run, compare with the model.

Every copy of a message put into a packet carries a unique line cid=NNNN, so
each message found in any output identifies the input it came from.
"""
import re, time
from collections import Counter, defaultdict
from .pkt import Node, N, Msg, Pkt, parse, PktError
from .spool import Spool
from . import tossmodel as T
from .tossmodel import Area, EMsg, Cfg, Model, Parsed, expand, compress, fts_date

FIDO_ATTR = [0, 0, 0, 0x80, 0x100, 0x4, 0x20]
NAMES = [b"All", b"Sysop", b"Ivan Ivanov", b"\x88\xa2\xa0\xad", b"J. R. \"Bob\" Dobbs", b"a",
         b"A" * 35, b"x@y.z", b"Name, With Comma", b"UUCP"]


def netgen(rng, w):
    """our addresses and possible links"""
    addrs = [Node(2, 5030, 100, 0)]
    r = rng.random()
    if r < 0.25:
        addrs.append(Node(3, rng.choice([712, 5030]), rng.choice([848, 101]), 0))
    elif r < 0.4:
        addrs.append(Node(2, 5030, 1000, 0))
    elif r < 0.5:
        addrs = [Node(2, 5030, 100, 7)]
    elif r < 0.6:
        addrs += [Node(1, 250, 250, 0), Node(2, 463, 100, 3)]
    pool, used = [], {(a.net, a.node, a.point) for a in addrs}

    def add(n):
        if (n.net, n.node, n.point) not in used:
            used.add((n.net, n.node, n.point))
            pool.append(n)
    k = rng.choice([2, 3, 4, 6, 9, 14]) if rng.random() < 0.93 else rng.choice([30, 60])
    while len(pool) < k:
        a = rng.choice(addrs)
        t = rng.random()
        if t < 0.2:
            add(Node(a.zone, a.net, a.node, rng.randrange(1, 40)))
        elif t < 0.5:
            add(Node(a.zone, a.net, rng.randrange(1, 400), 0))
        elif t < 0.65:
            add(Node(a.zone, rng.choice([50, 500, 503, 5031, 6030, 1]), rng.randrange(1, 5000), 0))
        elif t < 0.8 and pool:
            b = rng.choice(pool)
            add(rng.choice([b._replace(node=b.node + 1), b._replace(net=b.net + 1),
                            b._replace(point=b.point + 1), b._replace(point=0)]))
        else:
            add(Node(rng.choice([1, 2, 3, 4]), rng.randrange(1, 32000), rng.randrange(0, 32000), 0))
    return addrs, pool


def scengen(rng, w):
    c = Cfg()
    c.addrs, pool = netgen(rng, w)
    na = rng.choice([1, 1, 2, 3, 5])
    tags = rng.sample(["TEST.AREA", "SU.GENERAL", "R50.SYSOP", "TEST.AREA2", "A", "FIDO-X_1",
                       "XSU.BEST!", "PVT.EXCH.BLACK.LOG", "12345", "LONG." + "N" * 40], na)
    for t in tags:
        k = min(len(pool), rng.choice([1, 2, 3, 4, 6, 10, 60]))
        nodes = rng.sample(pool, k)
        own_zones = {a.zone for a in c.addrs}
        first = next((n for n in nodes if n.zone in own_zones), None)
        a = Area(t, nodes)
        if first:
            nodes.remove(first)
            nodes.insert(0, first)
            a.nodes = nodes
        else:
            a.zone = rng.choice(sorted(own_zones))
        if rng.random() < 0.15:
            a.zone = rng.choice(sorted(own_zones))
        if rng.random() < 0.15:
            a.addr = rng.choice(c.addrs)
        if rng.random() < 0.3:
            a.passthru = True
            if rng.random() < 0.3:
                a.nodes.insert(rng.randrange(len(a.nodes) + 1), c.our(a))
        if rng.random() < 0.25:
            l = [n for n in a.nodes if n not in c.addrs]
            a.passive = rng.sample(l, rng.randrange(1, min(3, len(l)) + 1)) if l else []
        if rng.random() < 0.1:
            a.lvl = rng.choice([10, 100])
            a.desc = "Some area"
        if rng.random() < w.get("state", 0.04):
            a.state = rng.choice(["W", "P", "U", "F", "S"])
        c.areas.append(a)
    for n in pool + [c.addrs[0]]:
        if rng.random() < w.get("pw", 0.25):
            c.passwords[n] = rng.choice(["SECRET", "secret", "Pass1234", "x", "PW"])
    c.kill = {k for k in ("Unknown", "Routed", "Insecure", "Circular", "Dupe")
              if rng.random() < w.get("kill", 0.1)}
    c.dupecheck = rng.random() < w.get("dupecheck", 0.7)
    c.killnomsgid = rng.random() < 0.08
    c.killold = rng.random() < 0.1
    c.maxhistory = 14
    c.checkpath = rng.random() < 0.7
    c.echo4d = rng.random() < 0.25
    c.noemptypath = rng.random() < 0.2
    c.addother = rng.random() < 0.2
    extra = [N("2:5030/9999"), N("2:5030/8888"), N("2:463/1"), N("2:5020/1042")]
    if rng.random() < w.get("addto", 0.1):
        for _ in range(rng.choice([1, 2])):
            c.addto.append((rng.choice(tags + ["*", "SU.*", "*.AREA"]),
                            rng.sample(extra + pool, rng.randrange(1, 4))))
    if rng.random() < w.get("addto", 0.1):
        c.delseen = rng.sample(extra + pool, rng.randrange(1, 3))
    if rng.random() < w.get("addto", 0.1):
        c.delpath = rng.sample(extra + pool, rng.randrange(1, 3))
    if rng.random() < 0.1:
        c.zonegate.append((rng.choice(pool), rng.sample(extra, rng.randrange(1, 4))))
    c.n = rng.random() < 0.1
    c.t = rng.random() < 0.1
    c.p = rng.random() < 0.05
    if rng.random() < 0.4:
        c.maxopen = rng.choice([1, 2, 3, 8])
    if rng.random() < 0.3:
        c.maxmsg = rng.choice([1, 2, 5])
    return c, pool


class Scenario:
    def __init__(self, case, weights=None):
        self.case, self.rng, self.w = case, case.rng, dict(weights or {})
        rng = self.rng
        self.cfg, self.pool = scengen(rng, self.w)
        self.now = int(time.time())
        self.model = Model(self.cfg, self.now)
        self.ncid = 0
        self.sent = []          # EMsg already put into packets
        self.serial = rng.randrange(1 << 20)
        self.spool = Spool(case, addrs=[a.s() for a in self.cfg.addrs],
                           uplink=self.pool[0].s(), conf=self.cfg.conf())
        L = ["; areas.bbs of the check"] + [a.line(rng) for a in self.cfg.areas]
        self.spool.put("etc/areas.bbs", "\n".join(L) + "\n")
        self.spool.put("etc/passwd", "".join("packet %s %s\n" % (n.s(), p)
                                             for n, p in sorted(self.cfg.passwords.items())))
        self.extra_kludges = True

    # -- one message -------------------------------------------------------
    def emsg(self, area, pk_orig):
        rng, w = self.rng, self.w
        m = EMsg()
        if self.sent and rng.random() < w.get("repeat", 0.12):
            o = rng.choice(self.sent)
            m.__dict__.update({k: (list(v) if isinstance(v, list) else v)
                               for k, v in o.__dict__.items()})
            m.area = o.area
            how = rng.random()
            if how < 0.3:
                m.area = area          # same id, maybe another area
            if how < 0.5:
                m.seenby = m.seenby + [n for n in rng.sample(self.pool, 1)
                                       if not T.echo_in(n, m.seenby)]
            if 0.5 < how < 0.7:
                # near-identical id or header
                if m.msgid:
                    self.serial += 1
                    base, num = m.msgid.rsplit(" ", 1)
                    m.set_msgid(rng.choice([
                        "%s %s" % (base, num[:-1] + ("0" if num[-1] != "0" else "1")),
                        "%s %s0" % (base, num), "%s %s" % (base, num[:-1]) if len(num) > 1 else "%s 7" % base,
                        "%s x%s" % (base, num), "1%s %s" % (base, num)]))
                else:
                    f = rng.choice(["frm", "to", "subj", "date", "swap"])
                    if f == "date":
                        m.date += rng.choice([-2, 2, 60, 86400, -3600])
                    elif f == "swap":
                        m.frm, m.to = m.to, m.frm
                    else:
                        setattr(m, f, (getattr(m, f) + b"x")[-30:])
        else:
            m.area = area
            z = self.cfg.addrs[0].zone
            oa = rng.choice(self.pool + [Node(2, rng.randrange(1, 9999), rng.randrange(1, 9999), 0)])
            m.orig_addr = oa
            self.serial += 1
            m.has_msgid = rng.random() < w.get("msgid", 0.85)
            m.has_origin = rng.random() < 0.92 or not m.has_msgid and rng.random() < 0.5
            if m.has_origin:
                txt = rng.choice([b"Default origin", b"", b"(paren) in text", b"\xcf\xf0 \x80\x81",
                                  b"x" * 40, b"http://a.b/"])
                m.origin = b" * Origin: " + txt + b" (" + oa.s().encode() + b")"
            if m.has_msgid:
                m.set_msgid("%s %08x" % (oa.s(), self.serial * 2654435761 & 0xffffffff))
                if w.get("longid", .03) > 0 and rng.random() < w.get("longid", .03):
                    m.set_msgid(m.msgid + "x" * rng.choice([180, 190, 200, 210, 215, 220, 225, 230, 235, 240, 250, 300, 1000, 6000]))
            if not m.has_msgid and not m.has_origin:
                m.orig_addr = None
            t = rng.random()
            if t < 0.8:
                m.tear = rng.choice([b"--- GoldED+", b"---", b"--- ", b"--- FIDOGATE 5.12"])
            m.frm, m.to = rng.choice(NAMES), rng.choice(NAMES)
            m.subj = rng.choice([b"", b"test", b"Re: test", b"S" * 71, b"\x92\xa5\xac\xa0", b"[x] 1/2"])
            m.date = self.now - rng.randrange(-3600, 86400)
            if rng.random() < 0.06:
                m.date -= 86400 * rng.choice([40, 400, 5000])
            m.attr = rng.choice(FIDO_ATTR)
            ks = []
            if rng.random() < 0.4:
                ks.append(b"PID: GED+W32 1.1.5")
            if rng.random() < 0.3:
                ks.append(b"REPLY: 2:5030/1 12345678")
            if rng.random() < 0.3:
                ks.append(b"CHRS: CP866 2")
            if rng.random() < 0.1:
                ks.append(b"TZUTC: 0300")
            if rng.random() < 0.05:
                ks.append(b"X-LONG: " + b"k" * rng.choice([100, 1000, 8000]))
            m.pos_msgid = rng.randrange(len(ks) + 1)
            m.other = ks
            k = rng.choice([0, 0, 1, 2, 5, 12, 40])
            sb = []
            for _ in range(k):
                t = rng.random()
                n = (rng.choice(self.pool) if t < w.get("sb_link", 0.25) else
                     Node(2, rng.choice([5030, 5020, 463, 450, 5030]), rng.randrange(1, 9999), 0))
                if t > 0.97:
                    n = n._replace(point=rng.randrange(1, 99))
                if not T.echo_in(n, sb):
                    sb.append(n)
            if rng.random() < 0.8:
                sb.sort(key=lambda n: (n.net, n.node, n.point))
            m.seenby = sb
            p = []
            for _ in range(rng.choice([0, 0, 1, 2, 3, 8, 30])):
                n = Node(2, rng.choice([5030, 5020, 463]), rng.randrange(1, 9999), 0)
                if rng.random() < 0.04:
                    n = rng.choice(self.cfg.addrs)
                if not T.echo_in(n, p):
                    p.append(n)
            m.path = p
            m.seenby_lines = bool(sb) or rng.random() < 0.5
            m.path_lines = bool(p) or rng.random() < 0.5
        # where it comes from
        if rng.random() < 0.6:
            if not T.echo_in(pk_orig, m.seenby) and m.seenby_lines and rng.random() < 0.8:
                m.seenby.append(pk_orig)
            if m.path_lines and rng.random() < 0.8:
                if not m.path or not T.echo_eq(m.path[-1], pk_orig):
                    m.path = [n for n in m.path if not T.echo_eq(n, pk_orig)] + [pk_orig]
        m.kludges = list(m.other)
        if m.msgid is not None:
            m.kludges.insert(min(m.pos_msgid, len(m.kludges)), b"MSGID: " + m.msgid.encode())
        self.ncid += 1
        m.cid = self.ncid
        m.body = T.gen_text(rng, "cid=%06d" % m.cid)
        if rng.random() < w.get("lookalike", 0.12):
            # lines that look like the end of the text, quoted in the middle of it
            k = rng.randrange(len(m.body) + 1)
            t, o = rng.choice([b"--- GoldED+", b"---", b"--- "]), \
                b" * Origin: quoted (2:5020/%d)" % rng.randrange(1, 9999)
            m.body[k:k] = rng.choice([[t], [o], [t, o], [o, t], [t, t], [o, o], [t, o, b"x", t, o],
                                      [t, b"between", o]]) + [b"text goes on"]
        if rng.random() < 0.02:
            m.body += [b"long text line " * 40] * rng.choice([20, 200])
        self.sent.append(m)
        return m

    def round(self):
        """packets of one run: [(Pkt, [EMsg])]"""
        rng, c, w = self.rng, self.cfg, self.w
        out = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            area = rng.choice(c.areas)
            t = rng.random()
            if t < w.get("linked", 0.8):
                o = rng.choice(area.nodes)
            elif t < 0.9:
                o = rng.choice(self.pool)
            elif t < 0.95:
                o = rng.choice(c.addrs)
            else:
                o = Node(2, 5099, rng.randrange(1, 9999), 0)
            d = rng.choice(c.addrs) if rng.random() < w.get("tous", 0.93) else \
                rng.choice([Node(2, 5030, 101, 0), c.addrs[0]._replace(point=99),
                            c.addrs[0]._replace(zone=6)] + self.pool)
            if rng.random() < 0.5:
                d = c.our(area)
            pw = c.passwords.get(o)
            if pw is None:
                pw = rng.choice(["", "", "", "whatever"])
            else:
                r = rng.random()
                if r < w.get("badpw", 0.12):
                    pw = rng.choice(["", "wrong", pw + "x", pw[:-1], "Z" + pw[1:]])[:8]
                elif r < 0.3:
                    pw = pw.swapcase()
            kind = rng.choice(["2+", "2+", "48"])
            msgs = []
            for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
                a = area if rng.random() < 0.7 else rng.choice(c.areas)
                tag = a.tag
                r = rng.random()
                if r < w.get("unknown", 0.06):
                    tag = rng.choice(["NO.SUCH.AREA", a.tag + "X", a.tag[:-1] or "Q", "X" + a.tag])
                    if c.lookup(tag):
                        tag = "NO.SUCH.AREA"
                elif r < 0.15:
                    tag = tag.lower()
                msgs.append(self.emsg(tag, o))
            raw = [Msg(m.frm, m.to, m.subj, m.raw_body(rng.choice([72, 72, 79, 40, 200])), o, d, m.attr,
                       0, fts_date(m.date)) for m in msgs]
            out.append((Pkt(o, d, raw, pw.encode(), kind=kind), msgs))
        return out

    # -- run and collect ---------------------------------------------------
    def run_round(self, variant="asan"):
        case, sp = self.case, self.spool
        pkts = self.round()
        t0 = self.now - 100000
        for i, (p, ms) in enumerate(pkts):
            sp.put("bt/pin/%08x.pkt" % self.rng.randrange(1 << 32), p.raw(), mtime=t0 + 10 * i)
        exp = []
        for p, ms in pkts:
            for m in ms:
                exp.append(self.model.toss(m, p))
        r = sp.run("toss/ftntoss", *self.cfg.args(), variant=variant)
        case.san(r)
        self.rc = r.rc
        got = defaultdict(list)       # cid -> [(where, Pkt, Msg, Parsed)]
        for where, rel in (("out", "spool/toss/toss"), ("bad", "spool/toss/bad")):
            for path, p in sp.read_pkts(rel):
                for m in p.msgs:
                    b = Parsed(m.body)
                    mm = re.search(rb"cid=(\d{6})", m.body)
                    if not mm:
                        if b.area is not None:
                            got[None].append((where, p, m, b))
                        continue
                    got[int(mm[1])].append((where, p, m, b))
        self.left = sp.ls("bt/pin")
        self.clear()
        return pkts, exp, got

    def clear(self):
        import os
        for rel in ("spool/toss/toss", "spool/toss/bad", "bt/pin"):
            for f in self.spool.ls(rel):
                os.unlink(f)


def _set_msgid(self, s):
    self.msgid = s
    self.msgid = s


EMsg.set_msgid = _set_msgid


def lead(lines):
    i = 0
    while i < len(lines) and not lines[i].strip():
        i += 1
    return lines[i:]


def want_text(m):
    t = list(m.rfc) + list(m.body)
    t.append(m.tear if m.tear is not None else b"---")
    if m.origin is not None:
        t.append(m.origin)
    return t


def content_diff(m, p, msg, b):
    """differences between what was sent and what came out, except SEEN-BY/PATH"""
    d = []
    if (b.area or "") != m.area:
        d.append(("area", b.area, m.area))
    if b.kludges != list(m.kludges):
        d.append(("control lines", b.kludges, m.kludges))
    if lead(b.text) != lead(want_text(m)):
        d.append(("text", b.text, want_text(m)))
    for f in ("frm", "to", "subj", "attr"):
        if getattr(msg, f) != getattr(m, f):
            d.append((f, getattr(msg, f), getattr(m, f)))
    if msg.date != fts_date(m.date):
        d.append(("date", msg.date, fts_date(m.date)))
    if not b.term:
        d.append(("last line not terminated", msg.body[-60:], ""))
    return d


def short(x):
    s = repr(x)
    return s if len(s) < 700 else s[:350] + " ... " + s[-350:]


def describe(o):
    m, p = o.msg, o.pkt
    return "cid=%d area=%s msgid=%r from pkt %s->%s pw=%r expected %s %s" % (
        m.cid, m.area, m.msgid, p.orig.s(), p.dest.s(), p.pw, o.kind, o.why or "")
