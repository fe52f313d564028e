"""Netmail: generating messages, parsing them back, and the transit rules."""
import re
from .pkt import Node, Msg
from .tossmodel import fts_date, gen_text, wild

NAMES = [b"Sysop", b"Ivan Ivanov", b"\x88\xa2\xa0\xad \x88\xa2\xa0\xad\xae\xa2", b"J. R. \"Bob\" Dobbs",
         b"a", b"A" * 35, b"areafix", b"AreaMgr", b"filefix", b"UUCP", b"ping", b"John_Doe", b"x@y.z",
         b"Name, Comma", b"O'Neil", b"Bob (Robert)"]
SUBJ = [b"", b"test", b"Re: test", b"S" * 71, b"\x92\xa5\xac\xa0", b"[x] 1/2", b"file.zip", b"a  b"]


class NM:
    """one netmail message as put into a packet"""
    __slots__ = ("frm", "to", "subj", "attr", "cost", "date", "orig", "dest", "intl", "onode",
                 "dnode", "kludges", "head", "text", "tear", "origin", "via", "cid", "porig",
                 "pdest", "blank", "empty", "order", "more")

    def body(self):
        L = [b"\x01" + k for k in self.kludges]
        L += [b""] * self.blank
        L += self.text
        if self.tear is not None:
            L.append(self.tear)
        if self.origin is not None:
            L.append(self.origin)
        L += [b"\x01" + v for v in self.via]
        return b"".join(l + b"\r" for l in L)

    def msg(self, rng=None):
        m = Msg(self.frm, self.to, self.subj, self.body(), self.onode, self.dnode, self.attr,
                self.cost, fts_date(self.date))
        return m


class PN:
    """a netmail body found in a packet"""

    def __init__(self, body):
        lines = body.replace(b"\n", b"").split(b"\r")
        self.term = lines[-1] == b""
        if self.term:
            lines = lines[:-1]
        self.kludges, self.text, self.via = [], [], []
        i = 0
        while i < len(lines) and lines[i].startswith(b"\x01") and \
                not re.match(rb"\x01(Via|Recd)", lines[i]):
            self.kludges.append(lines[i][1:])
            i += 1
        rest = lines[i:]
        j = len(rest)
        while j > 0 and re.match(rb"\x01(Via|Recd)", rest[j - 1]):
            j -= 1
        self.via = [x[1:] for x in rest[j:]]
        self.text = rest[:j]

    def addressing(self):
        """kludges consumed: (INTL dest, INTL src, FMPT, TOPT), the other kludges"""
        intl = [k for k in self.kludges if re.match(rb"(?i)INTL[: ]", k)]
        fm = [k for k in self.kludges if re.match(rb"(?i)FMPT[: ]", k)]
        to = [k for k in self.kludges if re.match(rb"(?i)TOPT[: ]", k)]
        other = [k for k in self.kludges if not re.match(rb"(?i)(INTL|FMPT|TOPT)[: ]", k)]
        return intl, fm, to, other


def addr4(m, pn, pkt):
    """(from, to) as a receiving system reads a packed netmail; None if inconsistent"""
    intl, fm, to, other = pn.addressing()
    err = []
    if len(intl) > 1 or len(fm) > 1 or len(to) > 1:
        err.append("repeated addressing lines %r" % (intl + fm + to,))
    f = Node(pkt.orig.zone, m.onet, m.onode, 0)
    t = Node(pkt.dest.zone, m.dnet, m.dnode, 0)
    if intl:
        mm = re.fullmatch(rb"INTL (\d+):(\d+)/(\d+) (\d+):(\d+)/(\d+)", intl[0])
        if not mm:
            err.append("malformed %r" % intl[0])
        else:
            g = [int(x) for x in mm.groups()]
            t2, f2 = Node(g[0], g[1], g[2], 0), Node(g[3], g[4], g[5], 0)
            if (t2.net, t2.node) != (t.net, t.node) or (f2.net, f2.node) != (f.net, f.node):
                err.append("INTL %r disagrees with header %d/%d -> %d/%d" % (
                    intl[0], f.net, f.node, t.net, t.node))
            t, f = t2, f2
    for l, nm in ((fm, b"FMPT"), (to, b"TOPT")):
        if l:
            mm = re.fullmatch(nm + rb" (\d+)", l[0])
            if not mm:
                err.append("malformed %r" % l[0])
            elif nm == b"FMPT":
                f = f._replace(point=int(mm[1]))
            else:
                t = t._replace(point=int(mm[1]))
    return f, t, err


def gen(rng, porig, pdest, frm, to, cid, now, names=NAMES, quirks=True):
    """a netmail frm -> to travelling in a packet porig -> pdest"""
    m = NM()
    m.porig, m.pdest, m.cid = porig, pdest, cid
    m.frm, m.to, m.subj = rng.choice(names), rng.choice(names), rng.choice(SUBJ)
    m.attr = rng.choice([0, 0, 1, 0x80, 0x100, 0x101, 0x4, 2, 0x200, 0x202, 0x1000, 0x8000, 3])
    m.cost = rng.choice([0, 0, 0, 5, 65535])
    m.date = now - rng.randrange(0, 86400 * 3) * 1
    m.orig, m.dest = frm, to
    m.onode, m.dnode = frm, to
    ks = []
    need = frm.zone != porig.zone or to.zone != pdest.zone
    style = rng.random()
    if need or style < 0.6:
        f3, t3 = frm._replace(point=0).s(), to._replace(point=0).s()
        sep = b"INTL " if style > 0.1 or not quirks else rng.choice([b"INTL: ", b"intl ", b"INTL  "])
        ks.append(sep + t3.encode() + b" " + f3.encode())
        if quirks and rng.random() < 0.15:
            # header names other nodes: INTL decides
            m.onode = Node(0, rng.randrange(1, 9999), rng.randrange(1, 9999), 0)
            if rng.random() < 0.5:
                m.dnode = Node(0, rng.randrange(1, 9999), rng.randrange(1, 9999), 0)
    if frm.point:
        ks.append(b"FMPT %d" % frm.point)
    if to.point:
        ks.append(b"TOPT %d" % to.point)
    rng.shuffle(ks)
    other = []
    if rng.random() < 0.8:
        other.append(b"MSGID: %s %08x" % (frm.s().encode(), rng.randrange(1 << 32)))
    if rng.random() < 0.3:
        other.append(b"REPLY: 2:5030/1 12345678")
    if rng.random() < 0.4:
        other.append(b"PID: GED+W32 1.1.5")
    if rng.random() < 0.3:
        other.append(b"CHRS: CP866 2")
    if rng.random() < 0.1:
        other.append(b"FLAGS DIR KFS")
    if rng.random() < 0.08:
        other.append(rng.choice([b"INTLX: 1", b"FMPTS 3", b"TOPTION: 1", b"TZUTC: 0300", b"Topt_x"]))
    if rng.random() < 0.05:
        other.append(b"X-LONG: " + b"k" * rng.choice([100, 1000, 8000]))
    rng.shuffle(other)
    m.more = list(other)
    for k in ks:
        other.insert(rng.randrange(len(other) + 1), k)
    if not other:
        m.more = [b"PID: x"]
        other = [b"PID: x"]
    m.kludges = other
    m.blank = rng.choice([0, 0, 0, 1, 2, 5])
    m.empty = rng.random() < 0.05
    if m.empty:
        m.text, m.tear, m.origin = [b""] * rng.choice([0, 1, 3]), None, None
        # identified by the MSGID
        m.more = m.more + [b"CID cid=%06d" % cid]
        m.kludges = m.kludges + [b"CID cid=%06d" % cid]
    else:
        m.text = gen_text(rng, "cid=%06d" % cid)
        if m.text[0].startswith(b"AREA:"):
            m.text.insert(0, b"text")      # would make it an echomail message
        if rng.random() < 0.08:
            m.text.insert(0, rng.choice([b"From: joe@example.org", b"To: ann@example.org", b"Sender: x@y",
                                         b"Reply-To: a@b"]))
            m.blank = 0
        if rng.random() < 0.05:
            m.text.insert(0, b"first line")
            m.text.insert(rng.randrange(len(m.text)) + 1, b"\x01X-MID: kludge in the text")
        if rng.random() < 0.03:
            m.text += [b"long text line " * 40] * rng.choice([20, 200])
        m.tear = rng.choice([None, b"--- GoldED+", b"---", b"--- "])
        m.origin = rng.choice([None, None, b" * Origin: x (%s)" % frm.s().encode()])
    m.via = [rng.choice([b"Via 2:5030/%d @20240101.120000.UTC itrack 1.4" % rng.randrange(1, 999),
                         b"Via FIDOGATE/ftntoss 2:5030/1, Mon Jan 01 2024", b"Recd 2:5030/1",
                         b"Via: 2:463/68@fidonet 20240101"]) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
    return m


def lead(lines):
    i = 0
    while i < len(lines) and not lines[i].strip():
        i += 1
    return lines[i:]


def want_text(m):
    t = list(m.text)
    if m.tear is not None:
        t.append(m.tear)
    if m.origin is not None:
        t.append(m.origin)
    return t


# ---------------------------------------------------------------- patterns

W, E = -2, -1


class Pat:
    def __init__(self, z, n, f, p):
        self.t = (z, n, f, p)

    def match(self, a):
        return all(x < 0 or x == y for x, y in zip(self.t, a))

    def apply(self, a):
        return Node(*[y if x == E else x for x, y in zip(self.t, a)])

    def s(self):
        z, n, f, p = ["*" if x == W else x for x in self.t]
        if self.t == (W, W, W, W):
            return "*"
        out = ""
        if z != E:
            out += "%s:" % z
        if n != E:
            out += "%s" % n
            if f != E:
                out += "/"
        if f != E:
            out += "%s" % f
        if p != E:
            out += ".%s" % p
        return out


def pat_of(rng, node, dst=False):
    """a pattern written with at least a zone matching node"""
    z, n, f, p = node
    r = rng.random()
    if dst:
        return Pat(z, n, f, rng.choice([E, p, 0, p]))
    if r < 0.5:
        return Pat(z, n, f, p)
    if r < 0.7:
        return Pat(z, n, f, rng.choice([E, W]))
    if r < 0.85:
        return Pat(z, n, W, rng.choice([E, W, p]))
    if r < 0.95:
        return Pat(z, W, W, W)
    return Pat(W, W, W, W)
