"""Reference model of what the tosser must do with echomail, written from the
documented behaviour (areas.bbs, packet passwords, SEEN-BY/PATH, dupe check),
and generators for the networks, configurations and messages fed to it."""
import re, time, calendar
from collections import Counter, defaultdict
from .pkt import Node, N, Msg, Pkt

MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def fts_date(t):
    g = time.gmtime(t)
    return ("%02d %s %02d  %02d:%02d:%02d" % (g.tm_mday, MON[g.tm_mon - 1], g.tm_year % 100,
                                              g.tm_hour, g.tm_min, g.tm_sec)).encode()


class Area:
    def __init__(self, tag, nodes, passthru=False, zone=None, addr=None, uplinks=1,
                 passive=(), state=None):
        self.tag, self.nodes, self.passthru = tag, list(nodes), passthru
        self.zone, self.addr, self.uplinks = zone, addr, uplinks
        self.passive, self.state = list(passive), state
        self.lvl = self.key = self.desc = None
        self.time = 0

    def ezone(self):
        if self.zone is not None:
            return self.zone
        return self.nodes[0].zone if self.nodes else 0

    def line(self, rng=None):
        o = []
        if self.zone is not None:
            o.append("-z %d" % self.zone)
        if self.addr is not None:
            o.append("-a %s" % self.addr.s())
        if self.lvl is not None:
            o.append("-l %d" % self.lvl)
        if self.key:
            o.append("-k %s" % self.key)
        if self.passive:
            o.append("-p " + ",".join(n.s() for n in self.passive))
        if self.time:
            o.append("-t %d" % self.time)
        if self.desc:
            o.append('-d "%s"' % self.desc)
        if self.state:
            o.append("-s %s" % self.state)
        if self.uplinks != 1:
            o.append("-u %d" % self.uplinks)
        if rng:
            rng.shuffle(o)
        return "%s- %s %s%s" % ("#" if self.passthru else "", self.tag,
                                "".join(x + " " for x in o),
                                " ".join(n.s() for n in self.nodes))


def echo_eq(a, b):
    return a.net == b.net and a.node == b.node and a.point == b.point


def echo_in(n, l):
    return any(echo_eq(n, x) for x in l)


class EMsg:
    """A structured echomail message"""

    def __init__(self):
        self.area = None
        self.kludges = []      # bytes without ^A and CR
        self.msgid = None      # str or None
        self.rfc = []
        self.body = []         # bytes lines
        self.tear = None
        self.origin = None     # bytes, whole line
        self.orig_addr = None  # Node in origin / msgid
        self.seenby = []       # [Node]
        self.path = []
        self.frm = self.to = self.subj = b""
        self.date = 0
        self.attr = 0
        self.uid = ""
        self.seenby_lines = self.path_lines = True   # lines present at all

    def raw_body(self, width=72):
        L = [b"AREA:" + self.area.encode()]
        L += [b"\x01" + k for k in self.kludges]
        L += self.rfc
        L += self.body
        if self.tear is not None:
            L.append(self.tear)
        if self.origin is not None:
            L.append(self.origin)
        if self.seenby_lines:
            L += compress(b"SEEN-BY:", self.seenby, width) or [b"SEEN-BY:"]
        if self.path_lines:
            L += compress(b"\x01PATH:", self.path, width) or [b"\x01PATH:"]
        return b"".join(x + b"\r" for x in L)


def compress(prefix, nodes, width=72, points=True):
    out = []
    cur = prefix
    last = None
    for n in nodes:
        s = None
        if last is None or last.net != n.net:
            s = n.nf()
        elif last.node != n.node:
            s = "%d.%d" % (n.node, n.point) if n.point else "%d" % n.node
        else:
            s = ".%d" % n.point if n.point else n.nf()
        if len(cur) + 1 + len(s) > width and cur != prefix:
            out.append(cur)
            cur = prefix
            s = n.nf()
        cur += b" " + s.encode()
        last = n
    if cur != prefix:
        out.append(cur)
    return out


def expand(lines, prefix):
    """parse SEEN-BY/PATH lines back to [(net,node,point)]; ValueError if bad"""
    out = []
    for l in lines:
        if not l.startswith(prefix):
            raise ValueError(l)
        net = node = None
        for t in l[len(prefix):].decode("latin1").split():
            m = re.fullmatch(r"(?:(?:(\d+)/)?(\d+))?(?:\.(\d+))?", t)
            if not m or not t:
                raise ValueError("token %r in %r" % (t, l))
            if m[1]:
                net = int(m[1])
            if m[2]:
                node = int(m[2])
            if net is None or node is None:
                raise ValueError("token %r in %r" % (t, l))
            out.append((net, node, int(m[3] or 0)))
    return out


class Parsed:
    """Echomail body as found in a packet, split into its parts"""

    def __init__(self, body):
        lines = body.replace(b"\n", b"").split(b"\r")
        self.term = lines[-1] == b""
        if self.term:
            lines = lines[:-1]
        self.area = None
        self.kludges, self.text, self.seenby, self.path, self.via = [], [], [], [], []
        self.order = ""
        head = True
        for l in lines:
            if l.startswith(b"SEEN-BY:"):
                self.seenby.append(l)
                self.order += "S"
                head = False
            elif l.startswith(b"\x01PATH:"):
                self.path.append(l)
                self.order += "P"
                head = False
            elif l.startswith(b"\x01Via"):
                self.via.append(l)
                self.order += "V"
            elif head and l.startswith(b"\x01"):
                self.kludges.append(l[1:])
                self.order += "k"
            elif head and self.area is None and l.startswith(b"AREA:"):
                self.area = l[5:].decode("latin1")
                self.order += "A"
            else:
                head = False
                self.text.append(l)
                self.order += "t"


class Cfg:
    def __init__(self):
        self.addrs = []
        self.areas = []
        self.passwords = {}      # Node -> str
        self.kill = set()        # Unknown Routed Insecure Circular Dupe
        self.dupecheck = True
        self.killnomsgid = False
        self.killold = False
        self.maxhistory = 14
        self.checkpath = True
        self.echo4d = False
        self.noemptypath = False
        self.addother = False
        self.addto = []          # (pattern, [Node])
        self.delseen = []
        self.delpath = []
        self.zonegate = []       # (Node, [Node])
        self.t = self.n = self.p = False
        self.maxopen = None
        self.maxmsg = None

    def conf(self):
        L = []
        for k in sorted(self.kill):
            L.append("Kill%s" % k)
        if self.dupecheck:
            L.append("DupeCheck")
        if self.killnomsgid:
            L.append("KillNoMSGID")
        if self.killold:
            L.append("KillOld")
        L.append("MaxHistory %g" % self.maxhistory)
        if self.checkpath:
            L.append("CheckPath")
        if self.echo4d:
            L.append("TossEchoMail4D")
        if self.noemptypath:
            L.append("NoEmptyPath")
        if self.addother:
            L.append("AddOtherAKAs")
        for a, ns in self.addto:
            L.append("AddToSeenBy %s %s" % (a, " ".join(n.s() for n in ns)))
        if self.delseen:
            L.append("DeleteSeenBy %s" % " ".join(n.s() for n in self.delseen))
        if self.delpath:
            L.append("DeletePath %s" % " ".join(n.s() for n in self.delpath))
        for z, ns in self.zonegate:
            L.append("ZoneGate %s %s" % (z.s(), " ".join(n.s() for n in ns)))
        if self.maxopen:
            L.append("MaxOpenFiles %d" % self.maxopen)
        if self.maxmsg:
            L.append("MaxMsg %d" % self.maxmsg)
        return L

    def args(self):
        a = []
        if self.t:
            a.append("-t")
        if self.n:
            a.append("-n")
        if self.p:
            a.append("-p")
        return a

    def lookup(self, tag):
        for a in self.areas:
            if a.tag.lower() == tag.lower():
                return a
        return None

    def our(self, area):
        """our address used for an area"""
        if area.addr is not None:
            return area.addr
        z = area.ezone()
        for a in self.addrs:
            if a.zone == z:
                return a
        return self.addrs[0]


class Outcome:
    __slots__ = ("kind", "area", "us", "new", "seenby", "path", "why", "msg", "pkt")

    def __init__(self, kind, **kw):
        self.kind = kind
        for k in ("area", "us", "new", "seenby", "path", "why", "msg", "pkt"):
            setattr(self, k, kw.get(k))


class Model:
    def __init__(self, cfg, now):
        self.cfg, self.now = cfg, now
        self.history = set()

    def crckey(self, m):
        return (m.orig_addr, m.date, m.frm + m.to + m.subj)

    def toss(self, m, pk):
        c = self.cfg

        def bad(why, kill=None):
            if kill and kill in c.kill:
                return Outcome("killed", why=why, msg=m, pkt=pk)
            return Outcome("bad", why=why, msg=m, pkt=pk)

        if m.orig_addr is None:
            return bad("noorigin", "Insecure")
        pw = c.passwords.get(pk.orig)
        if pw is not None and pk.pw.decode().lower() != pw.lower():
            return bad("password", "Insecure")
        area = c.lookup(m.area)
        if area is None:
            return bad("unknown", "Unknown")
        us = c.our(area)
        if c.dupecheck:
            if m.msgid is not None:
                key = (area.tag, m.msgid)
            else:
                if c.killnomsgid:
                    return bad("nomsgid", "Dupe")
                if m.origin is None:
                    return bad("noorigin2", "Dupe")
                key = (area.tag, "crc", self.crckey(m))
            if c.killold and m.date < self.now - c.maxhistory * 86400:
                return bad("old", "Dupe")
            if key in self.history:
                return bad("dupe", "Dupe")
            if pk.orig == us or pk.orig in area.nodes:
                self.history.add(key)
        if not c.n and pk.dest != us and pk.dest not in c.addrs:
            return bad("routed", "Routed")
        if not c.t and pk.orig != us and pk.orig not in area.nodes:
            return bad("insecure", "Insecure")

        z = area.addr.zone if area.addr is not None else area.ezone()
        seen = [n._replace(zone=z) for n in m.seenby]
        path = [n._replace(zone=z) for n in m.path]
        if not m.seenby_lines:
            seen = []
        if not m.path_lines:
            path = []
        # a point often knows itself by its boss's address only
        if len(seen) == 1 and boss_eq(seen[0], pk.orig):
            seen = [pk.orig]
        if len(path) == 1 and boss_eq(path[0], pk.orig):
            path = [pk.orig]
        for n in (us, pk.orig, pk.dest):
            if not echo_in(n, seen):
                seen.append(n)
        if not path or not echo_eq(path[-1], pk.orig):
            path.append(pk.orig)
        new = []
        for i, n in enumerate(area.nodes, 1):
            if echo_in(n, seen):
                continue
            if i < area.uplinks or n == pk.orig:
                continue
            if n in area.passive:
                continue
            seen.append(n)
            new.append(n)
        for pat, ns in c.addto:
            if wild(area.tag, pat):
                for n in ns:
                    if not echo_in(n, seen) and n != pk.orig:
                        seen.append(n)
                break
        if c.addother:
            for a in c.addrs:
                if a.zone == z and not echo_in(a, seen):
                    seen.append(a)
        seen = [n for n in seen if n not in c.delseen]
        if not c.p and pk.orig != us and (not area.passthru or us in area.nodes):
            if us not in new:
                new.append(us)
        if not path or not echo_eq(path[-1], us):
            path.append(us)
        path = [n for n in path if n not in c.delpath]
        if c.checkpath and any(echo_in(n, c.addrs) for n in path[:-1]):
            return bad("circular", "Circular")
        st = area.state or ""
        if "W" in st and pk.orig not in area.nodes[:area.uplinks]:
            return bad("waiting", "Circular")
        if st and not any(x in st for x in "UWF") and "P" in st:
            return bad("paused")
        if st and any(x in st for x in "UWF"):
            area.state = "S"
        return Outcome("tossed", area=area, us=us, new=new, seenby=seen, path=path,
                       msg=m, pkt=pk)


def boss_eq(a, frm):
    return a.net == frm.net and a.node == frm.node and a.point in (0, frm.point)


def wild(s, pat):
    rx = "".join(".*" if ch == "*" else "." if ch == "?" else re.escape(ch) for ch in pat)
    return re.fullmatch(rx, s, re.I) is not None


# ----------------------------------------------------------------- generators

TEXTS = [b"Hello, how are you?", b"", b"> quoted text", b"---no tear", b" * Origins are fun",
         b"SEEN BY nobody", b"\xcf\xf0\xe8\xe2\xe5\xf2 \x80\x81\xe0", b"  indented", b"\tTab",
         b"a" * 300, b"From here", b".", b"AREA:NOT.ONE", b"-- ", b"*** bold ***",
         b"~!@#$%^&*()_+|", b"x\x8dy soft cr", b"...", b"SEEN", b"--", b"PATH: none",
         b"----", b"---x", b"\x02\x03 control", b"tail \x02", b"@PATH: 1/2", b" \x01INTL x"]


def gen_text(rng, uid, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 8, 20]) if n is None else n
    L = []
    for i in range(n):
        if rng.random() < 0.6:
            L.append(rng.choice(TEXTS))
        else:
            L.append(bytes(rng.choice(b"abcdefghij klmnop QRSTUV 0123456789 ,.!?\xe0\xe1\xa0\xef")
                           for _ in range(rng.randrange(0, 100))))
    L.insert(rng.randrange(len(L) + 1), b"uid=" + uid.encode())
    return L
