"""Area manager (ftnafpkt): generating requests, a model of the commands, reading the results."""
import re, time, random, string
from .pkt import Node, N, Msg, Pkt
from .spool import Spool
from .tossmodel import fts_date

ADDR = N("2:5030/100")
FILLER = "RANDOM.AREA"


class Area:
    __slots__ = ("tag", "dir", "pt", "ro", "lvl", "key", "zone", "addr", "desc", "state", "en", "et",
                 "up", "nodes", "passive", "time")

    def copy(self):
        a = Area()
        for k in self.__slots__:
            v = getattr(self, k)
            setattr(a, k, list(v) if isinstance(v, list) else v)
        return a

    def show(self):
        return "%s %s pt=%s ro=%s l=%s k=%s z=%s a=%s d=%r s=%s e=%s n=%s u=%s nodes=%s passive=%s" % (
            self.dir, self.tag, self.pt, self.ro, self.lvl, self.key, self.zone, self.addr, self.desc,
            self.state, self.en, self.et, self.up, " ".join(x.s() for x in self.nodes),
            ",".join(x.s() for x in self.passive))

    def fields(self):
        u = self.up
        return (self.tag, self.dir, self.pt, self.ro, self.lvl, self.key, self.zone, self.addr, self.desc,
                self.state, self.en, self.et, self.up, tuple(self.nodes[:u]), tuple(sorted(self.nodes[u:])),
                tuple(sorted(self.passive)))

    def isstate(self, c):
        return self.state is not None and c in self.state


def new_area():
    a = Area()
    a.tag, a.dir, a.pt, a.ro, a.lvl, a.key, a.zone, a.addr = "", "-", False, False, -1, None, -1, None
    a.desc, a.state, a.en, a.et, a.up, a.nodes, a.passive, a.time = None, None, 0, 0, 1, [], [], 0
    return a


def short(nodes, rng=None, sep=" "):
    """FTN list with omitted parts"""
    out, old = [], None
    for n in nodes:
        if old and rng and rng.random() < .7:
            if (n.zone, n.net, n.node) == (old.zone, old.net, old.node) and n.point and rng.random() < .5:
                s = ".%d" % n.point
            elif (n.zone, n.net) == (old.zone, old.net):
                s = "%d" % n.node + (".%d" % n.point if n.point else "")
            elif n.zone == old.zone:
                s = n.nf()
            else:
                s = n.s()
        else:
            s = n.s()
        out.append(s)
        old = n
    return sep.join(out)


def q(s, rng, force=False):
    if force or re.search(r'[ \t"]', s) or not s:
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return s


def line(a, rng):
    o = []
    if a.zone is not None and a.zone != -1 and not (a.nodes and a.nodes[0].zone == a.zone and rng.random() < .5):
        o.append("-z %d" % a.zone)
    if a.addr:
        o.append("-a " + a.addr.s())
    if a.lvl != -1:
        o.append("-l %d" % a.lvl)
    if a.key:
        o.append("-k " + q(a.key, rng))
    if a.ro:
        o.append("-r")
    if a.desc is not None:
        o.append("-d " + q(a.desc, rng, True))
    if a.state:
        o.append("-s " + a.state)
    if a.en:
        o.append("-e %d" % a.en)
    if a.et:
        o.append("-n %d" % a.et)
    if a.up > 1:
        o.append("-u %d" % a.up)
    if a.time:
        o.append("-t %d" % a.time)
    both = [n for n in a.passive if n in a.nodes]
    if both and rng.random() < .7:
        nodes = " ".join(("P" if n in both else "") + s for n, s in zip(a.nodes, short(a.nodes, rng).split()))
    else:
        both, nodes = [], None
    if len(a.passive) > len(both):
        o.append("-p " + short([n for n in a.passive if n not in both], rng, ","))
    pt = a.pt
    d = a.dir
    if pt:
        if rng.random() < .8:
            d = "#" + d
        else:
            o.append("-#")
    rng.shuffle(o)
    sep = rng.choice([" ", " ", "\t", "  "])
    return sep.join([d, a.tag] + o + ([nodes or short(a.nodes, rng)] if a.nodes else []))


def tokens(s):
    """split like the documented format: blanks separate, "..." quotes, \\" inside quotes"""
    out, i = [], 0
    while i < len(s):
        if s[i] in " \t\r\n":
            i += 1
            continue
        if s[i] == '"':
            i += 1
            t = ""
            while i < len(s) and s[i] != '"':
                if s[i] == "\\" and i + 1 < len(s):
                    if s[i + 1] == '"' or s[i + 1] == "\\":
                        i += 1
                t += s[i]
                i += 1
            i += 1
            out.append(t)
            continue
        t = ""
        while i < len(s) and s[i] not in " \t\r\n":
            t += s[i]
            i += 1
        out.append(t)
    return out


def expand(tok, old):
    m = re.fullmatch(r"(?:(\d+):)?(?:(\d+)/)?(\d+)?(?:\.(\d+))?", tok)
    if not m or not tok:
        return None
    z, n, f, p = m.groups()
    if f is None:
        if p is None or old is None or z or n:
            return None
        return old._replace(point=int(p))
    if z is not None and n is None:
        return None
    return Node(int(z) if z else (old.zone if old else 2), int(n) if n else (old.net if old else -1),
                int(f), int(p or 0))


def parse_line(s):
    t = tokens(s)
    if len(t) < 2:
        return None
    a = new_area()
    if t[0].startswith("#"):
        a.pt = True
        t[0] = t[0][1:]
    a.dir, a.tag = t[0], t[1]
    i = 2
    while i < len(t) and t[i].startswith("-"):
        o = t[i]
        if o == "-#":
            a.pt = True
        elif o == "-r":
            a.ro = True
        elif len(o) == 2 and o[1] in "azlkdspteun" and i + 1 < len(t):
            i += 1
            v = t[i]
            if o == "-a":
                a.addr = N(v)
            elif o == "-z":
                a.zone = int(v)
            elif o == "-l":
                a.lvl = int(v)
            elif o == "-k":
                a.key = v
            elif o == "-d":
                a.desc = v
            elif o == "-s":
                a.state = v
            elif o == "-t":
                a.time = int(v)
            elif o == "-e":
                a.en = int(v)
            elif o == "-n":
                a.et = int(v)
            elif o == "-u":
                a.up = int(v)
            elif o == "-p":
                old = None
                for x in v.split(","):
                    old = expand(x, old)
                    if old is None:
                        raise ValueError("bad passive list %r" % v)
                    a.passive.append(old)
        else:
            raise ValueError("bad option %r in %r" % (o, s))
        i += 1
    old = None
    for x in t[i:]:
        p = x.startswith("P")
        old = expand(x[p:], old)
        if old is None:
            raise ValueError("bad node %r in %r" % (x, s))
        a.nodes.append(old)
        if p:
            a.passive.append(old)
    if a.zone == -1:
        a.zone = a.nodes[0].zone if a.nodes else 0
    return a


def parse_file(data):
    L = data.decode("latin1").split("\n")
    if L and L[-1] == "":
        L.pop()
    out = []
    for s in L[1:]:
        a = parse_line(s)
        if a:
            out.append(a)
    return (L[0] if L else None), out


def wm(pat, s):
    """shell wildcards ? * [..], no case"""
    r, i = "", 0
    pat, s = pat.upper(), s.upper()
    while i < len(pat):
        c = pat[i]
        if c == "*":
            r += ".*"
        elif c == "?":
            r += "."
        elif c == "[" and "]" in pat[i + 2:]:
            j = pat.index("]", i + 2)
            x = pat[i + 1:j]
            r += "[" + ("^" + re.escape(x[1:]).replace(r"\-", "-") if x[0] == "^" else re.escape(x).replace(r"\-", "-")) + "]"
            i = j
        else:
            r += re.escape(c)
        i += 1
    return re.fullmatch(r, s, re.S) is not None


class Link:
    """a passwd entry"""
    __slots__ = ("node", "pw", "lvl", "key", "lg", "la", "rest")


class Model:
    def __init__(self, areas, links, uplinks, first, mode="af"):
        self.areas = [a.copy() for a in areas]
        self.links = links              # [Link]
        self.uplinks = uplinks          # [(tags, node, robot, password, options)]
        self.first = first
        self.mode = mode
        self.changed = False
        self.req = []                   # uplink requests (uplink node, robot, pw, "+TAG")
        self.touched = {}               # tag -> time may be now
        self.stats = {}
        self.ever = set()
        self.forb = []                  # names no area may be created with
        self.fchars = ""                # characters no area may be created with
        self.subnodes = []              # members of every created area
        self.prlkey = False             # requesters can't choose passthru, read-only, level
        self.onlyplus = False           # a bare name is no command
        self.availall = self.listf = False
        self.availfile = False
        self.created = []               # (tag, node, requester or <null>)

    def seen(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def link(self, node):
        for l in self.links:
            if l.node == node:
                return l
        return None

    def auth(self, node, pw):
        self.node = node
        self.lvl, self.key, self.lg, self.la = 1, "", 0, 0
        self.ok = False
        l = self.link(node)
        if l and pw is not None and pw.lower() == l.pw.lower():
            self.ok = True
        if l:
            if l.lvl is not None:
                self.lvl = l.lvl
            if l.key is not None:
                self.key = l.key
            self.lg, self.la = l.lg, l.la

    def keyok(self, a):
        return not a.key or all(c in self.key for c in a.key)

    def upl(self, node):
        for u in self.uplinks:
            if u[1] == node:
                return u
        return None

    def linked(self, a, n):
        return n in a.nodes or n in a.passive

    def chstate(self, a, frm, to):
        st = a.state or ""
        if to not in st:
            st = "".join(c for c in st if c not in frm) + to
        a.state = st

    def remove(self, a):
        self.areas.remove(a)
        self.changed = True
        self.seen("areas_removed")

    def look(self, tag):
        for a in self.areas:
            if a.tag.upper() == tag.upper():
                return a
        return None

    def active(self, pat):
        n = self.node
        for a in self.areas:
            if pat and not wm(pat, a.tag):
                continue
            if n in a.passive:
                if n in a.nodes:
                    a.passive.remove(n)
                else:
                    if len(a.nodes) == 1:
                        u = self.upl(a.nodes[0])
                        if u:
                            self.req.append((u[1], u[2], u[3], "+" + a.tag.upper()))
                            if a.isstate("P") or a.isstate("U"):
                                self.chstate(a, "UP", "W")
                    a.passive.remove(n)
                    a.nodes.append(n)
                self.changed = True
                self.seen("activated")

    def passive_cmd(self, pat):
        n = self.node
        for a in self.areas:
            if pat and not wm(pat, a.tag):
                continue
            if n in a.nodes and len(a.nodes) > 1 and n not in a.passive:
                if len(a.nodes) <= 2:
                    u = self.upl(a.nodes[0])
                    if u:
                        self.req.append((u[1], u[2], u[3], "-" + a.tag.upper()))
                        self.touched[a.tag] = 1
                        if a.state and any(c in a.state for c in "WFS"):
                            self.chstate(a, "WFS", "P")
                a.nodes.remove(n)
                a.passive.append(n)
                self.changed = True
                self.seen("made_passive")

    def sub1(self, a, fwd_inner):
        """one area of a subscribe command; False: refused"""
        n = self.node
        if a.lvl > self.lvl or not self.keyok(a):
            self.seen("denied_level_or_key")
            return False
        if n in a.passive:
            self.active(a.tag)
            return True
        if n in a.nodes:
            return True
        cnt = sum(1 for x in self.areas if self.linked(x, n) and (len(x.nodes) > 1 or n not in x.nodes))
        if self.lg > 0 and self.lg <= cnt:
            self.seen("denied_limit")
            return False
        if self.la > 0:
            c = sum(1 for x in self.areas if x.nodes and a.nodes and self.linked(x, n) and
                    (len(x.nodes) > 1 or n not in x.nodes) and a.nodes[0] in x.nodes)
            if self.la <= c:
                self.seen("denied_limit")
                return False
        if self.mode == "af" and a.zone != n.zone:
            if not a.zone:
                self.remove(a)
                return True
            if a.zone > 6 or n.zone > 6:
                self.seen("denied_zone")
                return False
        if not a.nodes:
            self.remove(a)
            return True
        a.nodes.append(n)
        self.changed = True
        self.seen("subscribed")
        if a.isstate("U") or a.isstate("P"):
            u = self.upl(a.nodes[0])
            if u:
                self.req.append((u[1], u[2], u[3], "+" + a.tag.upper()))
                self.chstate(a, "UP", "W")
                self.touched[a.tag] = 1
                self.seen("resubscribed_at_uplink")
            elif fwd_inner:
                return False
        return True

    def sub(self, pat):
        wild = "*" in pat or "?" in pat
        hit = 0
        for a in list(self.areas):
            if wm(pat, a.tag):
                if a not in self.areas:
                    continue
                hit += 1
                self.sub1(a, False)
                if not wild:
                    break
        if "&" not in self.key:
            return
        if not (wild or hit == 0):
            return
        c = []
        for tags, node, robot, pw, opt in self.uplinks:
            skip = False
            for t in tags:
                if t.startswith("!"):
                    if not wild and wm(t[1:], pat):
                        break
                    continue
                if wm(pat, t) if wild else t.upper() == pat.upper():
                    c.append((t, node, robot, pw, opt))
                    if not wild:
                        skip = True
                        break
            if skip:
                break
        for t, node, robot, pw, opt in c:
            if self.look(t):
                continue
            a = self.create(t, node, opt, internal=True)
            if not a:
                continue
            self.chstate(a, "S", "F")
            ok = self.sub1(a, True)
            if not ok:
                self.areas.remove(a)
                self.changed = True
                self.seen("forward_refused")
                continue
            self.req.append((node, robot, pw, "+" + t.upper()))
            self.seen("forwarded")

    def create(self, tag, node, opt, internal):
        if self.mode == "ff" and ("/" in tag or tag.startswith(".")) or any(c in tag for c in self.fchars) or any(wm(p, tag) for p in self.forb):
            self.seen("creation_forbidden")
            return None
        a = new_area()
        a.tag = tag.upper()
        a.zone = node.zone
        for k, v in opt:
            if not internal and self.prlkey and k in ("-#", "-r", "-l"):
                continue
            if k == "-#":
                a.pt = True
            elif k == "-r":
                a.ro = True
            elif k == "-l":
                a.lvl = int(v)
            elif k == "-k":
                a.key = v
            elif k == "-z":
                a.zone = int(v)
            elif k == "-d":
                a.desc = v
        if self.mode == "ff":
            a.dir = "-" if a.pt else self.autodir + "/" + tag.lower()
        a.state = "S"
        a.nodes = [node] + [n for n in self.subnodes if n != node]
        self.areas.append(a)
        self.created.append((a.tag, node, self.node if internal else None))
        self.touched[a.tag] = 1
        self.changed = True
        self.seen("areas_created")
        return a

    def unsub(self, pat):
        n = self.node
        for a in list(self.areas):
            if not wm(pat, a.tag):
                continue
            if not a.nodes:
                self.remove(a)
                continue
            if not self.linked(a, n):
                continue
            if n in a.nodes:
                a.nodes.remove(n)
            if n in a.passive:
                a.passive.remove(n)
            self.changed = True
            self.seen("unsubscribed")
            if a.pt and len(a.nodes) == 1:
                u = self.upl(a.nodes[0])
                if u:
                    self.chstate(a, "SWF", "U")
                    self.req.append((u[1], u[2], u[3], "-" + a.tag.upper()))
                    self.seen("unsubscribed_at_uplink")
                else:
                    self.remove(a)
            elif a.pt and not a.nodes:
                self.remove(a)

    def mark(self, a):
        n = self.node
        return ("P" if n in a.passive else "*") if self.linked(a, n) else " "

    def list_entries(self, kind):
        n = self.node
        out = []
        for a in self.areas:
            if kind == "listall":
                out.append((self.mark(a), a.tag, a.zone))
                continue
            if kind == "query":
                if self.linked(a, n):
                    out.append(("P" if n in a.passive else " ", a.tag))
                continue
            if kind == "unlinked":
                if a.lvl > self.lvl or not self.keyok(a) or (self.mode == "af" and a.zone != n.zone) or self.linked(a, n):
                    continue
                out.append((" ", a.tag))
                continue
            if not self.linked(a, n):
                if a.lvl > self.lvl or not self.keyok(a):
                    continue
                if a.zone != n.zone and (a.zone > 6 or n.zone > 6):
                    continue
                if a.state is None or "U" in a.state:
                    continue
                if kind == "list" and ("W" in a.state or "F" in a.state and not self.listf):
                    continue
                if kind == "avail" and not self.availall and any(c in a.state for c in "WF"):
                    continue
            out.append((self.mark(a), a.tag))
        return out

    def do(self, cmd):
        """apply one command line; the list it sends, if any: (kind, node, entries)"""
        s = cmd.strip()
        if not s:
            return None
        pct = s.startswith("%")
        if pct:
            s = s[1:]
        kind, arg = None, ""
        if s[:1] in "+-&~" and s:
            kind = {"+": "sub", "-": "unsub", "&": "new", "~": "delete"}[s[0]]
            arg = s[1:].strip()
        else:
            w = re.match(r"[^ \t]*", s).group(0)
            arg = s[len(w):].strip()
            kind = {"subscribe": "sub", "sub": "sub", "unsubscribe": "unsub", "unsub": "unsub", "new": "new",
                    "create": "new", "delete": "delete", "passive": "passive", "pause": "passive",
                    "active": "active", "resume": "active", "list": "list", "avail": "avail",
                    "query": "query", "unlinked": "unlinked", "listall": "listall", "help": "help",
                    "passwd": "passwd", "password": "passwd", "from": "passwd"}.get(w.lower())
            if kind is None:
                if pct or self.onlyplus:
                    return None
                kind, arg = "sub", s
        if kind == "help":
            return None
        if kind == "passwd":
            f = arg.split()
            self.ok = False
            if len(f) >= 1:
                try:
                    n = N(f[0])
                except ValueError:
                    return None
                if len(f) >= 2:
                    old = self.node
                    self.auth(n, f[1])
                    if not self.ok:
                        self.node = old
                        self.lvl, self.key, self.lg, self.la = 1, "", 0, 0
                        self.seen("passwd_refused")
                    else:
                        self.seen("passwd_accepted")
            return None
        if not self.ok:
            self.seen("refused_unauthorised")
            return None
        if kind in ("list", "avail", "query", "unlinked", "listall"):
            if kind == "listall" and "%" not in self.key:
                self.seen("listall_refused")
                return None
            self.seen("lists")
            if kind == "avail" and self.availfile:
                return kind, self.node, []
            return kind, self.node, self.list_entries(kind)
        if kind == "sub":
            self.sub(arg)
        elif kind == "unsub":
            self.unsub(arg)
        elif kind == "passive":
            self.passive_cmd(arg)
        elif kind == "active":
            self.active(arg)
        elif kind == "delete":
            if "~" in self.key:
                for a in list(self.areas):
                    if wm(arg, a.tag):
                        self.remove(a)
            else:
                self.seen("delete_refused")
        elif kind == "new":
            if "$" not in self.key:
                self.seen("new_refused")
                return None
            f = tokens(arg)
            if not f or self.look(f[0]):
                return None
            opt, i = [], 1
            while i < len(f):
                if f[i] in ("-#", "-r"):
                    opt.append((f[i], None))
                elif f[i] in ("-l", "-k", "-z", "-d") and i + 1 < len(f):
                    opt.append((f[i], f[i + 1]))
                    i += 1
                i += 1
            self.create(f[0], self.node, opt, False)
        return None

    def request(self, node, subject, lines):
        """-> (final node, [(kind, node, entries)])"""
        f = subject.split()
        self.auth(node, f[0] if f else None)
        lists = []
        opts = [x.lower() for x in f[1:]]
        for o, kind in (("-q", "query"), ("-l", "list")):
            if o in opts and self.ok:
                lists.append((kind, self.node, self.list_entries(kind)))
        for l in lines:
            if l.startswith(" * "):
                continue
            if l.strip().startswith("--") and l.startswith("--"):
                break
            r = self.do(l)
            if r:
                lists.append(r)
        return self.node, lists


HEADS = [("list", re.compile(r"Areas available to (\S+):$")), ("query", re.compile(r"(\S+) is linked to the following areas:$")),
         ("unlinked", re.compile(r"(\S+) is not linked to the following available areas:$")),
         ("listall", re.compile(r"ALL available areas:()$"))]


def reply_lists(lines):
    """[(kind, [(mark, tag)..])] found in an answer; kind avail is told by its second line"""
    out, cur, i = [], None, 0
    lines = [l for l in lines if l.strip() and not l.startswith("--- ")]
    while i < len(lines):
        s = lines[i]
        for k, r in HEADS:
            m = r.match(s)
            if m:
                if k == "list" and not (i + 1 < len(lines) and "(currently subscribed" in lines[i + 1]):
                    k = "avail"
                cur = (k, [])
                out.append(cur)
                i += 1
                if k in ("list", "avail") and i < len(lines) and lines[i].startswith("("):
                    i += 1
                i -= 1
                break
        else:
            if cur is not None:
                m = re.match(r"([ *P]) (?:Z(\d+) +)?(\S+)(?: *: .*)?$", s) if cur[0] == "listall" else \
                    re.match(r"([ *P]) (\S+)(?: *: .*)?$", s)
                if m and not s.startswith("* = ") and not s.startswith("P = "):
                    cur[1].append((m[1], m[3], int(m[2])) if cur[0] == "listall" else (m[1], m[2]))
                elif s.startswith("* = ") or s.startswith("P = ") or s.startswith("Areas from uplink"):
                    cur = None
        i += 1
    return out
