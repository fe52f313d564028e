"""Small deterministic workloads of every message moving program, with an
accounting of where each message is: every message carries an id, and for
each id the set of places (destinations) it has to reach is known.

A Flow has: .fill(n) put n input packets; .cmd() (program, args, stdin);
.where() -> (Counter{(id, place)} finished outputs, set(ids in the input),
set(ids in quarantine), [problems of finished files])"""
import os, re, struct, time
from collections import Counter
from .spool import Spool
from .pkt import N, Node, Msg, Pkt, parse, PktError
from .tossmodel import fts_date
from . import packrun as P

ID = re.compile(rb"ID:(\w+);")
US = N("2:5030/100")
LINKS = [N("2:5030/%d" % i) for i in (1, 2, 3)]


def ids(data):
    return [x.decode() for x in ID.findall(data)]


class Flow:
    prog = None
    indir = None
    mail_lock = None        # lock of -l

    def __init__(self, case, rng, big=False, conf=()):
        self.case, self.rng = case, rng
        self.n = 0
        self.need = {}      # id -> set of places
        self.big = big
        self.now = int(time.time())
        self.sp = Spool(case, addrs=[US.s()], uplink="2:5030/0", conf=self.conf() + list(conf))
        self.setup(self.sp)
        self.sp.write_conf()

    def conf(self):
        return []

    def setup(self, sp):
        pass

    def pad(self):
        r = self.rng
        k = r.choice([0, 1, 3, 30, 200 if self.big else 20])
        return b"".join(b"line %d of the text\r" % i for i in range(k))

    def newid(self):
        self.n += 1
        return "%s%05d" % (type(self).__name__[0], self.n)

    def netmail(self, to, frm=LINKS[0]):
        i = self.newid()
        b = b"\1INTL %s %s\r\1MSGID: %s %08x\rID:%s;\r%s" % (
            to._replace(point=0).s().encode(), frm.s().encode(), frm.s().encode(), self.rng.getrandbits(32), i.encode(), self.pad())
        return i, Msg(b"Sysop", b"Op", b"mail", b, frm, to, 1, 0, fts_date(self.now))

    def echomail(self, area, frm=LINKS[0]):
        i = self.newid()
        b = b"AREA:%s\r\1MSGID: %s %08x\rID:%s;\r%s--- x\r * Origin: o (%s)\rSEEN-BY: 5030/%d\r\1PATH: 5030/%d\r" % (
            area.encode(), frm.s().encode(), self.rng.getrandbits(32), i.encode(), self.pad(), frm.s().encode(), frm.node, frm.node)
        return i, Msg(b"Sysop", b"All", b"echo", b, frm, US, 0, 0, fts_date(self.now))

    def put(self, rel, orig, dest, ms):
        self.seq = getattr(self, "seq", 0) + 1
        self.sp.put(rel, Pkt(orig, dest, ms).raw(), self.now - 5000 + self.seq)

    def sample_packets(self, rel, pat="*.pkt"):
        """[(relative path, Pkt or None, ids)]"""
        out = []
        for p in self.sp.ls(rel, pat):
            with open(p, "rb") as f:
                d = f.read()
            try:
                out.append((os.path.relpath(p, self.sp.d), parse(d), d))
            except PktError as e:
                out.append((os.path.relpath(p, self.sp.d), str(e), d))
        return out

    def pktout(self, rel, bad, done, pat="*.pkt"):
        for p, k, d in self.sample_packets(rel, pat):
            if isinstance(k, str):
                bad.append("%s: %s" % (p, k))
                continue
            for m in k.msgs:
                x = ids(m.body)
                if len(x) != 1 or not m.body.endswith((b"\r", b"\r\n")):
                    bad.append("%s: message with ids %s, end %r" % (p, x, m.body[-20:]))
                for i in x:
                    done[i, k.dest.s()] += 1

    def inputs(self):
        q = set()
        for p in self.sp.ls(self.indir, "*.pkt"):
            q |= set(ids(open(p, "rb").read()))
        return q

    def quar(self):
        q = set()
        for d in {self.indir, "spool/toss/bad"}:
            for p in self.sp.ls(d, "*.bad") + (self.sp.ls(d, "*.pkt") if d.endswith("toss/bad") else []):
                q |= set(ids(open(p, "rb").read()))
        return q

    def where(self):
        done, bad = Counter(), []
        self.outputs(done, bad)
        return done, self.inputs(), self.quar(), bad

    def lost(self, w=None):
        """[(id, place)] neither delivered nor waiting nor put aside"""
        done, inp, q, bad = w or self.where()
        return [(i, p) for i in sorted(self.need) for p in sorted(self.need[i])
                if (i, p) not in done and i not in inp and i not in q]

    def open_(self, w=None):
        """what is not delivered yet"""
        done, inp, q, bad = w or self.where()
        return [(i, p) for i in sorted(self.need) for p in sorted(self.need[i]) if (i, p) not in done]

    def extra(self, w=None):
        """delivered more than once or to places never asked for"""
        done, inp, q, bad = w or self.where()
        return [(k, v) for k, v in sorted(done.items()) if v > 1 or k[1] not in self.need.get(k[0], ())]

    def locks(self):
        return {k: v for k, v in self.sp.tree("lock").items()}


class Toss(Flow):
    prog, indir, mail_lock = "toss/ftntoss", "bt/pin", "ftntoss"
    AREAS = {"ALPHA": LINKS, "BETA": LINKS[:2], "GAMMA": [LINKS[0], LINKS[2]]}

    def conf(self):
        return ["DupeCheck"] + (["KillDupe"] if self.rng.random() < .5 else []) + \
            (["MaxOpenFiles 2"] if self.rng.random() < .3 else [])

    def setup(self, sp):
        sp.put("etc/areas.bbs", "# areas\n" + "".join("#- %s %s\n" % (a, " ".join(x.s() for x in l))
                                                      for a, l in self.AREAS.items()))
        self.bbs = sp.get("etc/areas.bbs")

    def fill(self, n):
        r = self.rng
        for _ in range(n):
            frm = r.choice(LINKS)
            ms = []
            for _ in range(r.choice([1, 2, 4])):
                if r.random() < .4:
                    to = r.choice([x for x in LINKS if x != frm])
                    i, m = self.netmail(to, frm)
                    self.need[i] = {to.s()}
                else:
                    a = r.choice([a for a, l in sorted(self.AREAS.items()) if frm in l])
                    i, m = self.echomail(a, frm)
                    self.need[i] = {x.s() for x in self.AREAS[a] if x != frm}
                ms.append(m)
            self.put("bt/pin/%08x.pkt" % r.getrandbits(32), frm, US, ms)

    def cmd(self, lock=True):
        return self.prog, (["-l", "-w", "100000"] if lock else []) + [], None

    def outputs(self, done, bad):
        self.pktout("spool/toss/toss", bad, done)


class Route(Flow):
    prog, indir, mail_lock = "toss/ftnroute", "spool/toss/toss", "ftnroute"

    def setup(self, sp):
        sp.put("etc/routing", "netmail\nroute normal 2:5030/1\nroute hold 2:5030/2 2:5030/3\n"
               "echomail\nroute normal 2:5030/1\nroute normal 2:5030/2\nroute crash 2:5030/3\n")

    def fill(self, n):
        r = self.rng
        for _ in range(n):
            to = r.choice(LINKS)
            typ = r.choice("ne")
            ms = []
            for _ in range(r.choice([1, 2, 4])):
                i, m = self.netmail(to) if typ == "n" else self.echomail("ALPHA")
                self.need[i] = {to.s() if typ == "e" or to.node != 3 else "2:5030/2"}
                ms.append(m)
            self.seqno = getattr(self, "seqno", 0xfff00) + 1    # names of the tosser
            self.put("spool/toss/toss/m%sn%05x.pkt" % (typ, self.seqno), US, to, ms)

    def cmd(self, lock=True):
        return self.prog, ["-l"] if lock else [], None

    def outputs(self, done, bad):
        self.pktout("spool/toss/route", bad, done)


class Pack(Flow):
    prog, indir, mail_lock = "toss/ftnpack", "spool/toss/route", "ftnpack"
    DIR = {"2:5030/1": "noarc", "2:5030/2": "zip", "2:5030/3": "dir"}

    def setup(self, sp):
        sp.put("bin/arc.sh", P.ARC % dict(d=sp.d, fail="NEVERMATCH"))
        os.makedirs(sp.p("dir0"), exist_ok=True)
        os.makedirs(sp.p("sink"), exist_ok=True)
        sp.put("etc/packing", 'arc zip "sh %s %%s %%s"\narc noarc ""\n' % sp.p("bin/arc.sh") + "".join(
            "%s\npack noarc 2:5030/1\npack zip 2:5030/2\ndirmove %s 2:5030/3\n" % (t, sp.p("dir0"))
            for t in ("netmail", "echomail")))

    def fill(self, n):
        r = self.rng
        for _ in range(n):
            to = r.choice(LINKS)
            typ = r.choice("ne")
            ms = []
            for _ in range(r.choice([1, 2, 4])):
                i, m = self.netmail(to) if typ == "n" else self.echomail("ALPHA")
                self.need[i] = {to.s()}
                ms.append(m)
            self.seqno = getattr(self, "seqno", 0xfff00) + 1
            self.put("spool/toss/route/m%sn%05x.pkt" % (typ, self.seqno), US, to, ms)

    def cmd(self, lock=True):
        return self.prog, ["-l"] if lock else [], None

    def outputs(self, done, bad):
        self.pktout("bt/out", bad, done, "*.?ut")
        self.pktout("dir0", bad, done)
        listed = set()
        for f in self.sp.ls("bt/out", "*.?lo"):
            for l in open(f, "rb").read().decode("latin1").splitlines():
                if not l.startswith("~"):
                    listed.add(l.lstrip("#^"))
        for f in self.sp.ls("bt/out", "*.[smtwf][uoehra][0-9a-z]"):
            if f.endswith(("out", ".flo", ".bsy")):
                continue
            try:
                ms = P.members(open(f, "rb").read())
            except Exception as e:
                bad.append("%s: %s" % (f, e))
                continue
            got = Counter()
            for name, data in ms:
                try:
                    k = parse(data)
                except PktError as e:
                    bad.append("%s member %s: %s" % (f, name, e))
                    continue
                for m in k.msgs:
                    for i in ids(m.body):
                        got[i, k.dest.s()] += 1
            if f in listed:
                done.update(got)
            else:
                self.unlisted = getattr(self, "unlisted", {})
                self.unlisted[f] = got


class Gate(Flow):
    prog, indir, mail_lock = "gate/ftn2rfc", "bt/pin", "ftn2rfc"

    def setup(self, sp):
        sp.put("etc/acl", "Netmail\n* *\nEchoMail\n* *\n")
        sp.put("etc/areas", "ALPHA fido.alpha -a 2:5030/100\nBETA fido.beta -a 2:5030/100\n")
        for r in ("unknown", "local", "malformed"):
            sp.put("etc/bounce." + r, "bounce %s\n" % r)

    def fill(self, n):
        r = self.rng
        for _ in range(n):
            ms = []
            for _ in range(r.choice([1, 2, 4])):
                if r.random() < .5:
                    i, m = self.netmail(US)
                    m.to = b"john"
                    self.need[i] = {"mail"}
                else:
                    i, m = self.echomail(r.choice(["ALPHA", "BETA"]))
                    self.need[i] = {"news"}
                ms.append(m)
            self.put("bt/pin/%08x.pkt" % r.getrandbits(32), LINKS[0], US, ms)

    def cmd(self, lock=True):
        return self.prog, ["-i"] + (["-l"] if lock else []), None

    def outputs(self, done, bad):
        for k in ("mail", "news"):
            for p in self.sp.ls("spool/outrfc/" + k, "*.rfc"):
                d = open(p, "rb").read()
                n = os.path.relpath(p, self.sp.d)
                if k == "news":
                    arts, i = [], 0
                    while i < len(d):
                        m = re.compile(rb"#! rnews (\d+)\n").match(d, i)
                        if not m or m.end() + int(m[1]) > len(d):
                            bad.append("%s: batch broken at %d" % (n, i))
                            break
                        arts.append(d[m.end():m.end() + int(m[1])])
                        i = m.end() + int(m[1])
                else:
                    arts = [d]
                for a in arts:
                    x = ids(a)
                    if len(x) != 1 or not a.endswith(b"\n") or b"\n\n" not in a:
                        bad.append("%s: article with ids %s, end %r" % (n, x, a[-20:]))
                    for i in x:
                        done[i, k] += 1


class OutGate(Flow):
    """rfc2ftn reading one message on standard input"""
    prog, indir = "gate/rfc2ftn", "nowhere"

    def setup(self, sp):
        sp.put("etc/acl", "Netmail\n* *\nEchoMail\n* *\n")
        sp.put("etc/areas", "ALPHA fido.alpha -a 2:5030/100\nBETA fido.beta -a 2:5030/100\n")
        self.queue = []

    def fill(self, n):
        r = self.rng
        for _ in range(n):
            i = self.newid()
            news = r.random() < .4
            body = b"ID:%s;\n%s" % (i.encode(), self.pad().replace(b"\r", b"\n"))
            h = b"From: John Doe <john@gate.example.org>\nDate: Sat, 20 Jan 2024 12:00:00 +0000\nSubject: test\n"
            if news:
                h += b"Newsgroups: fido.alpha\nMessage-ID: <%s@gate.example.org>\n" % i.encode()
                a = ["-b", "-n"]
                body = h + b"\n" + body
                body = b"#! rnews %d\n" % len(body) + body
                self.need[i] = {"2:5030/0"}
            else:
                to = r.choice(LINKS)
                h += b"To: sysop@f%d.n5030.z2.fidonet.org\n" % to.node
                a = ["-t"] if r.random() < .5 else ["sysop@f%d.n5030.z2.fidonet.org" % to.node]
                body = h + b"\n" + body
                self.need[i] = {"2:5030/0"}
            self.queue.append((a, body))

    def cmd(self, lock=True):
        a, b = self.queue.pop(0)
        return self.prog, a, b

    def inputs(self):
        return set()

    def quar(self):
        return set()

    def outputs(self, done, bad):
        for d in ("spool/outpkt", "spool/outpkt/mail", "spool/outpkt/news"):
            self.pktout(d, bad, done)


FLOWS = {"toss": Toss, "route": Route, "pack": Pack, "gate": Gate}
