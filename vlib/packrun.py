"""Scenarios for the packer: generate, run, compare with an independent model
of the packing file and the Binkley outbound."""
import os, re, time, struct
from collections import defaultdict, Counter
from .pkt import Node, Msg, Pkt, parse, PktError
from .spool import Spool
from .harness import UID, chown_tree
from .tossmodel import fts_date, gen_text
from .tossrun import netgen, short
from . import netm
from .netm import Pat

W, E = -2, -1
OUTEXT = {"h": "hut", "n": "out", "d": "dut", "c": "cut"}
FLOEXT = {"h": "hlo", "n": "flo", "d": "dlo", "c": "clo"}
ORDER = "hndc"
CH = "0123456789abcdefghijklmnopqrstuvwxyz"
WK = ["mo", "tu", "we", "th", "fr", "sa", "su"]

ARC = r'''#!/bin/sh
# archiver: appends one framed member; notes which busy files exist
d=%(d)s
{ echo "ARC $1 $2 $PPID"; find $d/bt -name '*.bsy' -exec sh -c 'echo "BSY $1 $(cat $1)"' x {} \; ; echo END; } >>$d/events
case "$1" in *%(fail)s*) exit 3;; esac
[ -r "$2" ] || exit 4
{ if [ -f "$1" ]; then cat "$1"; fi && printf 'MEMBER %%s %%s\n' "$(basename $2)" "$(stat -c %%s $2)" && cat "$2"; } >"$1.new" || { rm -f "$1.new"; exit 5; }
mv -f "$1.new" "$1" || exit 5
'''
PROG = r'''#!/bin/sh
d=%(d)s
{ echo "PROG $1 $PPID"; echo END; } >>$d/events
cp "$1" $d/sink/
'''


def members(data):
    """[(name, bytes)] of an archive written by ARC (after its old content)"""
    out, off = [], 0
    while off < len(data):
        e = data.index(b"\n", off)
        w = data[off:e].split()
        if w[0] != b"MEMBER":
            raise ValueError(data[off:off + 40])
        n = int(w[2])
        out.append((w[1].decode(), data[e + 1:e + 1 + n]))
        if len(out[-1][1]) != n:
            raise ValueError("short member")
        off = e + 1 + n
    return out


class Rule:
    pass


class Scen:
    def __init__(self, case, rng):
        self.case = case
        addrs, pool = netgen(rng, {})
        self.addrs = addrs
        self.aso = rng.random() < 0.25
        self.ends = ends = pool[:rng.choice([2, 3, 5, 8])]
        conf = []
        if self.aso:
            conf.append("AmigaStyleOutbound")
        self.disp = rng.choice([None, 0, 1, 2])
        if self.disp is not None:
            conf.append("BundleDisp %d" % self.disp)
        self.maxarc = 0
        self.fa = rng.choice([None, "dir", "dir", "/"])
        self.iga = rng.choice([None, None, None, 1, 2])
        if self.iga is not None:
            conf.append("IgnoreFileAttach %d" % self.iga)
        if rng.random() < 0.3:
            self.maxarc = rng.choice([1, 2, 5]) * 1024
            conf.append("MaxArc %d" % (self.maxarc // 1024))
        if rng.random() < 0.15:
            conf.append("MaxOpenFiles 2")
        self.pwd = {n: rng.choice(["SECRET", "x", "Pass1234"]) for n in ends if rng.random() < 0.3}
        self.sp = sp = Spool(case, addrs=[a.s() for a in addrs], uplink=pool[0].s(), conf=conf)
        os.makedirs(sp.p("sink"), exist_ok=True)
        for i in range(3):
            os.makedirs(sp.p("dir%d" % i), exist_ok=True)
        sp.put("etc/passwd", "".join("packet %s %s\n" % (n.s(), p) for n, p in sorted(self.pwd.items())))
        self.failkey = "NEVERMATCH"
        sp.put("bin/arc.sh", ARC % dict(d=sp.d, fail=self.failkey))
        sp.put("bin/prog.sh", PROG % dict(d=sp.d))
        self.rules = []
        self.L = []
        self.lac = 35
        self.progs = {"zip": "arc", "noarc": "noarc", "gate": "prog", "gaten": "progn"}
        self.L += ['arc zip "sh %s %%s %%s"' % sp.p("bin/arc.sh"),
                   'prog gate "sh %s %%s"' % sp.p("bin/prog.sh"),
                   'progn gaten "sh %s %%s"' % sp.p("bin/prog.sh"),
                   'unarc ZIP "PK" "unzip %s" "unzip -l %s"']
        if rng.random() < 0.3:
            n = rng.choice([0, 1, 2, 3, 5, 17, 40, -3])
            self.lac = {0: 9, 1: 15, 2: 35}.get(n, n if 0 < n <= 35 else 35)
            self.L.append("LastArcmailChars %d" % n)
        typ = "n"
        useddir = {}
        for _ in range(rng.choice([1, 2, 3, 5, 7])):
            if rng.random() < 0.5:
                typ = rng.choice("ne")
                self.L.append(rng.choice({"n": ["netmail", "NetMail"], "e": ["echomail", "EchoMail"]}[typ]))
            r = Rule()
            r.type = typ
            r.cmd = rng.choice(["pack"] * 4 + ["rpack", "fpack", "dirpack", "dirmove"])
            r.arc = rng.choice(["zip"] * 5 + ["noarc"] * 3 + ["gate", "gaten"])
            r.dir = r.max = None
            r.pats = [netm.pat_of(rng, rng.choice(ends)) for _ in range(rng.choice([1, 1, 2, 3]))]
            if r.cmd in ("rpack", "fpack"):
                t = rng.choice(ends)
                r.pats.insert(0, Pat(t.zone, t.net, t.node, t.point or rng.choice([E, 0])))
                if r.arc in ("gate", "gaten"):
                    r.arc = "zip"
            if r.cmd == "dirpack":
                r.arc = "zip"
                r.pats = r.pats[:1]
                n = rng.choice(ends)
                r.pats[0] = Pat(n.zone, n.net, n.node, n.point or 0)
            w = [rng.choice([r.cmd, r.cmd.upper()])]
            if r.cmd in ("dirpack", "dirmove"):
                k = rng.randrange(3)
                if r.cmd == "dirpack":
                    if useddir.setdefault(k, r.pats[0].t) != r.pats[0].t:
                        continue
                r.dir = sp.p("dir%d" % k)
                w.append(r.dir)
            if r.cmd != "dirmove":
                w.append(r.arc)
                if r.arc == "zip" and rng.random() < 0.2:
                    r.max = rng.choice([1, 3]) * 1024
                    w.append("size=%d" % (r.max // 1024))
            w += [p.s() for p in r.pats]
            self.L.append(rng.choice([" ", "\t", "  "]).join(w))
            if rng.random() < 0.08:
                self.L.append(rng.choice(["pack zip", "pack", "bogus x", "pack nosuch *", "rpack", "",
                                          "dirpack /tmp", "# x"]))
            self.rules.append(r)
        for typ in "ne":
            if rng.random() < 0.7:
                r = Rule()
                r.type, r.cmd, r.dir, r.max = typ, "pack", None, None
                r.arc = rng.choice(["zip", "zip", "noarc"])
                r.pats = [Pat(W, W, W, W)]
                self.L += [{"n": "netmail", "e": "echomail"}[typ], "pack %s *" % r.arc]
                self.rules.append(r)
        sp.put("etc/packing", "\n".join(self.L) + "\n")
        self.cid = 0
        self.msgs = {}
        self.want = {}
        # earlier state of the outbound
        self.now = int(time.time())
        for n in rng.sample(ends, min(len(ends), rng.choice([0, 1, 1, 2]))):
            b = self.base(n)
            os.makedirs(os.path.dirname(b), exist_ok=True)
            if rng.random() < 0.5:
                ms = [self.mail(rng, n) for _ in range(rng.choice([1, 2]))]
                for m in ms:
                    self.msgs[self.cid_of(m)] = m
                sp.put(self.rel(b + rng.choice(list(OUTEXT.values()))),
                       Pkt(self.aka(n), n, ms, self.pwd.get(n, "").encode()).raw())
            if rng.random() < 0.6:
                arcs = []
                if rng.random() < 0.8:
                    for c in sorted(rng.sample(CH[:self.lac + 1], rng.choice([1, 2, 3, self.lac + 1]))):
                        sz = rng.choice([0, 0, 500, 1500, 5000])
                        p = self.arcbase(n) + self.wk(self.now) + c
                        sp.put(self.rel(p), (b"MEMBER old %d\n" % sz + b"x" * sz) if sz else b"",
                               mtime=self.now - rng.choice([100, 90000]))
                        arcs.append(p)
                lines = ["^/nonexistent/file%d" % i for i in range(rng.choice([0, 1, 2]))]
                if rng.random() < 0.3:
                    lines.append("/keep/this")
                for a in arcs:
                    if rng.random() < 0.7:
                        lines.append(rng.choice("#^~") + a)
                if lines:
                    sp.put(self.rel(b + rng.choice(list(FLOEXT.values()))), "\n".join(lines) + "\n")
        if rng.random() < 0.3:
            sp.put("bt/out/unrelated.file", "x")

    def rel(self, p):
        return os.path.relpath(p, self.sp.d)

    def aka(self, n):
        return next((a for a in self.addrs if a.zone == n.zone), self.addrs[0])

    def zdir(self, n):
        return self.sp.p("bt", "out" if self.aso or n.zone == 2 else "out.%03x" % n.zone)

    def base(self, n):
        """outbound path of a system, without extension"""
        if self.aso:
            return "%s/%d.%d.%d.%d." % ((self.zdir(n),) + tuple(n))
        if n.point:
            return "%s/%04x%04x.pnt/0000%04x." % (self.zdir(n), n.net, n.node, n.point)
        return "%s/%04x%04x." % (self.zdir(n), n.net, n.node)

    def arcbase(self, n, dir=None):
        if self.aso:
            return "%s/%d.%d.%d.%d." % ((dir or self.zdir(n),) + tuple(n))
        m = self.addrs[0]
        if n.point:
            return "%s/0000%04x." % (dir or "%s/%04x%04x.pnt" % (self.zdir(n), n.net, n.node),
                                     (m.point - n.point) & 0xffff)
        return "%s/%04x%04x." % (dir or self.zdir(n), (m.net - n.net) & 0xffff, (m.node - n.node) & 0xffff)

    def wk(self, t):
        return WK[time.gmtime(t).tm_wday]

    @staticmethod
    def cid_of(m):
        return int(re.search(rb"cid=(\d{6})", m.body)[1])

    def mail(self, rng, to, typ="n"):
        self.cid += 1
        k = [b"\x01MSGID: 2:5030/1 %08x" % self.cid]
        if typ == "e":
            k = [b"AREA:TEST"] + k
        else:
            k.append(b"\x01INTL %s %s" % (to._replace(point=0).s().encode(), b"2:5030/100"))
        L = k + gen_text(rng, "cid=%06d" % self.cid)
        if rng.random() < 0.05:
            L += [b"x" * 300] * 30
        return Msg(rng.choice(netm.NAMES), rng.choice(netm.NAMES), rng.choice(netm.SUBJ),
                   b"".join(x + b"\r" for x in L), self.aka(to), to, rng.choice([0, 1, 0x80]), 0,
                   fts_date(self.now - self.cid * 60))

    def packets(self, rng, n):
        """add n packets to the spool"""
        sp = self.sp
        for i in range(n):
            typ = rng.choice("nnee")
            if rng.random() < 0.04:
                typ = "t"
            flav = rng.choice("nnnnhcd")
            to = rng.choice(self.ends)
            ms = []
            for _ in range(rng.choice([1, 1, 2, 4])):
                m = self.mail(rng, to, "e" if typ == "e" else "n")
                if typ == "n" and rng.random() < 0.25 and self.fa:
                    f = "file%d.zip" % rng.randrange(4)
                    if rng.random() < 0.15:
                        f = "missing.zip"
                    elif not os.path.exists(sp.p("fa", f)):
                        os.makedirs(sp.p("fa"), exist_ok=True)
                        sp.put("fa/" + f, "content of " + f)
                    m.attr |= 0x10
                    m.subj = (f if self.fa == "dir" else sp.p("fa", f)).encode()
                    if self.fa == "dir" and rng.random() < 0.2:
                        m.subj = m.subj.upper()
                    if len(m.subj) > 71:
                        m.subj = b"short"
                ms.append(m)
                self.msgs[self.cid_of(m)] = m
            nm = "%s%s%s%05x.pkt" % (rng.choice("nm"), typ, flav, self.cid)
            p = Pkt(self.aka(to), to, ms, self.pwd.get(to, "").encode())
            sp.put("spool/toss/route/" + nm, p.raw(), mtime=self.now - 5000 + self.cid)
            self.want[nm] = (typ, flav, to, ms)

    def decide(self, typ, to):
        for r in self.rules:
            if r.type == typ and any(p.match(to) for p in r.pats):
                return r
        return None

    def plan(self, nm):
        """what should become of packet nm: (kind, arcnode, flonode, rule, nodes to be flagged)"""
        typ, flav, to, ms = self.want[nm]
        r = self.decide(typ, to)
        if not r:
            return ("stay", None, None, None, [])
        first = Node(*[0 if x < 0 else x for x in r.pats[0].t])
        if r.cmd == "dirmove":
            return ("dir", to, to, r, [to])
        if r.cmd == "dirpack":
            return ("dirarc", to, to, r, [to])
        a = f = to
        if r.cmd == "rpack":
            a = f = first
        if r.cmd == "fpack":
            f = first
        kind = self.progs[r.arc]
        if kind == "arc" and flav != "c":
            return ("arc", a, f, r, [a, f])
        if kind in ("arc", "noarc"):
            return ("out", to, to, r, [to])
        return (kind, a, f, r, [a, f])

    def args(self, rng):
        a = []
        if self.fa == "dir":
            a += ["-F", self.sp.p("fa")]
        elif self.fa == "/":
            a += ["-F", "/"]
        return a


def flo_lines(data):
    return [x for x in data.decode("latin1").replace("\r", "").split("\n") if x]


def run_and_check(case, s, busy=(), only=None, prog_args=()):
    """one run of the packer compared with the model; busy: systems whose flag
    somebody else holds"""
    sp = s.sp
    os.path.exists(sp.p("events")) and os.unlink(sp.p("events"))
    if not sp.done:
        sp.write_conf()
    chown_tree(sp.d)
    before = sp.tree("bt")
    bdir = {i: sp.tree("dir%d" % i) for i in range(3)}
    t0 = time.time()
    days = {s.wk(t0)}
    r = sp.run("toss/ftnpack", *(s.args(case.rng) + list(prog_args)))
    days.add(s.wk(time.time()))
    case.san(r)
    case.check(r.rc == 0, "exit-status", lambda: "rc=%d %s" % (r.rc, sp.log()[-600:]))
    after = sp.tree("bt")
    ctx = "rules %s%s" % (s.L[4:], " busy %s" % [b.s() for b in busy] if busy else "")
    left = {os.path.basename(p): p for p in sp.ls("spool/toss/route")}
    # ---- expected locations
    exp = defaultdict(list)            # cid -> expected place
    stay, todo = set(), []
    for nm, (typ, flav, to, ms) in sorted(s.want.items(), key=lambda x: int(x[0][3:8], 16)):
        pl = s.plan(nm)
        case.seen("plan_" + pl[0])
        if pl[0] == "stay" or any(n in busy for n in pl[4]):
            stay.add(nm)
            if pl[0] != "stay":
                case.seen("held_back_by_busy_flag")
            continue
        todo.append((nm, pl))
        if pl[0] == "progn":
            stay.add(nm)
    case.check(set(left) == stay, "spool-left", lambda: "%s: left in the spool %s, should be %s; log %s" % (
        ctx, sorted(left), sorted(stay), sp.log()[-400:]))
    for nm in stay & set(left):
        with open(left[nm], "rb") as f:
            data = f.read()
        typ, flav, to, ms = s.want[nm]
        case.check(data == Pkt(s.aka(to), to, ms, s.pwd.get(to, "").encode()).raw(), "spooled-packet-changed", nm)
    # ---- OUT files
    outs = {}                          # node -> current ext
    for n in s.ends:
        for fl in ORDER:
            rel = os.path.relpath(s.base(n) + OUTEXT[fl], sp.p("bt"))
            if rel in before:
                outs[n] = OUTEXT[fl]
                break
    wantout = defaultdict(list)
    for n, e in outs.items():
        wantout[os.path.relpath(s.base(n) + e, sp.p("bt"))] = (n, [])
    flos = {}
    for n in s.ends:
        for fl in ORDER:
            rel = os.path.relpath(s.base(n) + FLOEXT[fl], sp.p("bt"))
            if rel in before:
                flos[n] = [FLOEXT[fl], flo_lines(before[rel]), flo_lines(before[rel])]
                break
    marc = defaultdict(list)           # node -> expected members
    mdir = defaultdict(list)

    def attach(n, entry, flav):
        f = flos.setdefault(n, [FLOEXT[flav], [], []])
        if not any(x.lstrip("^#") == entry[entry[0] in "^#@":] for x in f[2] if not x.startswith("~")):
            f[2].append(entry)
    sink = []
    fagone = set()
    for nm, (kind, a, f, rule, flags) in todo:
        typ, flav, to, ms = s.want[nm]
        case.sig(kind, rule.cmd, typ, flav, bool(to.point), bool(f.point), len(ms), s.aso, s.disp,
                 bool(s.maxarc or rule.max), a in flos, a in outs, to.zone == 2, bool(busy))
        copied = kind in ("out", "dir") or (kind in ("arc", "dirarc") and typ == "n")
        if copied and typ == "n":
            for m in ms:
                if m.attr & 0x10 and s.fa:
                    fn = os.path.basename(m.subj.decode("latin1")).lower()
                    full = sp.p("fa", fn)
                    act = s.iga or 0
                    if s.fa == "dir":
                        m.subj = fn.encode() if full not in fagone and os.path.exists(full) or \
                            fn != "missing.zip" and full not in fagone else m.subj
                        if fn == "missing.zip" or full in fagone:
                            continue
                    if act == 0:
                        attach(f if kind != "out" else to, ("^" if s.fa == "dir" else "") +
                               (full if s.fa == "dir" else m.subj.decode("latin1")), flav)
                    elif act == 1:
                        fagone.add(full)
        if kind == "out":
            e = outs.setdefault(to, OUTEXT[flav])
            rel = os.path.relpath(s.base(to) + e, sp.p("bt"))
            if rel not in wantout:
                wantout[rel] = (to, [])
            wantout[rel][1].extend(ms)
        elif kind == "dir":
            mdir[(rule.dir, nm)] = (to, ms)
        elif kind == "arc":
            marc[a].append((nm, to, ms, copied, f, flav, rule))
            flos.setdefault(f, [FLOEXT[flav], [], []])
        elif kind == "dirarc":
            marc[(rule.dir, a)].append((nm, to, ms, copied, f, flav, rule))
        else:
            sink.append((nm, ms))

    def same(m, o, what):
        ok = True
        for fld in ("frm", "to", "subj", "attr", "body", "onet", "onode", "dnet", "dnode"):
            ok &= case.check(getattr(m, fld) == getattr(o, fld), "field-" + fld, lambda: "%s: %s is %s, was %s; %s" % (
                what, fld, short(getattr(m, fld)), short(getattr(o, fld)), ctx))
        od = o.date if isinstance(o.date, bytes) else fts_date(o.date)
        case.check(m.date == od, "date", lambda: "%s: %r was %r" % (what, m.date, od))
        return ok

    def cids(ms):
        out = []
        for m in ms:
            x = re.search(rb"cid=(\d{6})", m.body)
            out.append(int(x[1]) if x else None)
        return out

    def pktcheck(data, to, ms, what, old=None, copied=True):
        try:
            p = parse(data)
        except PktError as e:
            case.fail("malformed-packet", "%s: %s; %s" % (what, e, ctx))
            return
        case.seen("packets_checked")
        case.check(p.dest == to, "packet-destination", lambda: "%s: for %s, should be %s; %s" % (
            what, p.dest.s(), to.s(), ctx))
        case.check(p.orig == s.aka(to), "packet-origin", lambda: "%s: from %s, should be %s" % (
            what, p.orig.s(), s.aka(to).s()))
        case.check(p.pw == s.pwd.get(to, "").encode(), "packet-password", lambda: "%s: %r" % (what, p.pw))
        if case.check(cids(p.msgs) == cids(ms), "packet-messages", lambda: "%s: has messages %s, should be %s; %s" % (
                what, cids(p.msgs), cids(ms), ctx)):
            for m, o in zip(p.msgs, ms):
                same(m, o, what)
                case.seen("messages_checked")
    gotout = {k for k in after if k[-3:] in OUTEXT.values()}
    case.check(gotout == set(wantout), "out-files", lambda: "%s: packets in the outbound %s, should be %s; log %s" % (
        ctx, sorted(gotout), sorted(wantout), sp.log()[-500:]))
    for rel in gotout & set(wantout):
        n, ms = wantout[rel]
        if rel in before:
            old = before[rel]
            case.check(after[rel].startswith(old[:-2]), "earlier-packet-damaged", lambda: "%s; %s" % (rel, ctx))
            if not ms:
                case.check(after[rel] == old, "untouched-packet-changed", lambda: "%s; %s" % (rel, ctx))
            ms = parse(old).msgs + ms
        pktcheck(after[rel], n, ms, rel)
    # ---- archives
    arcs = {}
    okd = {s.wk(t0)} | days
    for scope, tree, bef in [("bt", after, before)] + [("dir%d" % i, sp.tree("dir%d" % i), bdir[i]) for i in range(3)]:
        for rel, data in tree.items():
            m = re.fullmatch(r"(.*\.)(su|mo|tu|we|th|fr|sa)([0-9a-z])", rel)
            if not m:
                continue
            full = sp.p(scope, rel)
            old = bef.get(rel, b"")
            if data == old:
                continue
            case.check(m[2] in okd and CH.index(m[3]) <= s.lac, "archive-name", lambda: "%s; %s" % (rel, ctx))
            if not case.check(data.startswith(old), "earlier-archive-damaged", lambda: "%s: %s bytes were %s; %s" % (
                    rel, len(data), len(old), ctx)):
                continue
            try:
                mem = members(data[len(old):])
            except (ValueError, IndexError) as e:
                case.fail("archive-content", "%s: %r; %s" % (rel, e, ctx))
                continue
            arcs[full] = (mem, len(old), old)
        for rel, old in bef.items():
            if re.search(r"\.(su|mo|tu|we|th|fr|sa)[0-9a-z]$", rel) and old:
                case.check(rel in tree, "earlier-archive-removed", lambda: "%s; %s" % (rel, ctx))
    seen_arc = set()
    for key, lst in marc.items():
        dirn, a = key if isinstance(key[0], str) else (None, key)
        base = s.arcbase(a, dirn)
        mine = {p: v for p, v in arcs.items() if p[:-3] == base}
        seen_arc |= set(mine)
        got = Counter()
        where = {}
        for p, (mem, oldlen, old) in mine.items():
            for nm, data in mem:
                got[nm] += 1
                where[nm] = (p, data)
        wantn = Counter(x[0] for x in lst)
        case.check(got == wantn, "archive-members", lambda: "archives of %s contain %s, should contain %s; %s; log %s" % (
            a.s(), dict(got), dict(wantn), ctx, sp.log()[-400:]))
        for nm, to, ms, copied, f, flav, rule in lst:
            if nm not in where:
                continue
            p, data = where[nm]
            pktcheck(data, to, ms, "%s in %s" % (nm, os.path.basename(p)), copied=copied)
            if not dirn:
                c = {None: "#", 0: "#", 1: "^", 2: "@"}[s.disp]
                attach(f, c + p, flav)
        # size limit
        for p, (mem, oldlen, old) in mine.items():
            size = oldlen
            for nm, data in mem:
                lim = next((x[6].max or s.maxarc for x in lst if x[0] == nm), 0)
                if lim and size >= lim + len(data) / 2 + 200:
                    have = {q[len(base) + 2:] for q in
                            [sp.p(os.path.relpath(x, sp.d)) for x in sp.ls(os.path.relpath(os.path.dirname(base), sp.d))]
                            if q.startswith(base)}
                    full = set(CH[:s.lac + 1]) <= have
                    case.check(full, "archive-limit", lambda: "%s: %s added at size %d, limit %d; existing %s; %s" % (
                        p, nm, size, lim, sorted(have), ctx))
                    case.seen("archive_over_limit_all_names_used")
                size += len(data) + len("MEMBER %s %d\n" % (nm, len(data)))
    case.check(set(arcs) == seen_arc, "unexpected-archive", lambda: "%s: %s" % (ctx, set(arcs) - seen_arc))
    # ---- flow files
    wantflo = {os.path.relpath(s.base(n) + v[0], sp.p("bt")): v for n, v in flos.items()}
    gotflo = {k for k in after if k[-3:] in FLOEXT.values()}
    case.check(gotflo == set(wantflo), "flow-files", lambda: "%s: flow files %s, should be %s; log %s" % (
        ctx, sorted(gotflo), sorted(wantflo), sp.log()[-500:]))
    for rel in gotflo & set(wantflo):
        got, (e, old, want) = flo_lines(after[rel]), wantflo[rel]
        case.check(got[:len(old)] == old, "earlier-flow-entries", lambda: "%s: %s, before %s" % (rel, got, old))
        case.check(Counter(got) == Counter(want), "flow-entries", lambda: "%s: %s, should be %s; %s" % (
            rel, got, want, ctx))
        case.check(after[rel].endswith(b"\n"), "flow-line-end", rel)
        case.seen("flow_files_checked")
    # ---- directories, programs
    for i in range(3):
        tree = sp.tree("dir%d" % i)
        got = {k: v for k, v in tree.items() if k.endswith(".pkt")}
        want = {k[1]: v for k, v in mdir.items() if k[0] == sp.p("dir%d" % i)}
        new = {k for k in got if k not in bdir[i]}
        case.check(new == set(want), "dirmove", lambda: "%s: dir%d has %s, should have %s" % (ctx, i, new, set(want)))
        for k in new & set(want):
            pktcheck(got[k], want[k][0], want[k][1], k)
    gots = sp.tree("sink")
    case.check(set(gots) == {x[0] for x in sink}, "prog", lambda: "%s: program got %s, should get %s" % (
        ctx, sorted(gots), sorted(x[0] for x in sink)))
    # ---- nothing else changed
    for rel in set(before) | set(after):
        if rel[-3:] in OUTEXT.values() or rel[-3:] in FLOEXT.values() or \
                re.search(r"\.(su|mo|tu|we|th|fr|sa)[0-9a-z]$", rel):
            continue
        case.check(before.get(rel) == after.get(rel), "other-file", lambda: "%s changed from %r to %r; %s" % (
            rel, before.get(rel), after.get(rel), ctx))
    case.check(not [x for x in sp.ls("spool/toss/route") if not x.endswith(".pkt")], "temporary-left",
               lambda: str(sp.ls("spool/toss/route")))
    # ---- bookkeeping for a further run
    for nm, pl in todo:
        if pl[0] != "progn":
            s.want.pop(nm, None)
    for f in list(sp.tree("sink")):
        os.unlink(sp.p("sink", f))
    case.sample = "%d packets, %s" % (len(todo) + len(stay), ctx)
    return todo, stay
