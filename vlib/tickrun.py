"""File announcements (TIC): generator, model and judge for P25/P26."""
import os, re, time, zlib
from collections import Counter, defaultdict
from .pkt import N
from .spool import Spool
from . import build as B


def options(case):
    """configure options: is the checksum test compiled in, directory of descriptions"""
    with open(os.path.join(case.ctx["src"]["asan"], "..", "config.h")) as f:
        c = f.read()
    m = re.search(r'^#define DESC_DIR "(.*)"', c, re.M)
    return not re.search(r"^#define FTNTICK_NOCRC", c, re.M), m and m[1]


class Area:
    pass


class Tic:
    """one announcement; f: list of (keyword, text) as written"""
    def __init__(self):
        self.f = []
        self.base = None
        self.data = None
        self.kind = ""


def s4(n):
    return "%d:%d/%d" % tuple(n)[:3] + (".%d" % n.point if n.point else "")


class Scen:
    def __init__(self, case, hostile=False):
        rng = case.rng
        self.case, self.rng, self.hostile = case, rng, hostile
        self.addrs = [N("2:5030/100")] + ([N("3:55/7")] if rng.random() < .5 else []) + \
            ([N("2:5030/100.3")] if rng.random() < .2 else [])
        sp = self.sp = Spool(case, addrs=[s4(a) for a in self.addrs])
        for a in self.addrs[1:]:
            sp.ident.append("Uplink %d:%d/0" % (a.zone, a.net))
        nodes = ["2:5030/%d" % i for i in range(1, 9)] + ["2:5030/2.5", "2:5030/1.1", "2:5030/100.4", "2:5020/7", "3:55/1", "3:55/2", "3:56/4.2"]
        self.nodes = [N(x) for x in nodes]
        sp.conf.append("PassthroughtBoxesDir %B/fbox")
        self.flav = rng.choice([None, None, "Normal", "Hold", "Crash"])
        if self.flav:
            sp.conf.append("TickFlav " + self.flav)
        self.boxfl = rng.random() < .4
        if self.boxfl:
            sp.conf.append("PassthroughtBoxesFlavours")
        self.wait = rng.choice([None, 0, 10, 48])
        if self.wait is not None:
            sp.conf.append("TickWaitHour %d" % self.wait)
        self.waitact = rng.choice([None, "bad", "delete", "delete", "none"])
        if self.waitact:
            sp.conf.append("TickWaitAction " + self.waitact)
        self.kill = rng.random() < .5
        if self.kill:
            sp.conf.append("KillTickDupe")
        self.nohist = rng.random() < .12
        if self.nohist:
            sp.conf.append("NoTicHistory")
        self.rdir = rng.random() < .6
        if self.rdir:
            sp.conf.append("TickReplacedDir %B/old")
        self.rign = rng.random() < .15
        if self.rign:
            sp.conf.append("TickReplacedIgnore")
        self.notime = rng.random() < .3
        if self.notime:
            sp.conf.append("TickDontSetTime")
        self.ticpw = rng.random() < .25
        if self.ticpw:
            sp.conf.append("EnableTickPassword")
        self.mode = rng.choice([None, 0o600, 0o644, 0o664])
        if self.mode:
            sp.conf.append("TickMode 0%o" % self.mode)
        self.insecure = rng.random() < .15
        self.crc, self.descdir = options(case)
        # areas
        self.areas = []
        L = ["# file areas"]
        for i in range(rng.randint(1, 5)):
            a = Area()
            a.tag = rng.choice(["FILES", "NODEDIFF", "Linux.Soft", "A-B", "X_PIC"]) + ("%d" % i)
            a.pt = rng.random() < .25
            a.dir = "fa/" + rng.choice(["area%d", "deep/er/area%d", "Area%d.d"]) % i
            a.mk = rng.random() < .7
            a.zone = None
            a.addr = None
            a.upl = 1
            o = ""
            r = rng.random()
            if r < .2 and len(self.addrs) > 1:
                a.addr = rng.choice(self.addrs)
                o += " -a " + s4(a.addr)
            elif r < .45:
                a.zone = rng.choice([2, 3])
                o += " -z %d" % a.zone
            a.nodes = rng.sample(self.nodes, rng.choice([1, 2, 3, 4, 6, 10]))
            a.passive = []
            if rng.random() < .4:
                a.passive = [n for n in a.nodes[1:] if rng.random() < .4]
                if rng.random() < .1:
                    a.passive.append(a.nodes[0])
                if a.passive:
                    o += " -p " + ",".join(s4(n) for n in a.passive)
            if rng.random() < .3:
                a.upl = rng.randint(2, 3)
                o += " -u %d" % a.upl
            if rng.random() < .4:
                o += " -s " + rng.choice("SUWF")
            d = "-" if a.pt and rng.random() < .6 else sp.p(a.dir)
            a.ptdir = a.pt and d != "-"
            L.append("%s%s %s%s %s" % ("#" if a.pt else "", d, a.tag, o, " ".join(s4(n) for n in a.nodes)))
            if a.mk and (not a.pt or a.ptdir):
                os.makedirs(sp.p(a.dir))
            self.areas.append(a)
        self.unk = None
        if rng.random() < .25:
            c = [a for a in self.areas if not a.pt]
            if c:
                self.unk = rng.choice(c)
                sp.conf.append("UnknownTickArea " + self.unk.tag)
        self.action = None
        if rng.random() < .25:
            self.action = rng.choice(self.areas)
            self.actpat = rng.choice(["*", "*.zip", "new*"])
            sp.conf.append("TickFileAction %s *.nothing false %%s" % self.action.tag)
            sp.conf.append("TickFileAction %s %s cat %%s >> %s" % (self.action.tag, self.actpat, sp.p("bt/action.out")))
        sp.put("etc/fareas.bbs", "\n".join(L) + "\n")
        self.setup_auto()
        # passwords
        self.pw, self.pwff = {}, {}
        P = []
        for n in self.nodes:
            if rng.random() < .85:
                w = "Pw%s%d" % (rng.choice("abcXYZ"), rng.randint(1, 999))
                self.pwff[n] = w
                P.append("ff %s %s%s" % (s4(n), w, self.newkey(n, not self.ticpw)))
            if self.ticpw and rng.random() < .85:
                self.pw[n] = "T%d" % rng.randint(1, 9999)
                P.append("tic %s %s%s" % (s4(n), self.pw[n], self.newkey(n, True)))
            if rng.random() < .5:
                P.append("packet %s OTHER" % s4(n))
        if not self.ticpw:
            self.pw = self.pwff
        rng.shuffle(P)
        sp.put("etc/passwd", "\n".join(P) + "\n")
        self.tickrt = []
        if rng.random() < .4:
            self.tickrt = [(rng.choice(["hold", "crash", "normal", "direct"]), n)
                           for n in rng.sample(self.nodes, rng.randint(1, 4))]
            sp.put("etc/routing", "tick\n" + "".join("send %s %s\n" % (f, s4(n)) for f, n in self.tickrt))
        if hostile:
            for p in ("etc/secret", "fa/secret.zip", "bt/secret.zip", "bt/out/secret.zip", "in/secret.zip", "secret.zip"):
                sp.put(p, "canary " + p)
        self.hist = set()
        sp.write_conf()
        self.made, self.reqs, self.fed = [], [], set()
        # model of the files: {relative path: bytes}
        self.seq = 0
        self.fileid = 0

    # -- automatic creation of areas
    def setup_auto(self):
        rng, sp = self.rng, self.sp
        self.keys, self.forb, self.fchars, self.subn, self.line, self.upl, self.autodir = {}, [], "", [], None, {}, None
        self.auto = rng.random() < .5
        if not self.auto:
            return
        from .afutil import Line
        if rng.random() < .8:
            self.autodir = rng.choice(["auto", "fa/au"]) if any(a.mk and not a.pt for a in self.areas) else "auto"
            sp.conf.append("AutoCreateFechoPath " + sp.p(self.autodir))
            if rng.random() < .5:
                os.makedirs(sp.p(self.autodir), exist_ok=True)
        own = s4(rng.choice(self.addrs))
        def ln():
            l = Line(rng, own)
            if rng.random() < .5:       # else most areas would be passthru
                l.opt = [x for x in l.opt if x[0] != "-#"]
            return l
        if rng.random() < .6:
            self.line = ln()
            sp.conf.append("AutoCreateFileechoLine " + self.line.s())
        if rng.random() < .3:
            self.forb = rng.sample(["NEW.F*", "new.?", "UNK*", "x*"], rng.choice([1, 2]))
            if rng.random() < .4:
                sp.put("etc/forbidden", "".join(p + "\n" for p in self.forb))
                sp.conf.append("FileFixCreateForbiddenAreasFile " + sp.p("etc/forbidden"))
            else:
                sp.conf += ["FileFixCreateForbiddenAreas " + p for p in self.forb]
        if rng.random() < .2:
            self.fchars = rng.choice(["1", "x", "/*X1"])
            sp.conf.append("ForbiddenChar " + self.fchars)
        if rng.random() < .3:
            self.subn = rng.sample(self.nodes, rng.choice([1, 2]))
            sp.conf.append("AutoCreateSubscribeFileechoNodes " + " ".join(s4(n) for n in self.subn))
        U = []
        for n in self.nodes:
            if rng.random() < .4:
                l = ln()
                self.upl[n] = ("Pw%d" % rng.randrange(99), l)
                U.append("ff * %s Filefix %s %s" % (s4(n), self.upl[n][0], l.s()))
            if rng.random() < .3:
                U.insert(0, "af * %s Areafix X -l 99 -k ZZ" % s4(n))
        sp.put("etc/uplinks", "\n".join(U) + "\n")

    def newkey(self, n, real):
        if not self.auto or self.rng.random() < .2:
            return ""
        k = "".join(self.rng.sample("ABC&~%", self.rng.randrange(3))) + ("$" if self.rng.random() < .75 else "")
        if real:
            self.keys[n] = k
        return " 1 " + (k or "-")

    def create(self, area, frm, pw):
        """area is as announced, in capitals"""
        from . import afix as A
        S = self.case.seen
        want = self.pw.get(frm)
        if not self.auto or "$" not in self.keys.get(frm, "") or want is None or pw is None or pw.lower() != want.lower():
            return None
        if not area or any(c in ' \t"' for c in area) or "/" in area or area[0] == "." or \
                any(A.wm(p, area) for p in self.forb) or any(c in area for c in self.fchars):
            S("creation_refused")
            return None
        a = A.new_area()
        a.tag, a.zone, a.state = area, frm.zone, "S"
        if self.line:
            self.line.apply(a)
        if frm in self.upl:
            self.upl[frm][1].apply(a)
        if not a.pt:
            if not self.autodir:
                return None
            a.dir = self.sp.p(self.autodir, area.lower())
        a.nodes = [frm] + [n for n in self.subn if n != frm]
        r = Area()
        r.tag, r.pt, r.zone, r.addr, r.nodes, r.passive, r.upl, r.mk = area, a.pt, a.zone, a.addr, a.nodes, [], 1, True
        r.dir = None if a.pt else self.autodir + "/" + area.lower()
        r.rec = a
        return r

    # -- addressing
    def aka(self, a):
        if a.addr:
            return a.addr
        z = a.zone or a.nodes[0].zone
        return next((x for x in self.addrs if x.zone == z), self.addrs[0])

    def flavour(self, n):
        f = self.flav or "Normal"
        for fl, m in self.tickrt:
            if m == n or (not m.point and m[:3] == n[:3]):  # no point: any
                f = fl.capitalize()
                break
        return f

    def box(self, n):
        f = self.flavour(n)
        return "bt/fbox/%d.%d.%d.%d" % tuple(n) + (".H" if f == "Hold" and self.boxfl else "")

    # -- model -----------------------------------------------------------
    def desc_out(self, raw):
        out = bytearray()
        for c in raw:
            if c == 10:
                continue
            if c == 13:
                out += b" "
            elif c < 32 and c not in (9, 12):
                out += b"^" + bytes([c + 64])
            else:
                out.append(c)
        return bytes(out)

    def lookup(self, tag):
        for a in self.areas:
            if a.tag.upper() == tag:
                return a
        return None

    def apply(self, T, now):
        """what becomes of one announcement; T: dict with path, lines, mtime"""
        F, S = self.files, self.case.seen
        inb = "bt/pin/"
        f = {"path": [], "seenby": [], "desc": [], "ldesc": []}
        for k, v in T["lines"]:
            kl = k.lower()
            if kl in ("path", "desc", "ldesc"):
                f[kl].append(v if kl != "desc" or v else b"--no description--")
            elif kl == "seenby":
                f["seenby"] += [N(x.decode()) for x in v.split()]
            else:
                f[kl] = v
        tp = T["path"]

        def bad(why):
            S("rejected_" + why)
            F[re.sub(r"\.[^.]*$", ".bad", tp)] = F.pop(tp)
            T["fate"] = why

        area = f.get("area", b"").upper().decode("latin1") if "area" in f else None
        fn = f["file"].lower().decode("latin1") if "file" in f else None
        rep = f["replaces"].lower().decode("latin1") if "replaces" in f else None
        if area is None or fn is None or "/" in fn or (rep and "/" in rep):
            return bad("name")
        have = [x for x in F if x.startswith(inb) and x[len(inb):].lower() == fn]
        if not have:
            if T.get("isdir"):
                return bad("name")
            w = -1 if self.wait is None else self.wait
            if w and now - 3600 * w < T["mtime"]:
                S("waiting")
                T["fate"] = "wait"
                return
            if self.waitact in (None, "none"):
                T["fate"] = "wait"
                S("waiting")
            elif self.waitact == "bad":
                bad("missing")
            else:
                del F[tp]
                T["fate"] = "expired"
                S("expired_deleted")
            return
        src = inb + fn
        if src not in have:
            F[src] = F.pop(have[0])
            self.mt[src] = self.mt.pop(have[0])
            S("file_name_case_folded")
        data = F[src]
        size = int(f.get("size", b"0") or 0)
        if size and size != len(data):
            return bad("size")
        real = zlib.crc32(data)
        crc = int(f.get("crc", b"0") or b"0", 16)
        if self.crc:
            if crc == 0:
                crc = real
            elif crc != real:
                return bad("crc")
        date = int(f.get("date", b"-1"))
        if date == -1:
            date = self.mt[src]
        org = N(f["origin"].decode()) if "origin" in f else None
        key = (area, org, fn, crc)
        if not self.nohist and key in self.hist and rep != fn:
            if self.kill:
                S("dupes_killed")
                del F[src], F[tp]
                T["fate"] = "dupe"
                return
            return bad("dupe")
        frm = N(f["from"].decode()) if "from" in f else None
        a = self.lookup(area)
        unk = False
        created = False
        pw = f["pw"].decode("latin1") if "pw" in f else None
        if a is None:
            if self.unk:
                a, unk = self.unk, True
            else:
                a = self.create(area, frm, pw)
                if a is None:
                    return bad("unknown_area")
                created = True
        want = self.pw.get(frm)
        if want is None:
            if not self.insecure:
                return bad("password")
        elif pw is None or pw.lower() != want.lower():
            return bad("password")
        if not unk and frm not in a.nodes:
            return bad("not_subscribed")
        # accepted
        if created and a.pt and not [n for n in a.nodes[1:] if n not in f["seenby"] + [self.aka(a)]]:
            # nobody to forward to: the area is not wanted
            del F[src], F[tp]
            self.hist.add(key)
            T["fate"] = "unwanted"
            S("unwanted_area")
            if frm in self.upl:
                self.reqs.append((frm, "Filefix", self.upl[frm][0], "-" + area))
            return
        if created:
            S("area_created_passthru" if a.pt else "area_created")
            self.areas.append(a)
            self.made.append(a.rec)
        if not unk:
            self.fed.add(a.tag.upper())
        T["fate"] = "unknown" if unk else "ok"
        S("accepted" if not unk else "stored_in_unknown_area")
        if rep and not self.rign and not unk and not a.pt:
            old = a.dir + "/" + rep
            if old in F:
                if self.rdir:
                    F["bt/old/" + rep] = F[old]
                del F[old]
                self.mt.pop(old, None)
                S("replaced")
        del F[src], F[tp]
        if not a.pt:
            dst = a.dir + "/" + fn
            if dst in F:
                S("stored_over_existing")
            F[dst] = data
            self.mt[dst] = date
            self.times[dst] = None if self.notime else date
            ix = a.dir + ("/%s/%s.desc" % (self.descdir, fn) if self.descdir else "/files.bbs")
            d = self.desc_out(f["desc"][0]) if f["desc"] else b"--no description--"
            if self.descdir:
                F[ix] = d + b"\n"
            else:
                F[ix] = F.get(ix, b"") + fn.ljust(12).encode("latin1") + b"  " + d + b"\n"
        if unk:
            self.hist.add(key)
            return
        us = self.aka(a)
        sb = list(f["seenby"])
        for n in (frm, us):
            if n not in sb:
                sb.append(n)
        new = []
        for n in a.nodes[a.upl:]:
            if n in a.passive or n in sb:
                S("not_sent_passive" if n in a.passive else "not_sent_seen")
                continue
            sb.append(n)
            new.append(n)
        for n in new:
            b = self.box(n)
            if b + "/" + fn in F:
                S("sent_over_existing")
            F[b + "/" + fn] = data
            self.tics.append(dict(box=b, area=area.encode("latin1"), origin=org, frm=us, file=fn.encode("latin1"),
                                  replaces=rep.encode("latin1") if rep is not None else None,
                                  desc=f["desc"][0] if f["desc"] else b"", ldesc=[x.lstrip(b" \t") for x in f["ldesc"]],
                                  crc=crc, created=f.get("created"), size=len(data), date=date,
                                  path=f["path"], us=us, seenby=sorted(sb), pw=self.pwout(n)))
            S("sent")
        if not new:
            S("accepted_without_receivers")
        self.hist.add(key)
        if self.action is a and fnmatch_ok(self.actpat, fn):
            if re.fullmatch(r"[A-Za-z0-9._+=,@:][A-Za-z0-9._+=,@:-]*", fn):
                F["bt/action.out"] = F.get("bt/action.out", b"") + data
                S("actions_run")

    def pwout(self, n):
        return self.pw.get(n, "").encode()

    def args(self):
        return ["-t"] if self.insecure else []


def fnmatch_ok(pat, s):
    return re.fullmatch(".*".join(re.escape(x) for x in pat.split("*")), s, re.I) is not None


def parse_tic(data):
    """strict reader of a written description file"""
    t = {"path": [], "seenby": [], "ldesc": [], "desc": [], "other": []}
    if data and not data.endswith(b"\r\n"):
        raise ValueError("last line incomplete")
    for l in data.split(b"\r\n")[:-1]:
        k, _, v = l.partition(b" ")
        k = k.lower().decode("latin1")
        if k in ("path", "ldesc", "desc"):
            t[k].append(v)
        elif k == "seenby":
            t[k].append(N(v.decode()))
        elif k in ("area", "origin", "from", "file", "replaces", "crc", "created", "size", "date", "pw"):
            if k in t:
                raise ValueError("two %s lines" % k)
            t[k] = v
        else:
            t["other"].append(l)
    return t


def norm_tic(t):
    if t["other"]:
        raise ValueError("unknown lines %r" % t["other"])
    return dict(area=t["area"], origin=N(t["origin"].decode()) if "origin" in t else None, frm=N(t["from"].decode()),
                file=t["file"], replaces=t.get("replaces"), desc=b"\n".join(t["desc"]), ldesc=t["ldesc"],
                crc=int(t["crc"], 16), created=t.get("created"), size=int(t["size"]), date=int(t["date"]),
                path=t["path"], seenby=sorted(t["seenby"]), pw=t["pw"])


NAMES = ["new1.zip", "NODEDIFF.A01", "Long.File.Name-1.2.tar.gz", "x", "pic.jpg", "old0.zip", "old1.zip", "OLD2.ZIP", "a.b.c", "12345678.123"]
EVIL = ["../secret.zip", "..", ".", "../../etc/secret", "/etc/passwd", "a;touch owned", "$(touch owned)", "`touch owned`",
        "x y.zip", "a'b.zip", "\"q.zip", "-rf", "a|b.zip", "%s%n.zip", "fbox/../x.zip", "../in/secret.zip", "*", "\x01.zip", "..zip", "...", "x&y.zip"]


def gen_tic(s, rnd, i, now):
    rng = s.rng
    H = s.hostile
    evil = H and rng.random() < .6
    a = rng.choice(s.areas)
    frm = rng.choice(a.nodes) if rng.random() < (.8 if not H else .7) else rng.choice(s.nodes)
    s.fileid += 1
    data = (b"file %d " % s.fileid) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 50, 3000, 40000, 4096 - 8, 8192 - 8, 32768 - 8]) if rng.random() < .3 else rng.randint(0, 300)))
    if rng.random() < .1:       # sizes of buffers
        data = data.ljust(8192, b".")[:rng.choice([4095, 4096, 8192])]
    if rng.random() < .03:
        data = b""
    name = rng.choice(NAMES)
    if rng.random() < .5:
        name = name.replace(".", "%d." % s.fileid, 1) if "." in name else name + str(s.fileid)
    again = None
    if s.past and rng.random() < .25:
        again = rng.choice(s.past)
        if rng.random() < .8:
            a, frm0, name, data = again[:4]
            frm = rng.choice([frm0, rng.choice(a.nodes)])
    L = []
    T = dict(mtime=now - 3000 + 200 * rnd + 10 * i, lines=L)
    sent = name
    if evil and rng.random() < .5:
        sent = rng.choice(EVIL)
        name = sent
    on = rng.choice([str.upper, str.lower, str])(name)
    tag = a.tag
    if s.auto and rng.random() < .35:
        tag = rng.choice(["New.Files", "NEW.X", "NEW.FA.1", "new.1", "UNK.2", "x", "L" * 60, "50%.X", "a#b", "-r", "#x", "a/b", ".hid", "..", "TWO W", "q\"u", "R&D", "N'E", "*", "a?b"])
        frm = rng.choice(s.nodes)
    elif rng.random() < .07:
        tag = rng.choice(["NOSUCH", "UNKNOWN.AREA", a.tag + "X"] + (["../" + a.tag, "../../etc", "$(touch owned)", "A B"] if H else []))
    if rng.random() < .3:
        tag = tag.lower()
    pw = s.pw.get(frm)
    r = rng.random()
    if r < (.06 if not H else .15):
        pw = rng.choice(["wrong", "", "OTHER", (pw or "x") + "x", (pw or "xx")[:-1]])
    elif r < .12:
        pw = None
    elif r < .2 and pw:
        pw = pw.swapcase()
    elif r < .23 and s.ticpw:
        pw = s.pwff.get(frm)
    org = again[4] if again and rng.random() < .8 else rng.choice(s.nodes)
    crc = zlib.crc32(data)
    size = len(data)
    r = rng.random()
    if r < (.05 if not H else .12):
        size += rng.choice([-1, 1, 1000, 1 << 32])
        if size == 0 or size < 0:
            size += 5
    elif r < (.1 if not H else .22):
        crc ^= rng.choice([1, 0x80000000, 0xffffffff, 0x10000])
        if crc == 0:
            crc = 5
    B_ = lambda x: x.encode("latin1") if isinstance(x, str) else x
    add = lambda k, v: L.append((rng.choice([k, k, k.lower(), k.upper()]), B_(v)))
    if rng.random() < .98:
        add("Area", tag)
    if rng.random() < .96:
        add("Origin", s4(org))
    if rng.random() < .98:
        add("From", s4(frm))
    if rng.random() < .98:
        add("File", rng.choice([str.upper, str.lower, str])(sent))
    if rng.random() < .3:
        rep = rng.choice(["old0.zip", "old1.zip", "OLD2.ZIP", name, "nosuch.zip", "ol*.zip"])
        if evil or (H and rng.random() < .3):
            rep = rng.choice(EVIL + ["files.bbs/../old0.zip"])
        add("Replaces", rep)
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        d = rng.choice(["A file", "Description with  spaces ", "", "desc \x01\x02 ctl\t.", "x" * 300, "caf\xe9 \x8d\xff"])
        if H and rng.random() < .3:
            d = "nice\revil.zip     forged entry"
        add("Desc", d)
    for _ in range(rng.choice([0, 0, 1, 3])):
        add("LDesc", rng.choice(["Long description line", "second", "", "  indented"]))
    if rng.random() < .9:
        add("CRC", ("%08X" if rng.random() < .7 else "%x") % crc)
    if rng.random() < .7:
        add("Created", rng.choice(["by TestTick 1.0", "x", "by %s %n"]))
    if rng.random() < .8:
        add("Size", "%d" % size)
    if rng.random() < .7:
        add("Date", "%d" % rng.choice([1, 946684800, now - 86400 * 400, now, 2000000000]))
    for _ in range(rng.randint(0, 3)):
        add("Path", "%s %d Mon Jan 02 10:00:00 2006 GMT" % (s4(rng.choice(s.nodes)), now - 1000))
    for _ in range(rng.choice([0, 1, 2, 5])):
        add("Seenby", s4(rng.choice(s.nodes + [frm])))
    if pw is not None:
        add("Pw", pw)
    if rng.random() < .1:
        add(rng.choice(["App", "Release", "Magic", "To", "Unknown"]), rng.choice(["junk", "1", ""]))
    if H and rng.random() < .2:
        L.append((rng.choice(["X" * 2000, "Area2", ";"]), b"z" * rng.choice([1, 5000])))
    rng.shuffle(L)
    # reading stops short of nothing: repeated keywords take the last value
    tn = "bt/pin/t%d_%02d.%s" % (rnd, i, rng.choice(["tic", "TIC", "Tic"]))
    T["path"] = tn
    old = rng.random() < .1
    if old:
        T["mtime"] -= rng.choice([5, 20, 100]) * 3600
    elif rng.random() < .04:
        T["mtime"] += 8000
    raw = b"".join(B_(k) + (b" " + v if v or rng.random() < .8 else b"") + rng.choice([b"\r\n", b"\r\n", b"\n"]) for k, v in L)
    s.sp.put(tn, raw, mtime=T["mtime"])
    s.files[tn] = raw
    T["desc"] = "%s from %s" % (tag, s4(frm))
    if rng.random() < .93 and "/" not in on and on not in (".", ".."):
        p = "bt/pin/" + on
        if not any(x.lower() == p.lower() for x in s.files):
            m = now - rng.randint(100, 10 ** 6)
            s.sp.put(p, data, mtime=m)
            s.files[p] = data
            s.mt[p] = m
    elif sent in (".", ".."):
        T["isdir"] = True
    s.past.append((a, frm, name, data, org))
    return T


IGN = re.compile(r"^(log|var|lock|etc/fareas\.)")


def go(case, which):
    rng = case.rng
    s = Scen(case, hostile=which == "P26")
    sp = s.sp
    now = int(time.time())
    s.files, s.mt, s.times, s.tics, s.past = {}, {}, {}, [], []
    if rng.random() < .3:       # earlier announcements of the same number
        for n in rng.sample(s.nodes, 3):
            for i in range(1, 4):
                sp.put(s.box(n) + "/tk%06d.tic" % i, "earlier %d\r\n" % i)
    for a in s.areas:
        if a.mk and (not a.pt or a.ptdir):
            for f in ("old0.zip", "old1.zip", "old2.zip"):
                if rng.random() < .6:
                    p = a.dir + "/" + f
                    sp.put(p, "previous %s %s" % (a.tag, f))
                    if rng.random() < .3:       # still queued for somebody
                        b = "bt/fbox/2.5030.77.0/%s-%s" % (a.tag, f)
                        os.makedirs(sp.p("bt/fbox/2.5030.77.0"), exist_ok=True)
                        os.link(sp.p(p), sp.p(b))
            if rng.random() < .4:
                sp.put(a.dir + "/files.bbs", "readme.txt    About this area\n")
    os.makedirs(sp.p("bt/pin"), exist_ok=True)
    from . import harness, afix, afrun
    harness.chown_tree(sp.d)
    s.files = {k: v for k, v in sp.tree().items() if not IGN.match(k)}
    had_tics = {k: v for k, v in s.files.items() if re.match(r"bt/fbox/.*/tk\d+\.tic$", k)}
    s.files = {k: v for k, v in s.files.items() if k not in had_tics}
    rounds = rng.choice([1, 1, 2, 3])
    for rnd in range(rounds):
        ts = [gen_tic(s, rnd, i, now) for i in range(rng.choice([1, 2, 3, 5, 8]))]
        s.pending = getattr(s, "pending", []) + ts
        s.tics = []
        s.times = {}
        f0 = afix.parse_file(sp.get("etc/fareas.bbs"))
        R = sp.run("tick/ftntick", *s.args())
        case.san(R)
        s.pending.sort(key=lambda t: (t["mtime"], t["path"]))
        for t in s.pending:
            s.apply(t, now)
        ctxt = "round %d:\n%s\nfareas.bbs:\n%s\npasswd:\n%s\nconf: %s\nlog:\n%s" % (
            rnd, "\n".join("%s %s %s" % (t["path"], t.get("fate"), t["lines"]) for t in s.pending)[:3000],
            sp.get("etc/fareas.bbs").decode("latin1"), sp.get("etc/passwd").decode("latin1"), sp.conf + s.tickrt,
            sp.log()[-3000:])
        for t in s.pending:
            case.sig(which, t.get("fate"), len(s.tics) > 0, sorted(k.lower() for k, v in t["lines"]).__len__())
        s.pending = [t for t in s.pending if t.get("fate") == "wait"]
        case.check(R.rc == 0, "exit-code", "%r %s\n%s" % (R.rc, R.err[:500], ctxt))
        reqs = []
        for f, t, ms, tx in afrun.read_out(case, sp):
            case.check(f in s.addrs, "request-sender", "%s\n%s" % (f.s(), ctxt))
            reqs += [(t, ms.to.decode("latin1"), ms.subj.decode("latin1"), l.strip()) for l in tx if l.strip() and not l.startswith("--- ")]
        got = {k: v for k, v in sp.tree().items() if not IGN.match(k)}
        tics = {k: v for k, v in got.items() if k.startswith("bt/fbox/") and re.search(r"/tk\d+\.tic$", k)}
        newt = {k: v for k, v in tics.items() if had_tics.get(k) != v}
        lost = [k for k in had_tics if k not in tics]
        case.check(not lost, "queued-description-lost", "%s\n%s" % (lost, ctxt))
        had_tics = tics
        rest = {k: v for k, v in got.items() if k not in tics}
        for k in sorted(set(rest) | set(s.files)):
            case.evals += 1
            if rest.get(k) != s.files.get(k):
                e, g = s.files.get(k), rest.get(k)
                what = "file-missing" if g is None else "file-unexpected" if e is None else "file-differs"
                if k.endswith("files.bbs") or k.endswith(".desc"):
                    what = "index-differs"
                elif k.endswith(".bad") or k.startswith("bt/pin"):
                    what = "inbound-" + what
                elif not re.match(r"bt/(fbox|pin|old|action)|fa/", k):
                    what = "outside-" + what
                case.fail(what, "%s\nexpected %r\n     got %r\n%s" % (k, e and e[:200], g and g[:200], ctxt))
        s.files = dict(rest)
        for k, tm in s.times.items():
            if tm is not None and k in rest:
                case.check(int(os.stat(sp.p(k)).st_mtime) == tm, "file-time", "%s\n%s" % (k, ctxt))
        want = Counter()
        gotc = Counter()
        us = {}
        for k, v in newt.items():
            try:
                t = norm_tic(parse_tic(v))
            except (ValueError, KeyError) as e:
                case.fail("description-file-malformed", "%s: %s\n%r\n%s" % (k, e, v, ctxt))
                continue
            case.check(t["path"] and re.match(rb"%s \d{9,} " % re.escape(s4(t["frm"])).encode(), t["path"][-1]),
                       "path-line", "%r\n%s" % (t["path"], ctxt))
            t["path"] = t["path"][:-1]
            t["box"] = os.path.dirname(k)
            gotc[repr(sorted(t.items(), key=lambda x: x[0]))] += 1
            case.seen("description_files_checked")
        for t in s.tics:
            t = dict(t)
            del t["us"]
            want[repr(sorted(t.items(), key=lambda x: x[0]))] += 1
        if want != gotc:
            case.fail("description-files", "expected\n%s\n     got\n%s\n%s" % (
                "\n".join(want - gotc), "\n".join(gotc - want), ctxt))
        case.evals += len(want) + 1
        f1 = afix.parse_file(sp.get("etc/fareas.bbs"))
        f0[1].extend(s.made)
        for ar in f0[1]:
            if ar.tag.upper() in s.fed and ar.state and set(ar.state) & set("UWF"):
                ar.state = afix.Model.chstate(None, ar, "UWF", "S") or ar.state
                case.seen("area_state_active_again")
        case.check(f0[0] == f1[0] and [a.fields() for a in f0[1]] == [a.fields() for a in f1[1]], "area-list-changed",
                   lambda: "expected %s\n     got %s\n%s" % ([a.show() for a in f0[1]], [a.show() for a in f1[1]], ctxt))
        for ar in f1[1]:
            if ar.tag.upper() in s.fed:
                case.check(abs(ar.time - time.time()) < 300, "area-time", "%s %s\n%s" % (ar.tag, ar.time, ctxt))
        case.check(sorted(s.reqs) == sorted(reqs), "uplink-requests", lambda: "expected %s\n     got %s\n%s" % (s.reqs, reqs, ctxt))
        s.made, s.reqs, s.fed = [], [], set()
    case.sample = ", ".join("%s: %s" % (t["desc"], t.get("fate")) for t in ts)


def flo_base(sp, n):
    z = sp.p("bt", "out" if n.zone == 2 else "out.%03x" % n.zone)
    if n.point:
        return "%s/%04x%04x.pnt/0000%04x." % (z, n.net, n.node, n.point)
    return "%s/%04x%04x." % (z, n.net, n.node)


EXT = {"Normal": "flo", "Hold": "hlo", "Crash": "clo", "Direct": "dlo"}


def go_hatch(case):
    """files announced by the local system"""
    rng = case.rng
    s = Scen(case)
    sp = s.sp
    from . import harness
    FN = ["new1.zip", "NODEDIFF.A01", "Long.File.Name-1.2.tar.gz", "x", "old0.zip", "empty"]
    for a in s.areas:
        if not a.pt:
            for f in FN:
                if rng.random() < .8:
                    sp.put(a.dir + "/" + f, "" if f == "empty" else bytes(rng.randrange(256) for _ in range(rng.choice([1, 10, 3000, 40000]))),
                           mtime=int(time.time()) - rng.randint(100, 10 ** 8))
    for n in s.nodes:
        if rng.random() < .3:
            p = flo_base(sp, n) + rng.choice(list(EXT.values()))
            sp.put(os.path.relpath(p, sp.d), "".join("%s\n" % x for x in ["^/some/where", sp.p(s.areas[0].dir, "x")] if rng.random() < .6))
    os.makedirs(sp.p("bt/pin"), exist_ok=True)
    harness.chown_tree(sp.d)
    for step in range(rng.choice([1, 2, 4])):
        before = {k: v for k, v in sp.tree().items() if not IGN.match(k)}
        a = rng.choice(s.areas)
        tag = rng.choice([a.tag, a.tag, a.tag.lower(), a.tag.upper()])
        if rng.random() < .05:
            tag = "NOSUCH"
        fn = rng.choice(FN)
        desc = rng.choice(["A file", "Two  words; $(x) 'q'", "x" * 300, "tab\tbed", ""])
        rep = rng.choice([None, None, "old0.zip", "ol*.zip"])
        adr = rng.choice(s.addrs) if rng.random() < .2 else None
        args = (["-r", rep] if rep else []) + (["-a", s4(adr)] if adr else []) + [tag, fn, desc]
        R = sp.run("tick/ftnhatch", *args)
        case.san(R)
        ctxt = "ftnhatch %s\nfareas.bbs:\n%s\npasswd:\n%s\nconf: %s\nlog:\n%s" % (
            args, sp.get("etc/fareas.bbs").decode("latin1"), sp.get("etc/passwd").decode("latin1"),
            sp.conf + s.tickrt, sp.log()[-2000:])
        after = {k: v for k, v in sp.tree().items() if not IGN.match(k)}
        data = None if a.pt or tag == "NOSUCH" else before.get(a.dir + "/" + fn)
        ok = data is not None
        case.sig("hatch", ok, a.pt, rep is not None, adr is not None, s.flav, bool(s.tickrt), len(a.nodes), len(a.passive))
        case.check((R.rc == 0) == ok, "hatch-exit-code", "%r, expected success: %s %s\n%s" % (R.rc, ok, R.err[:500], ctxt))
        want = dict(before)
        wt = Counter()
        if ok:
            case.seen("files_announced")
            aka = a.addr or adr or s.aka(a)
            for n in a.nodes:
                if n in a.passive or n == aka:
                    continue
                f = s.flavour(n)
                full = sp.p(a.dir, fn)
                b = flo_base(sp, n)
                k = next((os.path.relpath(b + e, sp.d) for e in ("flo", "hlo", "clo", "dlo") if os.path.relpath(b + e, sp.d) in want),
                         os.path.relpath(b + EXT[f], sp.d))
                cur = want.get(k, b"")
                if full.encode() not in [x.lstrip(b"^#") for x in cur.split(b"\n")]:
                    cur += full.encode() + b"\n"
                want[k] = cur
                case.seen("announcements_queued")
                t = dict(area=tag.encode(), origin=aka, frm=aka, file=fn.encode(), replaces=rep.encode() if rep else None,
                         desc=desc.encode(), ldesc=[], crc=zlib.crc32(data), size=len(data),
                         date=int(os.stat(full).st_mtime), pw=s.pw.get(n, "").encode(), box=s.box(n),
                         seenby=sorted(set(a.nodes) | {aka}))
                wt[repr(sorted(t.items(), key=lambda x: x[0]))] += 1
        got = Counter()
        for k in [k for k in after if re.search(r"/tk\d+\.tic$", k) and k not in before]:
            try:
                t = norm_tic(parse_tic(after.pop(k)))
            except (ValueError, KeyError) as e:
                case.fail("description-file-malformed", "%s: %s\n%s" % (k, e, ctxt))
                continue
            case.check(len(t["path"]) == 1 and re.match(rb"%s \d{9,} " % re.escape(s4(t["frm"])).encode(), t["path"][0]),
                       "path-line", "%r\n%s" % (t["path"], ctxt))
            case.check(t.pop("created"), "created-line", ctxt)
            del t["path"]
            t["box"] = os.path.dirname(k)
            got[repr(sorted(t.items(), key=lambda x: x[0]))] += 1
        if wt != got:
            case.fail("hatch-description-files", "expected\n%s\n     got\n%s\n%s" % (
                "\n".join(wt - got), "\n".join(got - wt), ctxt))
        for k in sorted(set(after) | set(want)):
            case.evals += 1
            if after.get(k) != want.get(k):
                case.fail("hatch-file" if not k.endswith("lo") else "hatch-flow-file", "%s\nexpected %r\n     got %r\n%s" % (
                    k, want.get(k, b"(none)")[:300], after.get(k, b"(none)")[:300], ctxt))
        case.evals += 2
    case.sample = "hatch %s" % args
