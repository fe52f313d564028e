"""P28: configuration files"""
import os, re
from vlib.harness import Check, run_cmd
from vlib import native
from vlib import packrun as P
from vlib.spool import Spool
from vlib.pkt import N, Msg, Pkt
from vlib.tossmodel import fts_date


def prepare(srcs):
    return {"cftest": native.helper(srcs["asan"], "cftest", "asan"), "fixtime": native.shim(srcs["plain"], "fixtime")}


# ------------------------------------------------------------- model of the language
NAMES = ("ACL ALIASES AREAS BINDIR BTBASEDIR CHARSETMAP CONFIGDIR DBC_HISTORY FTNACL HISTORY HOSTS INBOUND LIBEXECDIR LOCKDIR LOGDIR LOGFILE "
         "NETMAILDIR OUTPKT OUTPKT_MAIL OUTPKT_NEWS OUTRFC_MAIL OUTRFC_NEWS PACKING PASSWD PINBOUND ROUTING SEQ_MAIL SEQ_MSGID SEQ_NEWS SEQ_PACK "
         "SEQ_PKT SEQ_SPLIT SEQ_TICK SEQ_TOSS SPOOLDIR SPYES TICK_HOLD TIC_HISTORY TOSS_BAD TOSS_PACK TOSS_ROUTE TOSS_TOSS UPLINKS UUINBOUND "
         "VARDIR").split()
DIRS = {"C": "CONFIGDIR", "V": "VARDIR", "I": "INBOUND", "B": "BTBASEDIR", "L": "LIBEXECDIR", "G": "LOGDIR", "S": "SPOOLDIR", "K": "LOCKDIR",
        "P": "PINBOUND", "N": "BINDIR"}
GEN = ["Organization", "Origin", "NoRewrite", "AreasXlate", "RFCLevel", "Some-Thing", "CharsetAlias", "x", "MaxMsgSize", "HubRoute1", "_u"]
VALUES = ["", "yes", "one two\tthree", "  ", "a#b", "# not a comment", "%C/file", "100%", "^\\$x", "\xe9\xff\x80 8bit", "x" * 300, "2:5030/1",
          "a  b   c  ", "'q' r", "= x", ",;:"]
BADNODE = ["abc", "2:5030/", "2:", "*", "2:*/5", "2:5030/x", "5030", "2:5030/5.x", "p1", "all", "-", "2:5030/*.1"]


def case_of(rng, s):
    return rng.choice([s, s, s.lower(), s.upper(), "".join(c.upper() if rng.random() < .5 else c.lower() for c in s)])


def node_s(n):
    return "%d:%d/%d.%d" % n


class Conf:
    """generated configuration with what it means"""
    def __init__(self, case, d):
        self.case, self.r, self.d = case, case.rng, d
        self.gen = []               # (keyword, value) in order
        self.addr, self.up, self.gate = [], [], []
        self.zones, self.dos = [], []
        self.host = self.dom = self.hosts = ""
        self.gw = (0, 0, 0, 0)
        self.env = {}
        self.bad = self.long = self.inc = 0
        self.nfile = 0
        self.keys = [case_of(self.r, k) for k in self.r.sample(GEN, self.r.randint(1, len(GEN)))]
        self.files = {}

    def q(self, s):
        """an argument, perhaps quoted"""
        r = self.r
        if r.random() < .15 or s == "" or " " in s:
            return '"%s"' % s.replace('"', '\\"')
        return s

    def kw(self, s):
        k = case_of(self.r, s)
        if self.r.random() < .04:
            k = '"%s"' % k
        return k

    def node(self):
        r = self.r
        n = (r.choice([1, 2, 2, 2, 3, 4, 5, 77, 32767]), r.choice([5030, 5030, 5020, 1, 32767]), r.choice([1, 2, 3, 100, 32767]),
             r.choice([0, 0, 0, 1, 32767]))
        if self.addr and r.random() < .1:        # zone of the main address
            return (self.addr[0][0],) + n[1:], "%d/%d" % n[1:3] + (".%d" % n[3] if n[3] else "")
        return n, "%d:%d/%d" % n[:3] + (".%d" % n[3] if n[3] or r.random() < .1 else "")

    def line(self, depth):
        r = self.r
        x = r.random()
        sep = lambda: r.choice([" ", "\t", "  ", " \t "])
        if x < .3:
            k = r.choice(self.keys)
            v = r.choice(VALUES)
            kk = case_of(r, k)
            if v.strip() and r.random() < .15:
                w = v.replace('"', "")
                self.gen.append((k.lower(), w))
                kk = kk if r.random() < .7 else '"%s"' % kk
                return kk + sep() + '"%s"' % w + r.choice(["", "  ", ' tail "'])
            if v.strip():
                v = v.lstrip(" \t")
            self.gen.append((k.lower(), v if v.strip(" \t") else ""))
            return kk + sep() + v
        if x < .5:
            k = r.choice(NAMES)
            v = r.choice(["%s/%s%d" % (self.d, k.lower(), r.randrange(9)), "%%%s/%s" % (r.choice(sorted(DIRS)), k.lower()), "relative/x", "%Zx", "%"])
            if k == "LOGFILE":
                v = r.choice([self.d + "/log/thelog%d" % r.randrange(3), "%G/thelog"])
            if k == "LOGDIR":
                v = self.d + "/log"
            self.gen.append((k.lower(), v))
            return self.kw(k) + sep() + v
        if x < .62:
            n, s = self.node()
            k, l = r.choice([("Address", self.addr), ("Uplink", self.up), ("GateAddress", self.gate), ("Address", self.addr)])
            if len(l) < 32:
                l.append(n)
            return self.kw(k) + sep() + self.q(s) + r.choice(["", " ", " rest of line"])
        if x < .7:
            z = r.choice([0, 1, 2, 3, 4, 5, 99, 32767])
            t = (z, ".z%d.example.org" % z, "ftn%d" % r.randrange(9), "out.%03x%d" % (z, r.randrange(9)))
            if len(self.zones) < 32:
                self.zones.append(t)
            return self.kw("zone") + sep() + (case_of(r, "default") if not z else "%d" % z) + sep() + sep().join(self.q(a) for a in t[1:])
        if x < .76:
            drv = r.choice(["C:", "d:", "E:\\fido", "f"])
            t = (drv, "/" + r.choice(["srv/%s" % drv[0], "srv", "home/With Blank", "home"]))
            if len(self.dos) < 16:
                self.dos.append(t)
            return self.kw("DosDrive") + sep() + t[0] + sep() + ('"%s"' % t[1] if " " in t[1] else self.q(t[1]))
        if x < .84:
            w = r.choice(["hostname", "domain", "hostsdomain", "gateway"])
            v = r.choice(["gate", "a.example.org", ".b.example", "c"])
            if w == "hostname":
                self.host = v
            elif w == "domain":
                self.dom = self.hosts = v if v[0] == "." else "." + v
            elif w == "hostsdomain":
                self.hosts = v if v[0] == "." else "." + v
            else:
                self.gw, v = self.node()
            return self.kw(w) + sep() + self.q(v)
        if x < .92:
            self.bad += 1
            return r.choice(["include", "include ", "Address", "Address " + r.choice(BADNODE), "Uplink " + r.choice(BADNODE), "Uplink", "GateAddress " + r.choice(BADNODE),
                             "gateaddress", "Zone", "Zone 2", "Zone abc .x y z", "Zone default", "Zone 3 .x", "Zone 3 .x fido", "Zone 0 .x y z", "hostname", "Domain",
                             "hostsDomain ", "DosDrive", "DosDrive Q:", "gateway", "Gateway " + r.choice(BADNODE), "zone -x .y z w"])
        if depth < 4 and x < .97:
            self.inc += 1
            return self.kw("include") + sep() + self.q(self.include(depth + 1)) + r.choice(["", "  ", " ignored"])
        return r.choice(["", "   ", "\t", "# comment", "   # Address 9:9/9", "#include /nonexistent", "\t#", "  \t  "])

    def include(self, depth):
        self.nfile += 1
        name = "%s/etc/inc%d" % (self.d, self.nfile)
        if self.r.random() < .1:
            name += " with blank"
        self.write(name, depth)
        if "FIDOGATE_CONFIGDIR" in self.env and self.r.random() < .5:
            name = "%C" + name[len(self.env["FIDOGATE_CONFIGDIR"]):]
        return name

    def write(self, path, depth=0):
        r = self.r
        n = r.choice([1, 5, 20, 60]) if not depth else r.choice([0, 1, 3, 10])
        out = []
        for _ in range(n):
            l = r.choice(["", "", "", " ", "\t", "   "]) + self.line(depth)
            if r.random() < .004:
                self.long += 1
                l += "\n" + "#" * r.choice([32765, 32766, 32767, 40000]) + " Address 9:9/9" * r.choice([1, 3000])
            out.append(l + r.choice(["\n"] * 6 + ["\r\n"]))
        t = "".join(out)
        if out and r.random() < .3:
            t = t.rstrip("\r\n")
        with open(path, "wb") as f:
            f.write(t.encode("latin1"))
        os.chmod(path, 0o644)

    # what programs have to see
    def strings(self, k):
        return [v for a, v in self.gen if a == k.lower()]

    def path(self, k):
        if "FIDOGATE_" + k in self.env:
            return self.env["FIDOGATE_" + k]
        if k == "CONFIGDIR" and "FIDOGATE" in self.env:
            return self.env["FIDOGATE"]
        s = self.strings(k)
        return s[0] if s else None

    def expand(self, s):
        if s[:1] == "%" and s[1:2] in DIRS and s[1:2]:
            p = self.path(DIRS[s[1]])
            return None if p is None else p + s[2:]
        return s


def best(addrs, z, net, node):
    for f in (lambda a: a[0] == z and a[1] == net and a[2] == node, lambda a: a[0] == z and a[1] == net, lambda a: a[0] == z):
        for i, a in enumerate(addrs):
            if f(a):
                return 0, i
    return 1, 0


def language(case):
    r = case.rng
    sp = Spool(case)
    sp.write_conf()
    c = Conf(case, sp.d)
    for k in r.sample(NAMES, r.choice([0, 0, 3, 10])):
        c.env["FIDOGATE_" + k] = r.choice([sp.d + "/env/" + k, "%%%s/env" % r.choice(sorted(DIRS))])
    c.env.pop("FIDOGATE_LOGFILE", None)
    c.env.pop("FIDOGATE_LOGDIR", None)
    c.env.pop("FIDOGATE_CONFIGDIR", None)
    if r.random() < .4:
        c.env["FIDOGATE_CONFIGDIR"] = sp.d + "/etc"
    if r.random() < .2:
        c.env["FIDOGATE"] = sp.d
    f = sp.p("etc/main.conf")
    c.write(f)
    if not c.strings("LOGFILE"):
        with open(f, "ab") as fh:
            fh.write(b"\nLOGFILE " + (sp.d + "/log/endlog\n").encode())
        c.gen.append(("logfile", sp.d + "/log/endlog"))
    env = {k: None for k in ("FIDOGATE_CONFIGDIR",)}
    env.update(c.env)
    gate = r.random() < .4
    Q, W = [], []
    addrs = list(c.addr)
    ups = [(c.up + [(0, 0, 0, 0)] * 40)[i] for i in range(len(addrs))]
    zone0 = addrs[0][0] if addrs else 0
    main = [(addrs or [(0, 0, 0, 0)])[0], (ups + c.up + [(0, 0, 0, 0)])[0]]
    curr, uplink = ((addrs[0] if addrs else (0, 0, 0, 0)), (c.up[0] if c.up else (0, 0, 0, 0)))
    zones4 = [a[0] for a in addrs]
    if gate:
        if c.gate:
            for i in range(len(addrs)):
                if i < len(c.gate):
                    ups[i], addrs[i] = addrs[i], c.gate[i]
        elif not c.up:
            ups = list(addrs)
    if c.gate and gate and not addrs:
        mainaddr = c.gate[0]
    else:
        mainaddr = addrs[0] if addrs else (0, 0, 0, 0)
    W += ["hostname " + c.host, "domain " + c.dom, "hostsdomain " + c.hosts, "fqdn " + c.host + c.dom, "zone %d" % zone0, "defzone %d" % zone0,
          "main " + node_s(mainaddr), "curr " + node_s(curr), "uplink " + node_s(uplink), "gateway " + node_s(c.gw)]
    W += ["addr " + node_s(a) for a in addrs] + ["dom " + z[1] for z in c.zones] + ["out " + z[3] for z in c.zones] + ["dos %d" % (len(c.dos) > 0)]
    for k in sorted(set(x.lower() for x in c.keys)) + ["logfile", "NoSuchKey", "address", "vardir"]:
        k = case_of(r, k)
        Q.append("S " + k)
        W += ["S %s=%s" % (k, v) for v in c.strings(k)]
    zs = dict((z[0], z) for z in reversed(c.zones))
    for z in [0, 1, 2, 3, 4, 5, 6, 99, 32767]:
        d = zs.get(z) or zs.get(0)
        Q.append("Z %d" % z)
        if z or 0 in zs:
            W.append("Z %d %s %s %s %d" % (z, d[1] if d else "INVALID_FTN_ADDRESS", d[2] if d else "fidonet", zs[z][3] if z in zs else "(none)", z != 0 and z in zs))
        else:
            W.append(None)
    for z in [1, 2, 3, 77, 6]:
        for net, node in ((5030, 1), (5030, 100), (5020, 3), (-1, -1), (9, 9)):
            Q.append("B %d %d %d" % (z, net, node))
            if not addrs:
                W.append("B %d %d %d -1 -1" % (z, net, node))
                continue
            # the zone of an entry stays that of its Address
            rc, i = best([(zones4[k],) + a[1:] for k, a in enumerate(addrs)], z, net, node)
            W += ["B %d %d %d %d %d" % (z, net, node, rc, i), "aka " + node_s(addrs[i]), "up " + node_s(ups[i])]
    for k in NAMES:
        Q.append("P " + k)
        p = c.path(k)
        W.append(None if p is None else "P %s %s" % (k, p))
        if p is not None:
            Q.append("X " + p)
            e = c.expand(p)
            W.append(None if e is None else "X " + e)
    for p in ["%S/x", "%C", "%Q/x", "%%", "%", "x%C/y", "/abs", ""]:
        Q.append("X " + p)
        e = c.expand(p)
        W.append(None if e is None else "X " + e)
    for p in ["/srv/c/FILE.TXT", "/srv/x", "/home/With Blank/y/z", "/home/u", "/other", "/"]:
        Q.append("D " + p)
        t = next(((d, u) for d, u in c.dos if p.startswith(u)), None)
        W.append("D " + ((t[0] + p[len(t[1]):]).replace("/", "\\") if t else "(none)"))
    for p in ["c:\\file.txt", "D:x", "e:\\FIDO\\a\\b", "Ff", "g:\\x", "C"]:
        Q.append("U " + p)
        t = next(((d, u) for d, u in c.dos if p.lower().startswith(d.lower())), None)
        W.append("U " + ((t[1] + p[len(t[0]):]).replace("\\", "/") if t else "(none)"))
    Q.append("L the message")
    R = run_cmd([case.ctx["cftest"], f] + (["g"] if gate else []), sp.d, dict(sp.env(), **env), ("\n".join(Q) + "\n").encode("latin1"), 60)
    case.seen("configurations")
    case.seen("config_includes", c.inc)
    case.seen("config_malformed", c.bad)
    case.seen("config_overlong", c.long)
    case.seen("config_env", len(c.env))
    if not case.san(R):
        return
    got = R.out.decode("latin1").split("\n")[:-1]
    case.evals += len(W)
    diff = [(w, g) for w, g in zip(W, got) if w is not None and w != g]
    if case.check(len(got) == len(W) and not diff and R.rc == 0, "meaning-" + (diff[0][0].split(" ")[0] if diff else "lines"),
                  "%s: rc %d, %d/%d lines; (wanted, got): %s %s" % (f, R.rc, len(got), len(W), diff[:3], R.err[-200:])):
        case.sig(len(c.addr), len(c.up), len(c.gate), len(c.zones), len(c.dos), c.inc, c.bad > 0, len(c.env), gate)
    # messages about the configuration, and later ones, go to the configured log
    lf = c.expand(c.path("LOGFILE"))
    if lf is not None:
        t = open(lf, "rb").read().decode("latin1") if os.path.exists(lf) else ""
        case.check("the message" in t, "log", "the log %s doesn't have the message: %r %r; malformed lines %d" % (lf, t[-200:], R.err[-200:], c.bad))
    # confval prints the same
    for k in r.sample(c.keys, min(2, len(c.keys))):
        k = case_of(r, k)
        R = case.run("util/confval", ["-c", f, "-p", k], env=dict(sp.env(), **env), cwd=sp.d)
        if case.san(R):
            w = "".join(v + "\n" for v in c.strings(k))
            case.check(R.out.decode("latin1") == w, "confval", lambda: "confval -p %s: %r, wanted %r" % (k, R.out[:300], w[:300]))
    sp.drop()


# ------------------------------------------------------------- the same file in other words
MALFORMED = {
    "fidogate.conf": ["include", "Address", "Address abc", "Uplink xyz", "Zone", "Zone abc x y z", "Zone 3 .x", "Domain", "Hostname", "DosDrive C:", "Gateway",
                      "Frobnicate yes", "GateAddress 2:5030/"],
    "hosts": ["garbage", "abc def", "2:5030/9", "include", "2:*/9 x", "- x"],
    "aliases": ["foo", "foo bar baz", "foo 2:5030/1", "include", "foo 2:*/1 \"x y\""],
    "passwd": ["af", "packet 2:5030/1", "packet xyz PWD", "include", "tic 2:*/1 X"],
    "acl": ["*", "include"],
    "areas": ["ALPHA", "NOGROUP", "include"],
    "routing": ["frobnicate", "route", "route sideways 2:5030/1", "route normal", "include", "remap 2:5030/1", "remap x y z", "send hold abc", "change normal", "xroute normal 1:1/1",
                "hubroute", "rewrite 2:5030/1", "route hold 2:abc"],
    "packing": ["frob", "pack", "pack nosuch 2:5030/1", "pack noarc", "dirmove", "arc x", "include", "unarc", "unarc zip", "pack noarc abc", "dirpack /x", "prog", "progn x"],
    "uplinks": ["af", "af *", "af * xyz rob pw", "include", "af ALPHA 2:5030/1"],
    "spyes": ["2:5030/1", "x y", "include", "2:5030/1 2:*/1"],
}
PATHKEYS = set(NAMES)


def rewrite(case, sp, rel, env, bad):
    """another text of the configuration file that has to mean the same"""
    r = case.rng
    name = os.path.basename(rel)
    lines = [l for l in sp.get(rel).decode("latin1").split("\n") if l.strip()]
    main = name == "fidogate.conf"
    if main:
        keyof = lambda l: l.split()[0].lower()
        if r.random() < .7:         # the order of different keywords doesn't matter
            by = {}
            for l in lines:
                by.setdefault(keyof(l), []).append(l)
            o = [keyof(l) for l in lines]
            r.shuffle(o)
            lines = [by[k].pop(0) for k in o]
            case.seen("rewrite_shuffled")
        out, tail = [], []
        for l in lines:
            k, v = (l.split(None, 1) + [""])[:2]
            if k in PATHKEYS and k != "CONFIGDIR" and r.random() < .25:
                if r.random() < .5:
                    env["FIDOGATE_" + k] = v    # the environment instead
                    if r.random() < .5:
                        out.append("%s /nonexistent/%s" % (k, k))
                    case.seen("rewrite_env")
                else:                           # the first one counts
                    out.append(l)
                    tail.append("%s /nonexistent/%s" % (k, k))
                    case.seen("rewrite_second")
                continue
            out.append(case_of(r, k) + r.choice([" ", "\t", "   "]) + v)
        if r.random() < .5:
            for i, l in enumerate(out):
                k, v = (l.split(None, 1) + [""])[:2]
                if k.upper() in PATHKEYS - set(DIRS.values()) and v.startswith("%") and r.random() < .3:
                    d = {"C": sp.p("etc"), "V": sp.p("var"), "B": sp.p("bt"), "L": sp.p("lib"), "G": sp.p("log"), "S": sp.p("spool")}.get(v[1])
                    if d:
                        out[i] = k + " " + d + v[2:]
                        case.seen("rewrite_unabbreviated")
        lines = out + tail
    elif name in ("routing", "packing"):
        lines = [re.sub(r"^\w+", lambda m: case_of(r, m[0]), l) for l in lines]
    lines = [l if main or r.random() < .5 else l.replace(" ", "\t", 1) for l in lines]
    cnt = [0]

    def emit(ls, depth):
        o = []
        i = 0
        while i < len(ls):
            x = r.random()
            if x < .12:
                o.append(r.choice(["", "  ", "# comment", "\t# include /nonexistent", "#" + ls[i]]))
                case.seen("rewrite_comments")
            elif x < .2 and bad:
                o.append(r.choice(MALFORMED[name]))
                case.seen("rewrite_malformed")
            elif x < .3 and depth < 4:
                n = r.randint(0, min(8, len(ls) - i))
                cnt[0] += 1
                f = "inc.%s.%d" % (name, cnt[0])
                sp.put("etc/" + f, emit(ls[i:i + n], depth + 1))
                o.append(case_of(r, "include") + r.choice([" ", "\t", "  "]) + r.choice(["%C/", sp.p("etc") + "/"]) + f)
                case.seen("rewrite_includes")
                i += n
            else:
                o.append(r.choice(["", "", " ", "\t"]) + ls[i])
                i += 1
        nl = r.choice(["\n", "\n", "\n", "\r\n"])
        return nl.join(o) + (nl if o and r.random() < .8 else "")

    sp.put(rel, emit(lines, 0))


US, LINKS = N("2:5030/100"), [N("2:5030/1"), N("2:5030/2"), N("2:5020/3")]
T0 = 1700000000
WORDS = ["alpha", "beta", "gamma", "delta"]


def session(case, sp, r, env):
    """all programs in turn; everything below the directory at the end"""
    lib = case.ctx["fixtime"]
    outs = []

    def run(prog, *a, input=None):
        for i, (p, _) in enumerate(sorted(sp.tree("spool").items()) + [("../bt/" + k, v) for k, v in sorted(sp.tree("bt").items())]):
            os.utime(os.path.join(sp.p("spool"), p), (T0 - 100000 + i * 60,) * 2)
        T[0] += 10
        R = sp.run(prog, *a, input=input, env=dict(env, LD_PRELOAD=lib, FIXTIME=str(T[0])), variant="plain")
        case.san(R)
        outs.append((prog, R.rc, R.out.replace(sp.d.encode(), b"@"), b"\n".join(l for l in R.err.replace(sp.d.encode(), b"@").split(b"\n"))))
    T = [T0]
    n = 0

    def netmail(frm, to, name=b"sysop", subj=b"s", body=b""):
        nonlocal n
        n += 1
        return Msg(b"From %d" % n, name, subj, b"\x01INTL %s %s\r\x01MSGID: %s %08x\rbody %d\r" % (to.s3().encode() if hasattr(to, "s3") else b"%d:%d/%d" % (to.zone, to.net, to.node),
                   b"%d:%d/%d" % (frm.zone, frm.net, frm.node), frm.s().encode(), n, n) + body, frm, to, 1, 0, fts_date(T0))

    def echo(area, frm):
        nonlocal n
        n += 1
        return Msg(b"From %d" % n, b"All", b"s%d" % n, b"AREA:%s\r\x01MSGID: %s %08x\rtext %d\r--- t\r * Origin: x (%s)\rSEEN-BY: %d/%d\r\x01PATH: %d/%d\r" % (
            area.encode(), frm.s().encode(), n, n, frm.s().encode(), frm.net, frm.node, frm.net, frm.node), frm, US, 0, 0, fts_date(T0))

    areas = ["ALPHA", "BETA", "GAMMA", "LOCAL.X"]
    for i in range(3):
        frm = r.choice(LINKS)
        ms = [netmail(frm, r.choice(LINKS + [US]), r.choice([b"sysop", b"john", b"Jane Doe", b"ping"])) for _ in range(2)] + [echo(r.choice(areas), frm) for _ in range(3)]
        p = Pkt(frm, US, ms)
        p.pw = PW.get(frm.s(), b"")
        sp.put("bt/pin/%08d.pkt" % i, p.raw())
    for l in LINKS:
        if r.random() < .7:
            p = Pkt(l, US, [netmail(l, US, b"areafix", r.choice([b"AF%d" % l.node] * 4 + [b"bad"]), r.choice([b"%list\r", b"+BETA\r", b"-ALPHA\r%query\r", b"+*\r", b"+NEW.ONE\r%list\r", b"+NEW.TWO\r", b"%avail\r+OTHER\r"]))])
            p.pw = PW.get(l.s(), b"")
            sp.put("spool/af/%d.pkt" % l.node, p.raw())
    run("toss/ftntoss")
    for f in sp.ls("spool/af"):
        run("areafix/ftnafpkt", f)
    for i in range(4):
        frm = r.choice(["john@gate.example.org", "Jane Doe <jane@gate.example.org>", "x@other.example.org", "user@h1.example.org"])
        to = r.choice(["sysop@f1.n5030.z2.fidonet.org", "Jane_Doe@p3.f2.n5030.z2.fidonet.org", "sysop@h2.example.org", "alias1@gate.example.org"])
        run("gate/rfc2ftn", "-i", "-t", input=("From: %s\nTo: %s\nSubject: t%d\nMessage-ID: <m%d@gate.example.org>\nDate: Sat, 20 Jan 2024 12:00:00 +0000\n\nbody %d\n" % (
            frm, to, i, i, i)).encode())
    for i in range(3):
        run("gate/rfc2ftn", "-i", "-n", input=("From: %s\nNewsgroups: %s\nSubject: t%d\nMessage-ID: <n%d@gate.example.org>\nDate: Sat, 20 Jan 2024 12:00:00 +0000\n\nbody %d\n" % (
            "john@gate.example.org", r.choice(["fido.alpha", "fido.beta", "fido.local.x", "fido.gamma", "none.such"]), i, i, i)).encode())
    for d in ("outpkt", "outpkt/mail", "outpkt/news"):
        for f in sp.ls("spool/" + d, "*.pkt"):
            os.rename(f, sp.p("bt/pin/%s%s" % (d.replace("/", "")[-4:], os.path.basename(f))))
    run("toss/ftntoss")
    run("toss/ftnroute")
    gate = sp.ls("spool/toss/route", "*.pkt")
    run("toss/ftnpack")
    for i in range(2):
        sp.put("bt/in/g%d.pkt" % i, Pkt(US, US, [netmail(r.choice(LINKS), US, r.choice([b"john", b"Jane Doe", b"x@y.example.org"])) for _ in range(2)] +
                                      [echo(r.choice(areas), r.choice(LINKS)) for _ in range(2)]).raw())
    run("gate/ftn2rfc", "-i", "-I", sp.p("bt/in"))
    t = {k: v.replace(sp.d.encode(), b"@") for k, v in sp.tree().items() if k != "events" and (not k.startswith("etc/") or k.startswith("etc/areas.bbs"))}
    return outs, t


PW = {}


def build(case, name, r):
    opts = [o for o in ["DupeCheck", "NoRewrite", "TossEchoMail4D", "RFCLevel 2", "UseXHeaderForTearline", "Organization Test Org", "Origin The Origin", "NoFromLine",
                        "NetMailQuotedPrintable", "SupportPing", "AreaFixCreateUplinkOption", "AreaFixName areafix", "AutoCreateNG", "KillInsecure", "HostsRestricted", "LimitMsgSize 20000",
                        "AreasXlate ._ _."] if r.random() < .35]
    sp = Spool(case, name=name, addrs=("2:5030/100", "1:5030/100") if r.random() < .3 else ("2:5030/100",), conf=opts)
    for d in ("spool/af", "dir0", "bin"):
        os.makedirs(sp.p(d), exist_ok=True)
    sp.put("etc/areas.bbs", "# areas\n" + "".join("#- %s %s\n" % (a, " ".join(x.s() for x in r.sample(LINKS, r.randint(1, 3)))) for a in ["ALPHA", "BETA", "GAMMA"]))
    sp.put("etc/areas", "ALPHA fido.alpha -a 2:5030/100 -o \"My Origin\"\nBETA fido.beta -z 2 -R 1\nGAMMA fido.gamma -g -X \"X-Test: yes\"\nLOCAL. fido.local. -H -d local\n")
    sp.put("etc/hosts", "2:5030/1 h1 -p\n2:5030/2 h2.example.org.\n2:5020/3 h3 -d\n")
    sp.put("etc/aliases", "jane 2:5030/100 \"Jane Doe\"\njohn 2:5030/100 \"John D\"\nalias1@other.example.org 2:5030/2 \"Al Ias\"\nalias1 2:5030/1 \"Second\"\n")
    sp.put("etc/passwd", "".join("af %s AF%d 50 %s\n" % (l.s(), l.node, "ab$&~%%") for l in LINKS) + "packet 2:5030/1 PWD1\n")
    PW.clear()
    PW["2:5030/1"] = b"PWD1"
    sp.put("etc/acl", "Netmail\n*@gate.example.org *\nuser@* *\nEchoMail\n*@gate.example.org fido.*\nx@* none.*\n")
    sp.put("etc/routing", "netmail\nroute normal 2:5030/1 2:5020/*\nsend hold 2:5030/2\nchange normal crash 2:5030/3\nremap 2:5030/9 2:5030/1\nechomail\n"
           "send normal 2:5030/1\nroute hold 2:5030/2\nroute crash 2:5020/3\nsend normal *\n")
    sp.put("bin/arc.sh", P.ARC % dict(d=sp.d, fail="NEVERMATCH"))
    sp.put("etc/packing", 'arc zip "sh %s %%s %%s"\narc noarc ""\nnetmail\npack noarc 2:5030/1\npack zip 2:5030/2\ndirmove %s 2:5020/3\nechomail\npack zip 2:5030/1\npack noarc *\n' % (
        sp.p("bin/arc.sh"), sp.p("dir0")))
    sp.put("etc/uplinks", "af NEW.* 2:5030/0 areafix PWUP\naf OTHER,!X 2:5020/3 areafix PW3\n")
    sp.put("etc/spyes", "2:5030/2 2:5020/3\n")
    for x in ("unknown", "local", "malformed"):
        sp.put("etc/bounce." + x, "bounce %s\n" % x)
    sp.write_conf()
    return sp


FILES = ["fidogate.conf", "hosts", "aliases", "passwd", "acl", "areas", "routing", "packing", "uplinks", "spyes"]


def same(case):
    import random
    seed = case.rng.getrandbits(48)
    a = build(case, "s1", random.Random(seed))
    b = build(case, "s2", random.Random(seed))
    env = {}
    bad = case.rng.random() < .6
    todo = FILES if case.rng.random() < .5 else case.rng.sample(FILES, 2)
    for f in todo:
        rewrite(case, b, "etc/" + f, env, bad)
    from vlib.harness import chown_tree
    chown_tree(b.d)
    oa, ta = session(case, a, random.Random(seed + 1), {})
    ob, tb = session(case, b, random.Random(seed + 1), env)
    case.seen("sessions")
    case.seen("session_runs", len(oa))
    case.seen("session_files", len(ta))
    if bad:     # the malformed lines are reported
        for t in (ta, tb):
            t.pop("log/log", None)
    names = lambda t: {k: v for k, v in t.items()}
    diff = sorted(set(ta) ^ set(tb)) or [k for k in sorted(ta) if ta[k] != tb[k]]
    def text(k):
        x, y = ta.get(k, b""), tb.get(k, b"")
        i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        return "%r / %r" % (x[max(0, i - 60):i + 100], y[max(0, i - 60):i + 100])
    case.check(not diff, "differs", lambda: "rewritten %s, env %s: %s differ%s: %s" % (todo, sorted(env), diff[:6], "", text(diff[0])))
    rc = [(x[:2], y[:2]) for x, y in zip(oa, ob) if x[:2] != y[:2]]
    case.check(not rc, "status", lambda: "rewritten %s: exit status %s %r" % (todo, rc[:3], [y[3][-200:] for x, y in zip(oa, ob) if x[:2] != y[:2]][:2]))
    case.evals += len(ta)
    if not diff:
        case.sig(tuple(todo), bad, len(env), sorted(k.split("/")[0] + k.split("/")[-1][-4:] for k in ta)[:40])
    # (how much the sessions depend on a file: without it they must differ at times)
    if case.index % 4 == 0:
        f = FILES[1 + (case.index // 4) % 9]
        c = build(case, "s3", random.Random(seed))
        c.put("etc/" + f, "")
        oc, tc = session(case, c, random.Random(seed + 1), {})
        ta.pop("log/log", None)
        tc.pop("log/log", None)
        case.seen("without_%s_%s" % (f, "differs" if ta != tc or [o[:2] for o in oa] != [o[:2] for o in oc] else "same"))
        c.drop()
    a.drop()
    b.drop()


CHECK = Check("P28", "exploration",
              "generated configurations (includes, cases, quoting, comments, malformed and overlong lines, environment) are read by the library and confval, and "
              "every value is compared with an independent model; sessions of all programs with configuration files rewritten in another form must leave the same files",
              ["time and process number stand still in the sessions"],
              variants=("asan", "plain"), prepare=prepare)
CHECK.phase("language", language, 500, 6000)
CHECK.phase("same", same, 48, 700)
