"""P18: every recipient and every gated newsgroup gets a message exactly once"""
import re, base64, fnmatch
from collections import Counter
from vlib.harness import Check
from vlib.spool import Spool
from vlib import gate as G
from vlib.pkt import N

SENDERS = [("ivan@example.org", None), ("local@gate.example.org", "Local"), ("joe@trusted.net", "Joe"), ("spam@bad.com", "S Pam"), ("nobody@unlisted.zz", None)]


def wm(s, p):
    return re.fullmatch("".join(".*" if c == "*" else re.escape(c) for c in p), s) is not None


def acl_ok(acl, email, item):
    pats = None
    for e, p in acl:
        if wm(email, e):
            pats = p
    if pats is None:
        return False
    m = False
    for p in pats.split(","):
        if p.startswith("!"):
            if wm(item, p[1:]):
                m = False
        elif wm(item, p):
            m = True
    return m


def mk_areas(rng):
    """[(AREA or prefix, group or prefix, flags set, limit)]"""
    A = []
    for i in range(rng.choice([1, 3, 6, 10])):
        fl = set()
        if rng.random() < .2:
            fl.add("x")
        elif rng.random() < .2:
            fl.add("l")
        A.append(("AREA.%d" % i, "fido.g%d" % i, fl, rng.choice([None, None, None, 500, 3000]), rng.choice([1, 2])))
    if rng.random() < .3:
        A.append(("", "fido.hier.no.", {"!", "H"}, None, 2))
    if rng.random() < .6:
        A.append(("H.", "fido.hier.", {"H"}, None, 2))
    if rng.random() < .3:
        A.append(("X", "fido.g1x", set(), None, 2))
    return A


def lookup(A, g):
    for a, gr, fl, lim, z in A:
        if "H" in fl:
            if g.startswith(gr):
                return None if "!" in fl else (a + g[len(gr):].upper(), g, fl, lim, z)
        elif g == gr:
            return (a, gr, fl, lim, z)
    return None


def body(rng, i, size):
    L = ["START-%d" % i]
    while sum(map(len, L)) + len(L) < size:
        L.append(rng.choice(["some text line", "", "#! rnews 100", "Subject: x", ".", "x" * 60, "Newsgroups: fido.g0", "To: a@f1.n1.z2.fidonet.org"]))
    L.append("END-%d" % i)
    return L


def news(case):
    rng = case.rng
    A = mk_areas(rng)
    C = ["DefaultCharset cp866:cp866:utf-8:utf-8", "Origin o", "RFCLevel %d" % rng.choice([0, 2])]
    check_bbs = rng.random() < .3
    if check_bbs:
        C.append("CheckAreasBBS")
    glim = rng.choice([None, None, None, 2000])
    if glim:
        C.append("LimitMsgSize %d" % glim)
    xp = rng.random() < .3
    if xp:
        C.append("AddressIsLocalForXPost *@trusted.net")
    if rng.random() < .3:
        C.append("SinglePKTs")
    if rng.random() < .3:
        C.append("NoDBCHistory")
    if rng.random() < .2:
        C.append("MaxMsgSize 400")
    sp = Spool(case, addrs=["2:5030/100", "1:17/3"], conf=C)
    sp.put("etc/areas", "".join("%s %s%s%s%s\n" % (('""' if not a else a), g, "".join(" -" + f for f in sorted(fl)), " -L %d" % lim if lim else "", " -z %d" % z if z != 2 else "") for a, g, fl, lim, z in A))
    acl = [("*", rng.choice(["*", "fido.*", "*,!fido.g0", "*,!fido.g*,fido.g2"]))] if rng.random() < .8 else []
    for e, _ in SENDERS:
        if rng.random() < .25:
            acl.append((e, rng.choice(["*", "fido.g1", "!*", "*,!fido.g1*", "alt.*", "fido.hier.*"])))
    sp.put("etc/acl", "Netmail\n* *\nEchoMail\n" + "".join("%s\t%s\n" % x for x in acl) + "ftn2rfc\n* !*\n")
    dl = {}
    if check_bbs:
        t = "comment\n"
        for a, g, fl, lim, z in A:
            if "H" in fl:
                continue
            k = rng.choice([None, 0, 1, 2, "gate"])
            dl[a] = {None: 0, 0: 0, 1: 1, 2: 2, "gate": 0}[k]
            us = "1:17/3" if z == 1 else "2:5030/100"
            if k is not None:
                t += "# %s %s\n" % (a, {0: "", 1: "2:5030/5", 2: "2:5030/5 6", "gate": us}[k])
        sp.put("etc/areas.bbs", t)
        sp.conf.append("AreasBBS %s/etc/areas.bbs" % sp.d)
    arts = []
    pool = [g for _, g, fl, _, _ in A if "H" not in fl] + ["fido.hier.a.b", "fido.hier.no.x", "alt.test", "fido", "fido.g", "fido.g1xx", "fido.hier", "misc.x"]
    for i in range(rng.choice([1, 1, 2, 5])):
        snd = rng.choice(SENDERS)
        gs = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3, 6])))
        dup = gs + ([rng.choice(gs)] if rng.random() < .15 else [])
        L = body(rng, i, rng.choice([10, 100, 100, 1200, 9000]))
        ctl = rng.random() < .08
        hd = ["From: " + ("%s <%s>" % (snd[1], snd[0]) if snd[1] else snd[0]), "Newsgroups: " + rng.choice([",", ",", ", "]).join(dup), "Subject: art %d" % i,
              "Message-ID: <%d.%d@example.org>" % (case.index, i), "Date: Mon, 01 Jan 2024 12:00:00 +0000"] + (["Control: cancel <x@y>"] if ctl else [])
        rng.shuffle(hd)
        raw = ("\n".join(hd) + "\n\n" + "".join(l + "\n" for l in L)).encode()
        size = sum(len(l) + 2 for l in L)
        exp = []
        amb = False
        for g in ([] if ctl else gs):
            a = lookup(A, g)
            if not a:
                continue
            an, gr, fl, lim, z = a
            if check_bbs and dl.get(an, 0) <= 0:
                continue
            if len(dup) > 1 and "x" in fl:
                continue
            if len(dup) > 1 and "l" in fl and not (snd[0].endswith("@gate.example.org") or xp and snd[0].endswith("@trusted.net")):
                continue
            if not acl_ok(acl, snd[0], gr):
                continue
            lm = lim or glim
            if lm and size > lm:
                if size < lm * 1.3:
                    amb = True
                continue
            exp.append(an)
        arts.append((raw, L, exp, "1" if len(gs) == 1 else "n"))
        if amb:
            return
    mode = rng.choice(["b", "f", "n"]) if len(arts) == 1 else rng.choice(["b", "f"])
    if mode == "b":
        r = sp.run("gate/rfc2ftn", "-b", input=b"".join(b"#! rnews %d\n" % len(x[0]) + x[0] for x in arts), variant="asan")
    elif mode == "n":
        r = sp.run("gate/rfc2ftn", "-n", input=arts[0][0], variant="asan")
    else:
        lst = ""
        for i, x in enumerate(arts):
            sp.put("news/art/%d" % i, x[0])
            lst += sp.p("news/art/%d" % i) + rng.choice(["", " <id@x>", " 123"]) + "\n"
            if rng.random() < .1:
                lst += sp.p("news/art/gone%d" % i) + "\n"
        sp.put("news/list", lst)
        start = 0
        if rng.random() < .2:
            # continued after an interruption
            start = rng.randrange(len(arts))
            pos = lst.index(sp.p("news/art/%d" % start) + "\n") if sp.p("news/art/%d" % start) + "\n" in lst else lst.index(sp.p("news/art/%d" % start) + " ")
            sp.put("news/list.pos", "%d\n" % pos)
            arts = [(r_, L, e if i >= start else [], k) for i, (r_, L, e, k) in enumerate(arts)]
        r = sp.run("gate/rfc2ftn", "-f", sp.p("news/list"), variant="asan")
        case.check(not sp.ls("news", "list*"), "list-left", "list file is left after processing")
    if not case.san(r):
        return
    got = Counter()
    ctx = lambda: "\n%s\nareas %s\nacl %r\nlog %s" % (mode, A, acl, sp.log()[-600:])
    texts = {}
    for p, k in sp.read_pkts("spool/outpkt/news"):
        for m in k.msgs:
            f = G.Ftn(m)
            mm = re.match(rb"(?:\d\d: )?art (\d+)$", m.subj)
            if not case.check(mm and f.area, "strange", lambda: "message %r area %r%s" % (m.subj, f.area, ctx())):
                return
            t = [l.decode("latin-1") for l in f.lines[:-4] if not l.startswith(b"\x01")]
            if t and t[0].startswith("From: "):
                while t.pop(0):
                    pass
            texts.setdefault((int(mm.group(1)), f.area.decode()), []).append(t)
    case.check(not sp.read_pkts("spool/outpkt/mail"), "mail", "netmail was created")
    for i, (raw, L, exp, k) in enumerate(arts):
        g = {a: t for (j, a), t in texts.items() if j == i}
        miss, extra = [a for a in exp if a not in g], [a for a in g if a not in exp]
        case.check(not miss, "missing", lambda: "article %d (%r) was not gated to %s%s" % (i, raw[:300], miss, ctx()))
        case.check(not extra, "extra", lambda: "article %d (%r) was gated to %s, must only to %s%s" % (i, raw[:300], extra, exp, ctx()))
        for a in exp:
            if a not in g:
                continue
            st = sum(p.count("START-%d" % i) for p in g[a])
            case.check(st == 1, "count", lambda: "article %d: %d copies for area %s%s" % (i, st, a, ctx()))
            j = [l for p in g[a] for l in p]
            case.check(j == L, "content", lambda: "article %d in %s has another text (%d lines instead of %d)%s" % (i, a, len(j), len(L), ctx()))
            case.seen("area_copies")
        case.seen("articles")
        case.sig("news", mode, k, len(exp), check_bbs, bool(glim), len(arts) > 1)
    case.check(set(j for j, _ in texts) <= set(range(len(arts))), "strange", "unknown articles")
    case.sample = "news %s: %d articles -> %s" % (mode, len(arts), [e for _, _, e, _ in arts])


def rcpt(rng, i):
    """(plain address, node or None, name)"""
    u = "user%d" % i
    if rng.random() < .75:
        n = N("2:%d/%d%s" % (rng.choice([5030, 5020]), rng.randrange(1, 500), rng.choice(["", "", ".7"])))
        return u + "@" + ("p%d." % n.point if n.point else "") + "f%d.n%d.z%d.fidonet.org" % (n.node, n.net, n.zone), n, "User%d" % i
    return u + "@" + rng.choice(["example.com", "localhost", "f1.fidonet.org"]), None, "User%d" % i


def mail(case):
    rng = case.rng
    C = ["DefaultCharset cp866:cp866:utf-8:utf-8"]
    lim = rng.choice([None, None, None, 2000])
    if lim:
        C.append("LimitMsgSize %d" % lim)
    for o in ("SinglePKTs", "NoDBCHistory", "NoFromLine", "NoFSC0035"):
        if rng.random() < .2:
            C.append(o)
    gw = rng.random() < .15
    if gw:
        C.append("Gateway 2:5030/999")
    sp = Spool(case, conf=C)
    acl = [("*", rng.choice(["*", "*", "*", "2:5030*", "*,!2:5020*"]))]
    snd = rng.choice(SENDERS)
    if rng.random() < .2:
        acl.append((snd[0], rng.choice(["2:5020*", "!*", "*"])))
    sp.put("etc/acl", "Netmail\n" + "".join("%s\t%s\n" % x for x in acl) + "EchoMail\n* *\n")
    R = [rcpt(rng, i) for i in range(rng.choice([1, 1, 2, 4, 9]))]
    L = body(rng, 1, rng.choice([10, 100, 900, 5000]))
    size = sum(len(l) + 2 for l in L)
    hd = ["From: %s" % snd[0], "Subject: the mail", "Message-ID: <%d@example.org>" % case.index, "Date: Mon, 01 Jan 2024 12:00:00 +0000"]
    mode = rng.choice(["argv", "-t", "-t", "none"])
    names = {}
    args = []
    if mode == "argv":
        args = ["-i"] * (rng.random() < .5) + [a for a, _, _ in R]
        hd.append("To: " + rng.choice(["undisclosed-recipients:;", "list@example.com", "user77@f1.n1.z2.fidonet.org, user78@f2.n2.z2.fidonet.org"]))
    else:
        if mode == "-t":
            args = ["-t"]
        hs = {"To": [], "Cc": [], "Bcc": []}
        for i, (a, n, nm) in enumerate(R):
            fmt = rng.choice(["%s", "%s", "<%s>", "Name N%d <%%s>" % i, "%%s (Name N%d)" % i, "%%s (Name, N%d)" % i, '"Name N%d" <%%s>' % i, '"N%d, Name" <%%s>' % i, "=?utf-8?Q?Name_N%d?= <%%s>" % i,
                              "=?utf-8?B?%s?= <%%s>" % base64.b64encode(("N%d, Name" % i).encode()).decode(), '"Name \\"x\\", N%d" <%%s>' % i])
            want = nm if "N%d" % i not in fmt and "=?utf-8?B" not in fmt else {"=?u": "N%d, Name" % i if "?B?" in fmt else "Name N%d" % i}.get(fmt[:3], None)
            if want is None:
                want = {'"Na': "Name N%d" % i, '"N%d' % i: "N%d, Name" % i}.get(fmt[:3], "Name N%d" % i)
                if "(Name," in fmt:
                    want = "Name, N%d" % i
                if "x" in fmt:
                    want = None
            R[i] = (a, n, want)
            hs[rng.choice(["To", "To", "Cc", "Bcc"])].append(fmt % a)
        for h, v in hs.items():
            if not v:
                continue
            if len(v) > 1 and rng.random() < .15:
                j = rng.randrange(1, len(v))
                hd.append("%s: %s" % (h, ", ".join(v[:j])))
                hd.append("%s: %s" % (h, ", ".join(v[j:])))
            else:
                hd.append("%s: %s" % (h, rng.choice([", ", ",", ",\n ", ",\n\t", " , "]).join(v)))
            if rng.random() < .1:
                hd[-1] += ","
    rng.shuffle(hd)
    raw = ("\n".join(hd) + "\n\n" + "".join(l + "\n" for l in L)).encode()
    toobig = lim and size > lim
    if toobig and size < lim * 1.3:
        return
    exp, bad = Counter(), 0
    for a, n, nm in R:
        if n is None:
            if gw:
                n, nm = N("2:5030/999"), "UUCP"
            else:
                bad += 1
                continue
        if toobig:
            bad += 1
        elif acl_ok(acl, snd[0], "%d:%d/%d" % n[:3] + (".%d" % n.point if n.point else "") if False else "%d:%d/%d%s" % (n.zone, n.net, n.node, ".%d" % n.point if n.point else "")):
            exp[(n.net, n.node, n.point, nm)] += 1
    r = sp.run("gate/rfc2ftn", *args, input=raw, variant="asan")
    if not case.san(r):
        return
    ctx = lambda: "\nargs %r\n%r\nconf %r acl %r rc %d\nlog %s" % (args, raw[:900], C, acl, r.rc, sp.log()[-800:])
    got = Counter()
    for p, k in sp.read_pkts("spool/outpkt/mail"):
        for m in k.msgs:
            f = G.Ftn(m)
            pt = 0
            for l in f.lines:
                if l.startswith(b"\x01TOPT "):
                    pt = int(l[6:])
            got[(m.dnet, m.dnode, pt, m.to.decode("cp866"))] += 1
            t = [l.decode("latin-1") for l in f.lines]
            s = t.index("START-1") if "START-1" in t else 0
            case.check(t[s:-2] == L, "content", lambda: "text differs%s" % ctx())
    e = exp.copy()
    for x in [x for x in e if x[3] is None]:        # the name is not known: any other one there
        c = e.pop(x)
        for y in (got - e).elements():
            if c and y[:3] == x[:3]:
                e[y] += 1
                c -= 1
        if c:
            e[x] += c
    case.check(not (e - got), "missing", lambda: "recipients %r got nothing (got %r)%s" % (list(e - got), list(got), ctx()))
    case.check(not (got - e), "extra", lambda: "messages for %r, which are no recipients or have got one already (recipients %r)%s" % (list((got - e).elements()), list(e), ctx()))
    case.check(not sp.read_pkts("spool/outpkt/news"), "news", "echomail was created")
    case.check((r.rc != 0) == bool(bad), "status", lambda: "%d refused recipients, exit status %d%s" % (bad, r.rc, ctx()))
    case.seen("recipients", len(R))
    case.sig("mail", mode, len(R), bad, gw, bool(toobig), len(acl), sum(h.startswith(("To", "Cc", "Bcc")) for h in hd))
    case.sample = "mail %s: %d recipients -> %d messages" % (mode, len(R), sum(got.values()))


CHECK = Check("P18", "exploration",
              "news: areas/hierarchies/flags/limits/ACL/areas.bbs x newsgroup lists x batches, article lists, single articles; mail: recipient lists as arguments and in headers",
              ["Sizes near a limit are not generated"], variants=("asan",))
CHECK.phase("news", news, 1200, 40000)
CHECK.phase("mail", mail, 1200, 40000)
