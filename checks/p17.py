"""P17: gated messages get correct FTN addresses and unforgeable control lines"""
import re, base64
from vlib.harness import Check
from vlib.spool import Spool
from vlib import gate as G
from vlib.pkt import N

ZN = {2: "2:5030/100", 1: "1:17/3"}
UP = {2: "2:5030/0", 1: "1:17/0"}
ALIASES = [("mj", "2:5030/100", "Martin Junius"), ("boss", "1:17/5.3", "Big Boss"), ("x@example.net", "2:5030/100.9", "Ex Ample"), ("w", "2:5030/100", "*")]
HOSTS = [("2:5030/200", "host200", ""), ("2:5030/201.4", "pt.example.net.", ""), ("1:17/9", "-", ""), ("2:5030/202", "down202", "-d"), ("2:5020/7", "far", "-p")]
FIRST = ["john", "John", "IVAN", "john_smith", "John_Smith", "john.smith", "John.Smith", "j.r._ewing", "o'neil", "a", "X", "van_der_Waals.jr", "user-name", "al%bert", "u%host.org", "2nd_user",
         "postmaster", "PostMaster", "sysop", "mj", "MJ", "boss", "verylongusername_that_does_not_fit_into_field", "all", "s_", "_s", "a__b", "x+y", "john.smith@host.org", "Q.R@a.b.c", "u%a.b%host.org"]
REAL = ["John Smith", "john smith", "J. R. Ewing", "Ivan Петров", "Иванов", "O'Neil", "mj", "x", "Very Long Real Name That Is Longer Than The Field", "Jürgen Ёж", "A_B", "postmaster", "50% Man"]


def addr_local(d):
    """mail to nodes that are down is accepted from some addresses"""
    return d in ("gate.example.org", "example.org") or d.endswith(".fidonet.org")


def cvt(s):
    if "%" in s:
        i = s.rindex("%")
        return s[:i] + "@" + s[i + 1:]
    us = any(c in s for c in "_ @")
    out, flag = "", (-1 if s[:1].isupper() else 1)
    for c in s:
        if c in "_.":
            out += " " if c == "_" or not us else c
            if flag == 0:
                flag = 1
        else:
            if flag > 0 and c.islower():
                c = c.upper()
            if flag == 1:
                flag = 0
            out += c
    return out


def ftn(s, codec):
    return s.encode(codec, "replace")


def domain(rng, ctx):
    """(domain text, N or None, kind)"""
    r = rng.random()
    z = rng.choice([2, 2, 2, 1, 3, 5])
    n, f, p = rng.choice([(5030, 1), (5020, 7), (17, 5), (1, 0), (32000, 32000), (5030, 200), (5030, 202), (17, 9)]) + (rng.choice([0, 0, 0, 1, 77, 32000]),)
    if r < .6:
        parts = ["f%d" % f, "n%d" % n]
        if p or rng.random() < .1:
            parts.insert(0, "p%d" % p)
        if z != 2 or rng.random() < .7:
            parts.append("z%d" % z)
        s = ".".join(parts)
        if rng.random() < .2:
            s = s.upper()
        suf = rng.choice([".fidonet.org"] * 4 + [".FidoNet.Org", "", ".gate", ".gate.example.org", ".example.org"])
        return s + suf, N("%d:%d/%d.%d" % (z, n, f, p)), "pfnz"
    if r < .7:
        a, h, o = rng.choice(HOSTS)
        if h != "-":
            h2 = h[:-1] if h.endswith(".") else rng.choice([h, h + ".example.org"])
            if rng.random() < .2:
                h2 = h2.upper()
            nd = N(a)
            p = rng.choice([0, 0, 5])
            if p:
                h2 = "p%d." % p + h2
                if not nd.point:
                    nd = N("%d:%d/%d.%d" % (nd.zone, nd.net, nd.node, p))
            return h2, nd, "host"
    if r < .8:
        nd = N("%d:%d/%d.%d" % (z, n, f, p))
        return ("%d:%d/%d.%d" % (z, n, f, p) if p else "%d:%d/%d" % (z, n, f)), nd, "znfp"
    return rng.choice(["example.com", "f1.z2.fidonet.org", "n1.z2.fidonet.org", "fidonet.org", "f1.n2.z2.fidonet.orgx", "xf1.n2.z2.fidonet.org", "f1x.n2.z2.fidonet.org", "f.n2.z2.fidonet.org", "a.b.c", "localhost",
                       "f1.n2.z2.example.net", "f-1.n2.z2.fidonet.org", "q1.f1.n2.z2.fidonet.org"]), None, "inet"


HOSTILE = ["\r\x01MSGID: 9:9/9 EVILEVIL", "\rSEEN-BY: EVIL", "\r * Origin: EVIL (9:9/9)", "\r--- EVIL", "\x00EVIL", "\r\rEVIL", "\x01EVIL", "\r\x01INTL 9:9/9 9:9/9\r", "\x0bEVIL\x0c", "\x7f", "\rAREA:EVIL\r", "A" * 200, "\x01\x01PATH: 9/9",
           "--- EVIL", "\n\x01PATH: EVIL", "\x00\x00\x02\x00", "SEEN-BY: 9/9"]


def enc(rng, s):
    if not s.isascii() or rng.random() < .1:
        if rng.random() < .5:
            return "=?utf-8?B?%s?=" % base64.b64encode(s.encode()).decode()
        return "=?utf-8?Q?%s?=" % "".join("_" if c == 32 else chr(c) if chr(c).isalnum() and c < 128 else "=%02X" % c for c in s.encode())
    return s


def subject(rng):
    """(as written in a header, what a reader sees)"""
    words = [rng.choice(rng.choice([G.ASCII[:12], G.CYR, G.CYR, G.ODD, G.LAT])) for _ in range(rng.choice([1, 2, 3, 5, 9]))]
    if rng.random() < .4:
        words = [w + rng.choice(["", rng.choice(G.ODD), rng.choice(G.CYR), rng.choice(G.ODD) + rng.choice(G.CYR)]) for w in words]
    text = " ".join(words)
    kind = rng.choice(["raw", "raw", "one", "words", "words", "mixed"])
    if kind == "raw":
        return (text if rng.random() < .8 else "\n ".join(words)), text

    def ew(t):
        cs, n = rng.choice([x for x in (("utf-8", "utf-8"), ("UTF-8", "utf-8"), ("koi8-r", "koi8-r"), ("windows-1251", "cp1251"), ("iso-8859-1", "latin-1"), ("iso-8859-5", "iso8859-5")) if G.enc_ok(t, x[1])])
        b = t.encode(n)
        if rng.random() < .5:
            return "=?%s?%s?%s?=" % (cs, rng.choice("Bb"), base64.b64encode(b).decode())
        return "=?%s?%s?%s?=" % (cs, rng.choice("Qq"), "".join("_" if c == 32 else chr(c) if chr(c).isalnum() and c < 128 else "=%02X" % c for c in b))
    if kind == "one":
        return ew(text), text
    if kind == "words":
        # one text cut anywhere between characters, in several words
        out, i = [], 0
        while i < len(text):
            n = rng.choice([1, 3, 8, 12])
            out.append(ew(text[i:i + n]))
            i += n
        return "".join(x + (rng.choice([" ", "\n ", "  ", "\n\t"]) if i < len(out) - 1 else "") for i, x in enumerate(out)), text
    # plain words stay what they are, and blanks beside them stay blanks
    out, last = "", None
    for i, w in enumerate(words):
        e = not w.isascii() or rng.random() < .2
        if i:
            out += " "
        out += ew(" " + w if last and e else w) if e else w
        last = e
    return out, text


def subj_match(text, got, codec):
    """characters the charset has arrive, others become anything"""
    rx = b""
    for c in text:
        try:
            rx += re.escape(c.encode(codec))
        except UnicodeEncodeError:
            rx += b".{0,8}?"
    if len(got) < 71:
        return re.fullmatch(rx, got, re.S) is not None
    # cut: the beginning
    for n in range(len(text) + 1):
        rx = b"".join(re.escape(c.encode(codec)) if G.enc_ok(c, codec) else b".{0,8}?" for c in text[:n])
        if re.fullmatch(rx + b".{0,7}", got, re.S):
            return True
    return False


def address(rng, user, dom, real):
    """an RFC address and the real name a reader sees"""
    u = user + ("@" + dom if dom else "")
    if not real:
        return rng.choice(["%s", "<%s>", " %s "]) % u
    r = enc(rng, real)
    if r == real and rng.random() < .4 or set(r) & set(",.()") and r == real:
        r = '"%s"' % r
    return rng.choice(["%s <%s>" % (r, u), "%s <%s>" % (r, u), "%s (%s)" % (u, r)])


def one(case):
    rng = case.rng
    codec = rng.choice(["cp866", "cp866", "koi8-r"])
    news = rng.random() < .35
    point = rng.random() < .15
    gw = not news and rng.random() < .2
    restricted = rng.random() < .15
    opt = {o: rng.random() < .2 for o in ("NoFSC0035", "ReplyAddrIfmailTX", "NoChrsKludge", "NoRfcKludge", "NoGatewayKludge", "UseTZUTCKludge", "UseXHeaderForTearline", "UseOrganizationForOrigin", "XFromKludge",
                                          "NoFromLine", "DontUseReplyTo", "ForceRFCAddrInFrom", "NoDBCHistory", "NoFidoStyleMsgid", "EchoMail4D", "EchogateAlias", "NoFSC0035ifAlias", "DontProcessReturnReceiptTo", "SinglePKTs")}
    xpol = rng.choice([None, "0", "1", "1", "1", "2"])
    lvl = rng.choice([0, 1, 2, 3])
    C = ["DefaultCharset %s:%s:utf-8:%s" % (codec, codec, rng.choice(["utf-8", "utf-8", "koi8-r"])), "RFCLevel %d" % lvl, "Origin The gateway origin text"] + [o for o in opt if opt[o]]
    if xpol:
        C.append("XFlagsPolicy " + xpol)
    if gw:
        C.append("Gateway 2:5030/999")
    if restricted:
        C.append("HostsRestricted")
    zones = rng.choice([(1, 2), (1, 2, 3, 5)])
    own = dict(ZN)
    if point:
        own = {2: "2:5030/100.6", 1: "1:17/3.6"}
    sp = Spool(case, addrs=[own[2], own[1]], uplink=None, conf=C, zones=zones)
    sp.ident.append("Uplink " + UP[2])
    sp.ident.append("Uplink " + UP[1])
    sp.put("etc/acl", "Netmail\n* *\nEchoMail\n* *\n")
    sp.put("etc/aliases", "".join('%s\t%s\t"%s"\n' % a for a in ALIASES) + 'ftn2rfc\njohn_smith 2:5030/1 "NO"\n')
    sp.put("etc/hosts", "".join("%s\t%s\t%s\n" % (a, h, o) for a, h, o in HOSTS))
    sp.put("etc/areas", 'TEST.Z2 fido.test\nTEST.Z1 fido.one -z 1 -o "Area origin %s"\nTEST.A fido.addr -a 2:5030/100.44 -R 1\n' % ("x" * rng.choice([1, 70])))

    hostile = rng.random() < .5
    bad = lambda p: rng.choice(HOSTILE) if hostile and rng.random() < p else ""
    def mix(s, p=.4):
        b = bad(p)
        i = rng.randrange(len(s) + 1) if b else 0
        if b and rng.random() < .3:
            return s[:i] + "=?utf-8?B?%s?=" % base64.b64encode(b.encode()).decode() + s[i:]
        return s[:i] + b + s[i:]

    # sender
    fu, fr = rng.choice(FIRST), rng.choice([None] + REAL)
    fd = rng.choice(["example.org", "gate.example.org", "example.net", "f1.n2.z2.fidonet.org"])
    if rng.random() < .1:
        fu, fd = "x", "example.net"
    dirty_from = hostile and rng.random() < .3
    frm = address(rng, fu, fd, fr)
    snd = (fu, fd, fr)
    hd = ["From: " + (frm if not dirty_from else mix(frm, 1))]
    if rng.random() < .25:
        ru, rr, rd = rng.choice(FIRST), rng.choice([None] + REAL), rng.choice(["example.org", "example.com"])
        if rng.random() < .3:
            ru, rd, rr = fu, fd, None
        clean = address(rng, ru, rd, rr)
        hd.append("Reply-To: " + mix(clean, .1))
        if hd[-1] != "Reply-To: " + clean:
            dirty_from = True
        if not opt["DontUseReplyTo"] and not (rr is None and (ru.lower(), rd.lower()) == (fu.lower(), fd.lower())):
            snd = (ru, rd, rr)
    subj = rng.choice(["Test subject", "Тема письма", "Re: a", "x" * 100, "a\tb", "", None])
    dirty_subj = hostile and rng.random() < .4
    rich = None
    if not dirty_subj and rng.random() < .3:
        rich, subj = subject(rng)
        hd.append("Subject: " + rich)
        case.seen("encoded_subjects")
    elif subj is not None:
        hd.append("Subject: " + (enc(rng, subj) if not dirty_subj else mix(subj, 1)))
    mid = "<%d.q@example.org>" % case.index
    if rng.random() < .85:
        hd.append("Message-ID: " + mix(mid, .2))
    if rng.random() < .4:
        hd.append(rng.choice(["References", "In-Reply-To"]) + ": " + mix("<a.b@example.com> <c%d@example.com>" % case.index, .3))
    hd.append("Date: " + mix("Mon, 01 Jan 2024 12:00:00 +0300", .1))
    xto = None
    for n, v, p in (("Organization", "My Org", .5), ("X-Mailer", "Mailer 1.0", .3), ("User-Agent", "UA 2", .2), ("X-FTN-Tearline", "tear", .3), ("Sender", "s@example.org", .2), ("Cc", "c@example.com, d@example.com", .2),
                    ("Resent-From", "r@example.org", .1), ("X-Gateway", "other gate", .2), ("X-Custom", "custom value", .3), ("Content-Type", "text/plain; charset=utf-8", .5), ("MIME-Version", "1.0", .5), ("Keywords", "k", .2),
                    ("Summary", "s", .2), ("X-NNTP-Posting-Host", "1.2.3.4", .2), ("Received", "from a by b", .3), ("Return-Receipt-To", "q@example.org", .1), ("X-FTN-Origin", "o", .1), ("X-FTN-Seen-By", "1/1", .1), ("X-FTN-Path", "1/1", .1),
                    ("X-FTN-Kludge", "CHRS: CP866 2", .05)):
        if rng.random() < p:
            hd.append(n + ": " + (mix(v, .3) if n not in ("X-FTN-Kludge", "Content-Type", "MIME-Version") else v))
            if n == "X-FTN-Kludge":
                continue
            if rng.random() < .1:
                hd[-1] += rng.choice(["\n folded", "\n\tx\n y"])
    if any(x.startswith("X-FTN-Kludge: CHRS: CP866 2") for x in hd):
        codec = "cp866"
    flags = None
    if rng.random() < .45:
        flags = ""
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            hd.append("Received: from a by b; Mon, 1 Jan 2024 12:00:00 +0000")
    if flags == "" and rng.random() < .8:
        flags = "".join(rng.choice("cphrdamnfq") for _ in range(rng.choice([1, 3])))
        hd.append("X-Flags: " + flags)
    if hostile and rng.random() < .3:
        hd.append(rng.choice(["X\x01: EVIL", "AREA:EVIL", ": EVIL", "X-A\r\x01EVIL: x", "SEEN-BY: EVIL", "--- EVIL: x", "RFC: EVIL"]))
    if news:
        grp, area, z = rng.choice([("fido.test", "TEST.Z2", 2), ("fido.one", "TEST.Z1", 1), ("fido.addr", "TEST.A", 2)])
        hd.append("Newsgroups: " + grp)
        want_to = "All"
        if rng.random() < .4:
            xu, xr = rng.choice(FIRST), rng.choice([None] + REAL[:-1])
            xto = (xu, xr)
            xw = rng.choice([address(rng, xu, "example.org", xr), enc(rng, xr or xu)])
            hd.append("X-Comment-To: " + xw)
            if "%" in hd[-1] and "@" not in hd[-1] or "%" in xu and xr is None and "example.org" not in xw:
                hd[-1] = "X-Comment-To: " + (xr or "q")
                want_to = xr or "q"
            elif xr is None and "@" in xu and "example.org" not in xw:
                want_to = cvt(xu[:xu.index("@")])       # an address itself
            elif "@" not in hd[-1]:
                want_to = xr or xu
            else:
                want_to = xr or cvt(xu)
            dirty_to = False
    else:
        u, real = rng.choice(FIRST), None
        d, node, kind = domain(rng, None)
        real = rng.choice([None] * 6 + [x for x in REAL if x.isascii()])
        rcpt = address(rng, u, d, None) if not real else "%s <%s@%s>" % (real, u, d)
        hd.append("To: whoever@example.com")
    rng.shuffle(hd)
    if hd[0][:1] in " ":
        hd.append(hd.pop(0))
    lines = []
    for _ in range(rng.choice([0, 1, 4])):
        lines.append(rng.choice(G.CTRL + ["text", ""]))
    raw = ("\n".join(hd) + "\n\n" + "".join(l + "\n" for l in lines)).encode("utf-8")
    args = ["-n"] if news else ([rcpt] if rng.random() < .3 else ["-i", rcpt])
    if b"\0" in raw and False:
        return
    r = sp.run("gate/rfc2ftn", *args, input=raw, variant="asan")
    if not case.san(r):
        return
    pk = sp.read_pkts("spool/outpkt/news" if news else "spool/outpkt/mail")
    msgs = [(k, m) for _, k in pk for m in k.msgs]
    case.seen("messages")
    info = lambda: "\n%r %r rc %d\nconf %r\nlog %s" % (args, raw[:1800], r.rc, C, sp.log()[-400:])

    def chk(ok, key, text):
        if not ok:
            case.fail(key, text() if callable(text) else text)
            case.viol[-1] = (case.viol[-1][0], case.viol[-1][1] + info())
        else:
            case.check(True, key, "")
        return ok

    # what is expected
    if not news:
        bounce = None
        if node is None:
            if gw:
                node, want_to, fido = N("2:5030/999"), "UUCP", False
            else:
                bounce, fido = "not FTN", False
        else:
            fido = True
            want_to = real or cvt(u)
            h = [x for x in HOSTS if N(x[0])[:3] == tuple(node)[:3] and N(x[0]).point in (0, node.point)] if False else \
                [x for x in HOSTS if (N(x[0]).zone, N(x[0]).net, N(x[0]).node) == (node.zone, node.net, node.node) and N(x[0]).point in (0, node.point)]
            if h:
                if h[0][2] == "-d":
                    bounce = "down"
            elif restricted and "-i" not in args:
                bounce = "restricted"
            if node.zone not in zones:
                bounce = "zone"
        if bounce:
            case.sig("bounce", bounce, gw)
            if bounce == "down" and (addr_local(fd) or dirty_from):
                return          # a mail which has "local" sender passes
            chk(not msgs and r.rc != 0, "not-bounced", lambda: "mail for unreachable address (%s) was gated: %r" % (bounce, [(m.to, m.dnet, m.dnode) for _, m in msgs]))
            return
        al = [a for a in ALIASES if "@" not in a[0] and a[0].lower() == want_to.lower()[:35] and N(a[1]) == node]
        if al:
            want_to, node = al[0][2], N(al[0][1])
        elif want_to.lower() == "postmaster":
            want_to = "Sysop"
        z = node.zone
        area = None
    me = N(own.get(z, own[2]))
    up = N(UP.get(z, UP[2]))
    if news and area == "TEST.A":
        me = N("2:5030/100.44")
    if not chk(len(msgs) == 1 and r.rc == 0, "not-gated", lambda: "%d messages, exit status %d" % (len(msgs), r.rc)):
        return
    k, m = msgs[0]
    f = G.Ftn(m)
    L = list(f.lines)
    # sender
    su, sd, sr = snd
    # aliases of the sender are for our own address
    ours = N(own.get(z, own[2])) if not news else N(own[2])
    s_node, s_name, al = me, sr or cvt(su), None
    for a in ALIASES:
        if "@" not in a[0] and a[0].lower() == su.lower() and N(a[1]) == ours:
            al = a
            break
    if not al:
        for a in ALIASES:
            if a[0].lower() == (su + "@" + sd).lower():
                al = a
    if al and dirty_from:
        return
    if al:
        s_name = (sr or "") if al[2] == "*" else al[2]
        a_node = N(al[1])
        if not news:
            s_node = a_node
    elif opt["ForceRFCAddrInFrom"]:
        s_name = su + "@" + sd
    if news:
        dest = up
    else:
        dest = node
    chk((m.onet, m.onode, m.dnet, m.dnode) == (s_node.net, s_node.node, dest.net, dest.node), "address", lambda: "message header %d/%d -> %d/%d, expected %s -> %s" % (m.onet, m.onode, m.dnet, m.dnode, s_node, dest))
    trunc = lambda s, n: ftn(s, codec)[:n]
    chk(fuzzy_name(want_to, m.to, codec), "to", lambda: "message is to %r, expected %r" % (m.to, want_to))
    if not dirty_from:
        chk(fuzzy_name(s_name, m.frm, codec), "from", lambda: "message is from %r, expected %r" % (m.frm, s_name))
    ws = subj if subj else "(no subject)" if subj is None else ""
    if rich is not None:
        chk(subj_match(subj, m.subj, codec), "subject", lambda: "subject is %r, expected %r (%r)" % (m.subj, subj, rich))
    elif not dirty_subj:
        chk(m.subj == trunc(ws, 71), "subject", lambda: "subject is %r, expected %r" % (m.subj, ws))
    for n in ("frm", "to", "subj"):
        chk(not re.search(rb"[\x00-\x08\x0a-\x1a\x1c-\x1f]", getattr(m, n)), "control-char", lambda: "control character in message field %s: %r" % (n, getattr(m, n)))
    chk(f.ended and b"\n" not in m.body, "line-ends", lambda: "message text is not CR terminated lines: %r" % m.body[-200:])
    # attributes
    if not news:
        want = 1
        got = m.attr
        if flags and xpol == "2":
            allowed = True
        elif flags and xpol == "1":
            allowed = None if dirty_from else fd == "gate.example.org" and sum(x.startswith("Received:") for x in hd) <= 1
            case.seen("local_flags" if allowed else "foreign_flags")
        else:
            allowed = False
        if allowed:
            for c, b in (("c", 2), ("h", 512), ("f", 16), ("r", 4096), ("d", 0), ("a", 0)):
                if c in flags:
                    want |= b
        elif allowed is None:
            want = None
        if want is not None and not any(x.startswith("Return-Receipt") for x in hd) and not (allowed and flags and set(flags) & set("da")):
            chk(got == want, "attributes", lambda: "attributes %#x, expected %#x" % (got, want))
    else:
        chk(m.attr == 0, "attributes", lambda: "attributes %#x" % m.attr)
    # area / addressing kludges
    if news:
        chk(f.area == area.encode(), "area", lambda: "area line %r" % f.area)
    else:
        chk(f.area is None, "area", lambda: "mail became echomail: %r" % f.area)
        w = [("\x01INTL %d:%d/%d %d:%d/%d" % (dest.zone, dest.net, dest.node, s_node.zone, s_node.net, s_node.node)).encode()]
        if s_node.point:
            w.append(b"\x01FMPT %d" % s_node.point)
        if dest.point:
            w.append(b"\x01TOPT %d" % dest.point)
        chk(L[:len(w)] == w, "intl", lambda: "control lines %r, expected %r" % (L[:3], w))
        L = L[len(w):]
    # tail
    if news:
        if not chk(len(L) >= 4, "tail", "too few lines"):
            return
        tear, org, sb, path = L[-4:]
        L = L[:-4]
        a = "%d:%d/%d" % (me.zone, me.net, me.node) + (".%d" % me.point if me.point else "")
        if opt["EchogateAlias"] and al:
            a = al[1]
        chk(re.fullmatch(rb" \* Origin: [^\r\x01]*\(" + a.encode().replace(b".", rb"\.") + rb"\)", org) and len(org) <= 79, "origin", lambda: "origin line %r (address %s)" % (org, a))
        w = b"SEEN-BY: %d/%d" % (me.net, me.node) + (b".%d" % me.point if me.point and opt["EchoMail4D"] else b"")
        if not me.point:
            w += b" %d/%d" % (up.net, up.node) if up.net != me.net else b" %d" % up.node if up.node != me.node else b""
        chk(sb == w, "seen-by", lambda: "%r, expected %r" % (sb, w))
        w = b"\x01PATH: %d/%d" % (me.net, me.node) + (b".%d" % me.point if me.point and opt["EchoMail4D"] else b"")
        chk(path == w, "path", lambda: "%r, expected %r" % (path, w))
    else:
        if not chk(len(L) >= 2, "tail", "too few lines"):
            return
        tear, via = L[-2:]
        L = L[:-2]
        a = "%d:%d/%d" % (ours.zone, ours.net, ours.node) + (".%d" % ours.point if ours.point else "")
        chk(re.fullmatch(rb"\x01Via " + re.escape(a.encode()) + rb" @\d{8}\.\d{6}(\.UTC|\.[-+]?\d{4})? FIDOGATE/rfc2ftn[^\r]*", via), "via", lambda: "via %r" % via)
    chk(re.fullmatch(rb"---( [^\r\x01]*)?", tear), "tear", lambda: "tear line %r" % tear)
    i = 0
    while i < len(L) and L[i].startswith(b"\x01"):
        i += 1
    kl, text = L[:i], L[i:]
    seen = {}
    names = {x.split(":")[0].strip().lower() for x in "\n".join(hd).split("\n")}
    for x in kl:
        mm = re.match(rb"\x01(MSGID: |REPLY: |REPLYADDR:? |REPLYTO:? |FLAGS |CHRS: |RFC: |RFC-|GATEWAY: |X-From: |TZUTC: |PID: |TID: )", x)
        if not chk(mm and not re.search(rb"[\x01\x00\n]", x[1:]), "forged-kludge", lambda: "unexpected control line %r" % x):
            return
        n = mm.group(1).strip().rstrip(b":").decode()
        if n == "RFC-":
            h = x[5:].split(b":")[0].strip().decode("latin-1").lower()
            n = "RFC-" + h
            chk(h in names or h in ("mime-version", "content-type", "content-transfer-encoding") or hostile, "forged-kludge", lambda: "control line for no header: %r" % x)
        else:
            seen[n] = seen.get(n, 0) + 1
            chk(seen[n] == 1, "forged-kludge", lambda: "control line %s twice" % n)
        if n == "MSGID":
            a = "%d:%d/%d" % (me.zone, me.net, me.node) if news else "%d:%d/%d" % (s_node.zone, s_node.net, s_node.node)
            pat = rb"\x01MSGID: \S+ [0-9a-f]{8}" if opt["NoFidoStyleMsgid"] else rb"\x01MSGID: \d+:\d+/\d+(\.\d+)? [0-9a-f]{8}"
            chk(re.fullmatch(pat, x) or hostile and opt["NoFidoStyleMsgid"], "msgid", lambda: "malformed %r" % x)
        if n == "REPLY":
            chk(re.fullmatch(rb"\x01REPLY: (\S+ )?[0-9a-f]{8}", x) or opt["NoFidoStyleMsgid"] or hostile, "reply", lambda: "malformed %r" % x)
        if n == "CHRS":
            chk(x == b"\x01CHRS: %s 2" % {"cp866": b"CP866", "koi8-r": b"KOI8-R"}[codec], "chrs", lambda: "%r" % x)
        if n == "TZUTC":
            chk(re.fullmatch(rb"\x01TZUTC: -?\d{4}", x), "tzutc", lambda: "%r" % x)
        if n == "REPLYADDR" and not hostile:
            chk((su + "@" + sd).encode() in x, "replyaddr", lambda: "%r" % x)
    chk(seen.get("MSGID", 0) == 1, "msgid", lambda: "%d MSGIDs: %r" % (seen.get("MSGID", 0), kl))
    if not opt["NoFromLine"] or gw:
        pass
    for i, x in enumerate(text):
        chk(not G.is_ctrl(x.decode("latin-1")) or i and x.startswith(b"AREA:"), "forged-line", lambda: "line acts as FTN control line: %r" % x)
    # packet
    chk((k.onet, k.onode) == (ours.net, ours.node) if hasattr(k, "onet") else True, "packet-address", "packet is from wrong address")
    case.sig(news, gw, bool(al), hostile, None if news else kind, codec, point, bool(xto) if news else None, lvl, dirty_subj, dirty_from)
    case.seen("control_lines", len(kl))
    case.sample = "%s %r -> %s %r" % ("news" if news else "mail", None if news else args[-1], dest, m.to)


def fuzzy_name(want, got, codec):
    """names are limited to 35 characters; what the charset lacks may be replaced by something short"""
    if want.encode(codec, "replace")[:35] == got:
        return True
    for n in range(len(want) + 1):
        if G.fuzzy(want[:n], got, codec, skip=4) and (n == len(want) or len(got) >= 32):
            return True
    return False


CHECK = Check("P17", "exploration",
              "recipient/sender address forms x aliases x hosts x gateway/zone/AKA settings x options x hostile header values (control characters raw, folded and encoded, overlong)",
              ["Gateway ACL is open"], variants=("asan",))
CHECK.phase("random", one, 3000, 100000)
