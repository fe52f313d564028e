"""P16: Internet messages keep their text"""
import re
from vlib.harness import Check
from vlib.spool import Spool
from vlib import gate as G

CS = [("utf-8", "utf-8"), ("UTF-8", "utf-8"), ("koi8-r", "koi8-r"), ("windows-1251", "cp1251"), ("iso-8859-5", "iso8859-5"), ("iso-8859-1", "latin-1"),
      ("us-ascii", "ascii"), ("ibm866", "cp866"), ("iso-2022-jp", "iso2022_jp"), (None, None)]


def leaf(rng, deflt, bnds, ctrl=True, size=None):
    """(headers, body, unicode lines)"""
    name, codec = rng.choice(CS)
    if rng.random() < .4:
        name, codec = "utf-8", "utf-8"
    te = rng.choice(["7bit", "8bit", "quoted-printable", "base64", "base64", "quoted-printable", None, "binary"])
    hs = []
    if codec is None:
        codec = {"utf-8": "utf-8", "koi8-r": "koi8-r", "us-ascii": "ascii"}[deflt]
        if rng.random() < .5:
            hs.append("Content-Type: text/plain")
    else:
        q = rng.choice(['"%s"', "%s"]) % name
        hs.append(rng.choice(["Content-Type: text/plain; charset=%s", "Content-Type: TEXT/PLAIN;charset=%s", "content-type: text/plain; format=flowed;\n charset=%s",
                              "Content-Type: text/plain; charset=%s; format=flowed", "Content-Type: text/plain; charset = %s",
                              'Content-Type: text/plain; name="a; charset=x-none; b"; charset=%s', "Content-Type: text/plain ;\n\tformat=flowed ;\n\tcharset=%s"]) % q)
    lines = G.mklines(rng, codec, ctrl, size)
    if codec == "iso2022_jp":
        lines = [l for l in lines if not l.startswith("\x01")]
    if bnds:
        while lines and not lines[-1]:
            lines.pop()
        while lines and not lines[0]:
            lines.pop(0)
    if te in (None, "7bit", "8bit", "binary"):
        lines = ["x" + l if any(l.startswith("--" + b) for b in bnds) else l for l in lines]
    if te:
        hs.append("%s: %s" % (rng.choice(["Content-Transfer-Encoding", "content-transfer-encoding"]), rng.choice([te, te, te.upper(), te.capitalize()])))
    if te == "quoted-printable":
        lines = [l.rstrip("\r") for l in lines]
    rng.shuffle(hs)
    return hs, G.encode(rng, lines, codec, te), lines, te


def build(rng, deflt, depth=0, bnds=(), size=None):
    """(headers, body, lines, structure)"""
    if rng.random() < (.6 if depth == 0 else .75) or depth > 3:
        hs, b, l, te = leaf(rng, deflt, bnds, size=size)
        return hs, b, l, te or "-"
    bnd = rng.choice(["b1", "=_x.y", "b b", "B" * 70, "b1x", "----=_Part_1"]) + "%d" % depth
    kind = rng.choice(["mixed", "alternative", "signed", "related"])
    if rng.random() < .2:
        bnd = rng.choice(["a'b(c)+_,-./:=?z", "a b:c", "==", "(", "-", "0"]) + "%d" % depth
    hs = ['%s: multipart/%s; %sboundary="%s"' % (rng.choice(["Content-Type", "CONTENT-TYPE"]), kind, rng.choice(["", "charset=utf-8; ", "x=\"a;b\"; ", "x=\"; boundary=none; y\"; ", "type=\"text/plain\";\n "]), bnd)]
    if re.match(r"[A-Za-z0-9_.-]+$", bnd) and rng.random() < .2:
        hs = [hs[0].replace('"%s"' % bnd, bnd)]
    body = rng.choice([b"", b"preamble\n--nob\n", b"This is a multi-part message in MIME format.\n"])
    lines, st = [], []
    n = rng.choice([1, 2, 3])
    texts = rng.randrange(n)
    for i in range(n):
        if i == texts or rng.random() < .4:
            h, b, l, s = build(rng, deflt, depth + 1, bnds + (bnd,), size)
            lines += l + [None]         # parts may be separated by an empty line
            st.append(s)
        else:
            h, b = ["Content-Type: %s" % rng.choice(["text/html; charset=utf-8", "application/octet-stream", "image/png; name=x", "application/pgp-signature"]), "Content-Transfer-Encoding: base64"], b"PGI+c2VjcmV0IG5vdCB0ZXh0PC9iPg==\n"
            st.append("x")
        body += b"--" + bnd.encode() + rng.choice([b"", b"", b" "]) + b"\n" + b"".join(x.encode() + b"\n" for x in h) + b"\n" + b + (b"" if b.endswith(b"\n") and rng.random() < .4 else b"\n")
        # the line end before the delimiter belongs to it: an additional one may be an empty line of the text
    if rng.random() < .9:
        body += b"--" + bnd.encode() + b"--\n" + rng.choice([b"", b"epilogue\n"])
    return hs, body, lines, kind[0] + "".join(st)


def parse_parts(case, msgs, news, conf):
    """[(text lines, split info)] of each packet message"""
    out = []
    for m in msgs:
        f = G.Ftn(m)
        L = list(f.lines)
        if not case.check(f.ended, "unterminated-line", lambda: "message text does not end with CR: %r" % m.body[-60:]):
            return None
        if news:
            tail = 4
            ok = len(L) >= 4 and L[-1].startswith(b"\x01PATH: ") and L[-2].startswith(b"SEEN-BY: ") and L[-3].startswith(b" * Origin: ") and L[-4].startswith(b"---")
        else:
            tail = 2
            ok = len(L) >= 2 and L[-1].startswith(b"\x01Via ") and L[-2].startswith(b"---")
        if not case.check(ok, "bad-tail", lambda: "control lines at the end of the message are not as they must be: %r" % L[-6:]):
            return None
        L = L[:-tail]
        i = 0
        split = None
        head = 0
        while i < len(L) and (L[i].startswith(b"\x01")):
            i += 1
        kl = L[:i]
        if not conf["nofrom"] or conf["gw"]:
            j = i
            while j < len(L) and re.match(rb"(From|Reply-To|To|Sender|Header-To|Header-Cc): ", L[j]):
                j += 1
                head += 1
            if not case.check(head and j < len(L) and L[j] == b"", "bad-text-header", lambda: "no empty line after the address lines: %r" % L[i:j + 2]):
                return None
            i = j + 1
        while i < len(L) and L[i].startswith(b"\x01SPLIT: "):
            kl.append(L[i])
            i += 1
        sp = [k for k in kl if k.startswith(b"\x01SPLIT: ")]
        if sp:
            mm = re.search(rb" (\d\d)/(\d\d) \+", sp[0])
            split = mm and (int(mm.group(1)), int(mm.group(2)))
        elif conf["no47"] and i < len(L):
            mm = re.match(rb" \* Large message split by FIDOGATE: part (\d\d)/(\d\d)$", L[i])
            if mm:
                split = (int(mm.group(1)), int(mm.group(2)))
                i += 2
        # what marks the parts as belonging together
        idn = sp[0][:mm.start(1)] if sp and mm else b""
        conf["ids"].append(idn)
        conf["chrs"].append([k for k in kl if k.startswith(b"\x01CHRS")])
        out.append((L[i:], split, [k for k in kl if k.startswith(b"\x01MSGID: ")]))
    return out


def compare(case, key, want, got, ftn, ctx):
    """want: unicode lines, got: bytes lines"""
    # empty lines at the end are not the message's text
    w, g = [], list(got)
    for l in want:
        if l is not None:
            w.append(l)
        elif len(g) > len(w):
            while len(g) > len(w) and g[len(w)] == b"":
                del g[len(w)]
    while w and w[-1] == "":
        w.pop()
    while g and g[-1] == b"":
        g.pop()
    n = min(len(w), len(g))
    for i in range(n):
        if not G.match_line(w[i], g[i], ftn):
            case.fail(key, "line %d of %d: %r arrived as %r (%s)" % (i, len(w), w[i][:200], g[i][:200], ctx))
            return False
    return case.check(len(w) == len(g), key, lambda: "%d lines were sent, %d arrived; %r | %r (%s)" % (len(w), len(g), w[n:n + 3], g[n:n + 3], ctx))


def one(case):
    rng = case.rng
    deflt = rng.choice(["utf-8", "koi8-r", "us-ascii"])
    ftn = rng.choice(["cp866", "cp866", "cp866", "koi8-r", "iso-8859-1", "utf-8"])
    news = rng.random() < .5
    conf = {"nofrom": rng.random() < .5, "no47": rng.random() < .3, "gw": False, "ids": [], "chrs": []}
    maxs = rng.choice([None, None, None, 200, 1000, 3000])
    other = "iso-8859-1:iso-8859-1:koi8-r:koi8-r"
    main = "%s:%s:utf-8:%s" % (ftn, ftn, deflt)
    where = rng.choice(["def", "own"])
    C = ["DefaultCharset " + (main if where == "def" else other), "Origin gateway", "RFCLevel %d" % rng.choice([0, 1, 2])]
    if where == "own" and not news:
        C.append("NetMailCharset " + main)
    if conf["nofrom"]:
        C.append("NoFromLine")
    if conf["no47"]:
        C.append("NoFSC0047")
    if maxs and not (news and where == "own"):
        C.append("MaxMsgSize %d" % maxs)
    for x in ("NoFSC0035", "NoChrsKludge", "NoRfcKludge", "NoGatewayKludge", "UseTZUTCKludge", "UseXHeaderForTearline", "EchoMail4D", "UseOrganizationForOrigin"):
        if rng.random() < .25:
            C.append(x)
    fscname = None
    if rng.random() < .25:
        fscname = rng.choice(["ALT", "x-fido", "CODEPAGE"])
        C.append("CharsetNameMap %s %s" % (rng.choice([ftn, ftn, "ibm999"]), fscname))
        if not C[-1].split()[1] == ftn:
            fscname = None
    sp = Spool(case, conf=C)
    opt = ""
    if news and where == "own":
        opt = " -C " + main + (" -m %d" % maxs if maxs else "")
    if not maxs:
        if news:
            C.append("MaxMsgSize %d" % rng.choice([0, 300, 2000]))
            opt += " -m 0"
        else:
            maxs = 14000
    sp.put("etc/areas", "TEST fido.test -a 2:5030/100%s\n" % opt)
    sp.put("etc/acl", "Netmail\n* *\nEchoMail\n* *\n")
    hs, body, lines, st = build(rng, deflt)
    if maxs and rng.random() < .6:
        hs, body, lines, st = build(rng, deflt, size=rng.choice([20, 60]))
    subj = G.words(rng, [G.ASCII[:8]], 3)
    hdr = ["From: Ivan <ivan@example.org>", "Subject: " + subj, "Date: Mon, 01 Jan 2024 12:00:00 +0300", "Message-ID: " + rng.choice(["<%d@example.org>", "<%d@example.org>", "<MSGID_2=3A5030=2F7_%08x@fidonet.org>", "<NOMSGID_2=3A5030=2F7.0_240101_120021_%08x@fidonet.org>", "<a%x@p0.f7.n5030.z2.fidonet.org>"]) % case.index, "MIME-Version: 1.0",
           "Newsgroups: fido.test" if news else "To: John_Smith@f1.n5030.z2.fidonet.org"] + hs
    rng.shuffle(hdr)
    raw = "\n".join(hdr).encode() + b"\n\n" + body
    if rng.random() < .1 and not news and raw.endswith(b"\n"):
        raw = raw[:-1]
    crlf = rng.random() < .1 and not any("\x01" == l for l in lines)
    if crlf:
        raw = raw.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n") if "base64" not in st else raw
    if news and rng.random() < .5:
        r = sp.run("gate/rfc2ftn", "-b", input=b"#! rnews %d\n" % len(raw) + raw, variant="asan")
    else:
        r = sp.run("gate/rfc2ftn", "-i", *(["-n"] if news else ["John_Smith@f1.n5030.z2.fidonet.org"]), input=raw, variant="asan")
    if not case.san(r):
        case.viol[-1] = (case.viol[-1][0], case.viol[-1][1] + "\n%r" % raw[:1500])
        return
    msgs = []
    for p, k in sp.read_pkts("spool/outpkt/news" if news else "spool/outpkt/mail"):
        msgs += k.msgs
    ctx = "%s %s %s>%s rc %d" % ("news" if news else "mail", st, deflt, ftn, r.rc)
    case.seen("messages")
    if not "".join(l or "" for l in lines).strip() and r.rc == 65 and not msgs and st != "-":
        case.seen("no_text_refused")
        return
    if not case.check(msgs and r.rc == 0, "refused", lambda: "message was not gated (%s): %s %s\n%r" % (ctx, sp.log()[-300:], r.err[-300:], raw[:600])):
        return
    parts = parse_parts(case, msgs, news, conf)
    if parts is None:
        case.viol[-1] = (case.viol[-1][0], case.viol[-1][1] + "\n%s\n%r" % (ctx, raw[:1500]))
        return
    n0 = len(case.viol)
    got = []
    for t, s, ids in parts:
        got += t
    if maxs:
        case.seen("split_parts", len(parts))
        if len(parts) > 1:
            case.check([s for _, s, _ in parts] == [(i + 1, len(parts)) for i in range(len(parts))], "part-numbers", lambda: "part numbers %r" % [s for _, s, _ in parts])
            if not conf["no47"]:
                case.check(conf["ids"][0] and len(set(conf["ids"])) == 1, "part-identification", lambda: "the parts are not marked as parts of one message: %r" % conf["ids"])
            case.check(len({tuple(i) for _, _, i in parts}) == len(parts), "part-msgid", lambda: "MSGIDs of the parts are not unique: %r" % [i for _, _, i in parts])
            for i, m in enumerate(msgs):
                want = subj if i == 0 else "%02d: %s" % (i + 1, subj)
                case.check(m.subj == want.encode()[:71], "part-subject", lambda: "%r %r" % (m.subj, want))
            case.check(all((m.frm, m.to, m.onet, m.onode, m.dnet, m.dnode) == (msgs[0].frm, msgs[0].to, msgs[0].onet, msgs[0].onode, msgs[0].dnet, msgs[0].dnode) for m in msgs), "part-header", "parts are addressed differently")
        else:
            case.check(parts[0][1] is None, "part-numbers", "single part marked as split")
        if maxs:
            for t, _, _ in parts[:-1]:
                sz = sum(len(x) + 2 for x in t[:-1])
                case.check(sz <= maxs, "part-size", lambda: "part has %d bytes besides the last line, limit %d" % (sz, maxs))
                sz = sum(len(x) + 3 for x in t)
                case.check(sz > maxs, "part-size", lambda: "part has only %d bytes, limit %d" % (sz, maxs))
    else:
        case.check(len(parts) == 1, "part-numbers", lambda: "message without size limit arrived in %d parts" % len(parts))
    if "NoChrsKludge" in C:
        case.check(not any(conf["chrs"]), "charset-name", lambda: "%r" % conf["chrs"])
    else:
        w = {"cp866": b"CP866 2", "koi8-r": b"KOI8-R 2", "iso-8859-1": b"ISO-8859-1 2", "utf-8": b"UTF-8 4"}[ftn]
        if fscname:
            w = fscname.upper().encode() + w[-2:]
        case.check(all(x == [b"\x01CHRS: " + w] for x in conf["chrs"]), "charset-name", lambda: "%r, expected %r" % (conf["chrs"], w))
    compare(case, "text", lines, got, ftn, ctx)
    lines = [l for l in lines if l is not None]
    if not any("漢" in l or "b>secret" in l for l in lines):
        case.check(b"secret not text" not in b"".join(got), "non-text", "attachment was gated as text")
    if len(case.viol) > n0:
        case.viol[-1] = (case.viol[-1][0], case.viol[-1][1] + "\n%r" % raw[:1500])
    case.sig(st[:6], deflt, ftn, len(parts) > 1, bool(maxs), news, any(not G.enc_ok(l, G.FTN[ftn]) for l in lines), any(G.is_ctrl(l) for l in lines), max([len(l) for l in lines] or [0]) > 32000)
    case.seen("lines", len(lines))
    case.seen("control_lookalikes", sum(map(G.is_ctrl, lines)))
    case.sample = "%s: %d lines, %d parts" % (ctx, len(lines), len(parts))


CHECK = Check("P16", "exploration",
              "MIME structure/encodings x charsets x split x news/mail x unrepresentable characters x control look-alikes",
              ["text parts are text/plain; other parts are dropped by design"], variants=("asan",))
CHECK.phase("random", one, 1500, 60000)
