"""P21: message identities and reply links across the gateway, as a conversation held by users of both sides"""
import re
from vlib.harness import Check
from vlib.spool import Spool
from vlib import gate as G, ungate as U
from vlib.pkt import N, Msg, Pkt

ADDR = ["2:5030/7", "2:5030/7.1", "2:5030/8", "1:170/5", "3:712/1.2", "2:5030/100"]
HOSTS = ["example.org", "news.Example.COM", "x-y.net", "[192.0.2.1]", "a.b.c.d.e.f", "f9.n5030.z2.fidonet.org", "localhost"]


class M:
    def __init__(self, tag, side, kind, area):
        self.tag, self.side, self.kind, self.area = tag, side, kind, area
        self.fid = self.rid = self.parent = None
        self.ftn = self.raw = None


def ftn_id(rng, used):
    r = rng.random()
    ser = rng.choice(["%08x" % rng.getrandbits(32), "%08X" % rng.getrandbits(32), "%x" % rng.getrandbits(20), "%d" % rng.getrandbits(30)])
    if used and r < .3:
        # nearly an id there is
        a, _, s = rng.choice(used).rpartition(" ")
        c = rng.choice(["case", "serial", "addr", "us", "eq", "dot", "prefix"])
        i = {"case": a + " " + s.swapcase(), "serial": a + " " + s + "0", "addr": a + "1 " + s, "us": a.replace(" ", "_") + " " + s, "eq": a.replace("_", "=5F") + " " + s, "dot": a + ".0 " + s, "prefix": a[:-1] + " " + s}[c]
        return i if a and i.strip() == i and not i.startswith(("<", " ", '"')) else ftn_id(rng, [])
    if r < .75:
        return rng.choice(ADDR) + rng.choice(["", "", "@fidonet", "@fidonet.org"]) + " " + ser
    return rng.choice(["garbage%d" % rng.getrandbits(30), "77:1/%d" % rng.getrandbits(10), "a_b=c%d" % rng.getrandbits(20), "x.y/z-%d+q" % rng.getrandbits(20), "(id)%d,;:" % rng.getrandbits(20), "n" * rng.choice([60, 150]) + "%d" % rng.getrandbits(20),
                       '"with blank %d"' % rng.getrandbits(20)]) + " " + ser


def rfc_id(rng, used):
    r = rng.random()
    if used and r < .25:
        i = rng.choice(used)
        l, _, h = i[1:-1].rpartition("@")
        i = "<%s@%s>" % rng.choice([(l.swapcase(), h), (l + ".", h), (l, h + "x"), ("x" + l, h), (l[:-1] or "q", h)])
        return i
    loc = rng.choice(["%d.%d" % (rng.getrandbits(30), rng.getrandbits(20)), "%x$%x" % (rng.getrandbits(40), rng.getrandbits(20)), "CAB+%x=_%x" % (rng.getrandbits(60), rng.getrandbits(10)), "%08x" % rng.getrandbits(32),
                      "part%d%%x/y!z" % rng.getrandbits(20), "L" * rng.choice([60, 170]) + "%d" % rng.getrandbits(20), "MSG%d" % rng.getrandbits(20), "a.%d'b`c{d}~" % rng.getrandbits(20), '"q.%d"' % rng.getrandbits(19), 'u"v%d' % rng.getrandbits(19), 'w""%d""' % rng.getrandbits(19)])
    return "<%s@%s>" % (loc, rng.choice(HOSTS))


def oldstyle(rid):
    m = re.fullmatch(r"<([1-9a-fA-F][0-9a-fA-F]{0,7})(%[^@]*)?@(.*)>", rid)
    return bool(m) and (m.group(3).endswith("fidonet.org"))


def one(case):
    rng = case.rng
    C = ["DefaultCharset cp866:cp866:utf-8:utf-8", "Origin o", "FallbackUsername ftnuser"]
    fido = rng.random() < .5
    dbc = rng.random() < .6
    save = rng.random() < .25
    grk = rng.random() < .4
    lvl = rng.choice([0, 1, 2])
    C += [] if fido else ["NoFidoStyleMsgid"]
    C += [] if dbc else ["NoDBCHistory"]
    C += ["SaveFidoMsgid"] if save else []
    C += ["GateRfcKludge"] if grk else []
    C.append("RFCLevel %d" % lvl)
    C += ["SingleArticles"]
    flush = rng.random() < .3
    sp = Spool(case, addrs=["2:5030/100", "1:170/100"], conf=C)
    sp.put("etc/acl", "Netmail\n* *\nEchoMail\n* *\n")
    areas = {"AREA.A": "fido.a", "AREA.B": "fido.b"}
    sp.put("etc/areas", "".join("%s %s -a 2:5030/100\n" % x for x in areas.items()))
    msgs, ffun, rfun = [], {}, {}
    nhop = rng.choice([2, 3, 5])
    k = 0
    for hop in range(nhop):
        known = [m for m in msgs if m.fid is not None and m.rid is not None]
        new = []
        for _ in range(rng.choice([2, 5, 9])):
            side = rng.choice("FR")
            kind = "echo" if rng.random() < .8 else "net"
            m = M("TAG%dX%dE" % (case.index, k), side, kind, rng.choice(list(areas)) if kind == "echo" else None)
            k += 1
            same = [x for x in known if x.area == m.area and (x.fid or side == "R") and x.rid]
            if same and rng.random() < .6:
                m.parent = rng.choice(same)
            if side == "F":
                used = [x.fid for x in msgs if x.fid and x.side == "F"]
                m.fid = rng.choice(used) if used and rng.random() < .08 else ftn_id(rng, used) if rng.random() < .93 else None
                if m.fid is None:
                    m.fid = ""
            else:
                used = [x.rid for x in msgs if x.rid and x.side == "R"]
                m.rid = rfc_id(rng, used)
            new.append(m)
            msgs.append(m)
        # FTN side
        again = [m for m in known if m.side == "R" and m.ftn is not None and rng.random() < .3]
        F = [m for m in new if m.side == "F"]
        ms = [ftn_raw(rng, m) for m in F] + [remsg(m) for m in again]
        if ms:
            sp.put("bt/pin/%08x.pkt" % (hop + 1), Pkt(N("2:5030/7"), N("2:5030/100"), ms).raw())
            r = sp.run("gate/ftn2rfc")
            case.san(r)
            out = collect_rfc(case, sp)
            for m in F:
                after_f(case, sp, m, out.get(m.tag, []), ffun, fido, dbc, save, grk)
            for m in again:
                L = out.get(m.tag, [])
                if case.check(len(L) == 1, "lost", "%s gated back %d times; %s" % (m.tag, len(L), sp.log()[-300:])):
                    got = (L[0].get("Message-ID") or b"").decode("latin-1")
                    kl = re.search(rb"\x01RFC-Message-ID: ([^\r]*)", m.ftn.body)
                    case.evals += 1
                    if oldstyle(m.rid):
                        exp = None
                    elif not fido or grk and kl:
                        exp = m.rid
                        case.seen("identity_kept_R")
                    else:
                        exp = mapped(m.fid)
                    if exp is not None:
                        case.check(got == exp, "identity", "%s: %s came back as %s instead of %s (FTN id %s; %s)" % (m.tag, m.rid, got, exp, m.fid, " ".join(C)))
        # Internet side
        back = [m for m in known if m.side == "F" and m.raw is not None and m.fid and rng.random() < .3]
        Rr = [m for m in new if m.side == "R"]
        for m in Rr:
            m.raw = rfc_raw(rng, m, areas)
        arts = [m for m in Rr + back if m.kind == "echo"]
        if arts:
            rng.shuffle(arts)
            r = sp.run("gate/rfc2ftn", "-b", input=b"".join(b"#! rnews %d\n" % len(m.raw) + m.raw for m in arts), variant="asan")
            case.san(r)
        for m in [m for m in Rr + back if m.kind == "net"]:
            r = sp.run("gate/rfc2ftn", "Some_One@f8.n5030.z2.fidonet.org", input=m.raw, variant="asan")
            case.san(r)
        out = collect_ftn(case, sp)
        for m in Rr:
            L = out.get(m.tag, [])
            if not case.check(len(L) == 1, "lost", "%s gated %d times; %s" % (m.tag, len(L), sp.log()[-300:])):
                continue
            m.ftn = L[0]
            m.fid = kludge(L[0], b"MSGID")
            case.evals += 1
            if not case.check(m.fid, "no-id", "%s (%s): no MSGID" % (m.tag, m.rid)):
                continue
            key = (m.rid, m.area if True else None)
            case.check(rfun.setdefault(key, m.fid) == m.fid, "not-a-function", "%s became %s and %s" % (m.rid, rfun[key], m.fid))
            for (r2, a2), f2 in rfun.items():
                case.check(f2 != m.fid or r2 == m.rid, "collision", "%s and %s both became %s" % (r2, m.rid, m.fid))
            if not oldstyle(m.rid):
                if fido:
                    case.check(re.fullmatch(r"2:5030/100(\.0)? [0-9a-f]{8}", m.fid), "id-form", "%s became MSGID %r" % (m.rid, m.fid))
                else:
                    q = '"' + m.rid.replace('"', '""') + '"' if '"' in m.rid else m.rid
                    case.check(re.fullmatch(re.escape(q) + r" [0-9a-f]{8}", m.fid), "id-form", "%s became MSGID %r" % (m.rid, m.fid))
            rep = kludge(L[0], b"REPLY")
            if m.parent is None:
                case.check(rep is None, "reply", "%s: REPLY %r, it is no reply" % (m.tag, rep))
            elif m.parent.rid.startswith("<NOMSGID_"):
                case.check(rep is None, "reply", "%s answers a message without MSGID (%s): REPLY %r" % (m.tag, m.parent.rid, rep))
            elif m.parent.fid:
                p = m.parent
                case.seen("replies_R_to_" + p.side)
                case.sig("R%s|%s|%s|%s" % (p.side, fido, dbc, m.kind))
                ok = rep == p.fid or fido and p.side == "R" and not oldstyle(p.rid) and rep is not None and rep.split(" ") == [p.rid, p.fid.split(" ")[-1]]
                case.check(ok, "reply", "%s answers %s, which is %s in FTN: REPLY %r (%s)" % (m.tag, p.rid, p.fid, rep, " ".join(C)))
        for m in back:
            L = out.get(m.tag, [])
            if case.check(len(L) == 1, "lost", "%s gated back %d times; %s" % (m.tag, len(L), sp.log()[-300:])):
                got = kludge(L[0], b"MSGID")
                case.evals += 1
                case.seen("identity_kept_F")
                case.check(got == m.fid, "identity", "%s: MSGID %s became %s and came back as %r (%s)" % (m.tag, m.fid, m.rid, got, " ".join(C)))
    case.sample = "%d messages, %d replies in %d hops: %s" % (len(msgs), sum(m.parent is not None for m in msgs), nhop, " ".join(C))


def mapped(fid):
    """Internet id of an FTN id (as stated in the documentation: quoted-printable)"""
    out = ""
    for c in fid.encode("latin-1"):
        out += "_" if c == 32 else "=%02X" % c if chr(c) in "()<>@,;:\\\"[]/=_" or c >= 127 or c < 32 else chr(c)
    return "<MSGID_%s@fidonet.org>" % out


def ftn_raw(rng, m):
    K = ["MSGID: " + m.fid] if m.fid else ["PID: x"]
    if m.parent:
        K.append("REPLY: " + m.parent.fid)
    if rng.random() < .3:
        K.append("PID: Ed 1.0")
    rng.shuffle(K)
    b = (b"AREA:" + m.area.encode() + b"\r" if m.area else b"") + b"".join(b"\x01" + x.encode("latin-1") + b"\r" for x in K)
    b += b"text of " + m.tag.encode() + b"\r--- Ed\r"
    if m.area:
        b += b" * Origin: x (2:5030/7)\rSEEN-BY: 5030/7 100\r\x01PATH: 5030/7\r"
    else:
        b = b"\x01INTL 2:5030/100 2:5030/7\r" + b
    return Msg(b"John Smith", b"user@example.org" if m.kind == "net" else b"All", m.tag.encode(), b, N("2:5030/7"), N("2:5030/100"), 1, 0, b"01 Jan 24  12:00:00")


def remsg(m):
    b = m.ftn.body
    if m.kind == "net":
        b = re.sub(rb"\x01(INTL|TOPT|FMPT)[^\r]*\r", b"", b)
        b = b"\x01INTL 2:5030/100 2:5030/8\r" + b
        return Msg(b"Some One", b"user@example.org", m.tag.encode(), b, N("2:5030/8"), N("2:5030/100"), 1, 0, b"01 Jan 24  12:00:00")
    return Msg(b"Some One", b"All", m.tag.encode(), b, N("2:5030/7"), N("2:5030/100"), 1, 0, b"01 Jan 24  12:00:00")


def rfc_raw(rng, m, areas):
    h = ["From: Joe <joe@example.org>", "Subject: " + m.tag, "Message-ID: " + m.rid, "Date: Mon, 01 Jan 2024 12:00:00 +0000"]
    h.append("Newsgroups: " + areas[m.area] if m.area else "To: Some_One@f8.n5030.z2.fidonet.org")
    if m.parent:
        pr = m.parent.rid
        chain = ["<c%d.%d@example.org>" % (i, rng.getrandbits(20)) for i in range(rng.choice([0, 0, 1, 4, 25]))]
        r = rng.random()
        if r < .8:
            h.append("References: " + rng.choice([" ", "\n ", "\n\t"]).join(chain + [pr]))
            if r < .2:
                h.append("In-Reply-To: <other@example.org>")
        else:
            h.append("In-Reply-To: " + rng.choice([pr, pr, "Message of Mon " + pr]))
    rng.shuffle(h)
    return ("\n".join(h) + "\n\ntext of " + m.tag + "\n").encode("latin-1")


def kludge(x, name):
    mm = re.findall(rb"(?:^|\r)\x01" + name + rb": ([^\r]*)", x.body)
    return mm[0].decode("latin-1") if mm else None


def after_f(case, sp, m, L, ffun, fido, dbc, save, grk):
    if not case.check(len(L) == 1, "lost", "%s gated %d times; %s" % (m.tag, len(L), sp.log()[-300:])):
        return
    r = L[0]
    m.raw = r.raw if m.kind == "echo" else re.sub(rb"^From [^\n]*\n", b"", r.raw)
    m.rid = (r.get("Message-ID") or b"").decode("latin-1")
    case.evals += 1
    case.check(re.fullmatch(r"<[^<>\s@]+@[^<>\s@]+>", m.rid), "id-form", "%s: Message-ID %r of %s" % (m.tag, m.rid, m.fid))
    if m.fid:
        case.check(ffun.setdefault(m.fid, m.rid) == m.rid, "not-a-function", "%s became %s and %s" % (m.fid, ffun[m.fid], m.rid))
        for f2, r2 in ffun.items():
            case.check(r2 != m.rid or f2 == m.fid, "collision", "%s and %s both became %s" % (f2, m.fid, m.rid))
    else:
        case.check(ffun.setdefault(("none", m.tag), m.rid) == m.rid and list(ffun.values()).count(m.rid) == 1, "collision", "message without MSGID: %s" % m.rid)
    ref = r.get("References")
    ref = ref.decode("latin-1").strip() if ref is not None else None
    p = m.parent
    if p is None:
        case.check(ref is None, "reply", "%s: References %r, it is no reply" % (m.tag, ref))
        return
    if not p.fid:
        return
    case.seen("replies_F_to_" + p.side)
    case.sig("F%s|%s|%s|%s" % (p.side, fido, dbc, m.kind))
    if p.side == "F" or not fido or dbc and m.kind == "echo":
        exp = p.rid
        if p.side == "R" and oldstyle(p.rid):
            return
    else:
        exp = mapped(p.fid)
    case.check(ref == exp, "reply", "%s answers %s, which is %s: References %r, expected %s (%s)" % (m.tag, p.fid, p.rid, ref, exp, " ".join(sp.conf)[:200]))


def collect_rfc(case, sp):
    mails, arts = U.outputs(case, sp, True)
    out = {}
    for p, r in mails + arts:
        out.setdefault((r.get("Subject") or b"?").decode("latin-1").strip(), []).append(r)
    for d in ("spool/outrfc/mail", "spool/outrfc/news"):
        for f in sp.ls(d):
            __import__("os").unlink(f if f.startswith("/") else sp.p(d + "/" + f))
    return out


def collect_ftn(case, sp):
    out = {}
    import os
    for d in ("spool/outpkt/news", "spool/outpkt/mail"):
        for p, k in sp.read_pkts(d):
            for x in k.msgs:
                out.setdefault(x.subj.decode("latin-1"), []).append(x)
        for f in sp.ls(d):
            os.unlink(f)
    return out


def noid(case):
    """messages without MSGID: an id of its own for each, made from what distinguishes it; the same for a second copy"""
    rng = case.rng
    C = ["DefaultCharset cp866:cp866:utf-8:utf-8", "FallbackUsername ftnuser", "SingleArticles"] + rng.choice([[], ["NoFidoStyleMsgid"], ["NoDBCHistory"]])
    sp = Spool(case, addrs=["2:5030/100", "1:170/100"], conf=C)
    sp.put("etc/acl", "Netmail\n* *\nEchoMail\n* *\n")
    sp.put("etc/areas", "AREA.A fido.a -a 2:5030/100\n")
    base = dict(frm="John Smith", to="All", subj="Subject %d" % case.index, addr="2:5030/7", sec=rng.randrange(10, 50))
    alt = dict(frm=["John Smit", "John Smiti", "john Smith", "Smith John"], to=["Al", "Alll", "all", "Sysop", "Smith"], subj=["Subject", "subject %d" % case.index, "", "Re: Subject %d" % case.index],
               addr=["2:5030/7.1", "2:5030/8", "2:5031/7", "1:5030/7", "3:5030/7.1", "2:5030/71"], sec=list(range(10, 60)))
    var = {tuple(base.items()): 0}
    for _ in range(rng.choice([4, 10, 25])):
        v = dict(base) if rng.random() < .7 else dict(rng.choice(list(var)))
        k = rng.choice(list(alt))
        v[k] = rng.choice(alt[k])
        var.setdefault(tuple(v.items()), len(var))
    ms, n = [], {}
    for v, i in var.items():
        for c in range(rng.choice([1, 1, 2])):
            v_ = dict(v)
            n[i] = n.get(i, 0) + 1
            b = "AREA:AREA.A\r\x01PID: x\rTAG%dX%dE\r--- Ed\r * Origin: x (%s)\rSEEN-BY: 5030/7 100\r\x01PATH: 5030/7\r" % (case.index, i, v_["addr"])
            ms.append(Msg(v_["frm"].encode(), v_["to"].encode(), v_["subj"].encode(), b.encode(), N("2:5030/9"), N("2:5030/100"), 1, 0, b"01 Jan 24  12:00:%02d" % v_["sec"]))
    rng.shuffle(ms)
    sp.put("bt/pin/1.pkt", Pkt(N("2:5030/9"), N("2:5030/100"), ms).raw())
    r = sp.run("gate/ftn2rfc")
    case.san(r)
    mails, arts = U.outputs(case, sp, True)
    ids = {}
    for _, a in arts:
        t = re.search(rb"TAG\d+X(\d+)E", a.body)
        if case.check(t, "lost", "article without text"):
            ids.setdefault(int(t.group(1)), []).append(a.get("Message-ID"))
    by = {}
    for v, i in var.items():
        case.evals += 1
        case.seen("messages_without_id")
        L = ids.get(i, [])
        if not case.check(len(L) == n[i], "lost", "%s gated %d times, sent %d times; %s" % (dict(v), len(L), n[i], sp.log()[-300:])):
            continue
        case.check(len(set(L)) == 1, "not-a-function", "copies of %s got ids %s" % (dict(v), set(L)))
        if L[0] in by:
            case.fail("collision", "%s and %s both became %s" % (dict(v), dict(by[L[0]]), L[0]))
        by[L[0]] = v
        for k in base:
            if dict(v)[k] != base[k]:
                case.sig("differs in " + k)
    case.sample = "%d messages without MSGID, %d different: %d ids" % (len(ms), len(var), len(by))


CHECK = Check("P21", "exploration",
              "conversations between users of both sides are gated hop by hop by the real programs; every id each side sees is recorded: the mapping must be a function and one-to-one, ids must come back unchanged, and each reply must name the id its parent has on that side",
              ["ids of up to some 200 characters; <id@host> kludges that differ in the serial number only are one message by design; links over CRC-32 based ids need NoFidoStyleMsgid or the DBC history"], variants=("asan", "plain"))
CHECK.phase("conversation", one, 220, 5000)
CHECK.phase("without-id", noid, 40, 1500)
