"""FTN -> Internet: scenario generator, model of what ftn2rfc has to write, readers of its output."""
import re, base64, quopri, time, email.utils, calendar
from .pkt import N, Msg, Pkt
from . import gate as G

SAFE_NAMES = ["John Smith", "Ivan", "A B C", "O'Neil", "x" * 36, "Mary-Jane", "j.r", "Al", "sysop", "First Last", "root", "postmaster"]
SPECIAL_NAMES = ["Smith, John", "J (Nick) S", "a;b", "Back\\slash", 'Say "Hi"', "T[x]", "a:b", "x <y>", "Un(bal", "bal)", "semi; x, y"]
CYR_NAMES = ["Иван Петров", "Вася", "Ёж, Пётр", "Саша (vs)", "Анна Smith", "Кто-то \"Ник\""]
USERS = ["user@example.org", "joe@sub.example.com", "a.b-c@x.org", "u_1@y.net", "bob+t@z.co"]
GROUPCHARS = "abcdefghijklmnopqrstuvwxyz"
ENC8 = {"utf-8": "utf-8", "koi8-r": "koi8-r", "ISO-8859-1": "latin-1", "windows-1251": "cp1251", "us-ascii": "ascii"}


def inet(a, force=True):
    """force: the point is named even if HOSTS has no -p for its node (Path header)"""
    if a is None:
        return "INVALID_FTN_ADDRESS"
    n = N(a)
    if (n.zone, n.net, n.node) == (2, 5030, 7):
        return ("p%d." % n.point if n.point and force else "") + "known.example.org"
    return ("p%d." % n.point if n.point else "") + "f%d.n%d.z%d.%s.org" % (n.node, n.net, n.zone, "example" if (n.zone, n.net, n.node) == (2, 5030, 8) else "fidonet")


def user_of(name_b, dot, fallback):
    """user part for an FTN name (bytes)"""
    if fallback and any(c & 128 for c in name_b):
        return fallback.encode()
    b = bytes(95 if c < 32 else c for c in name_b)
    q = any(c in b"()<>@,;:\\\"[]" for c in b)
    u = bytes((46 if dot else 95) if c == 32 else c for c in b if c not in b'"\\')
    return b'"' + u + b'"' if q else u


def real_of(name_b):
    return bytes(c for c in name_b if c not in b"<>").strip(b" ")


# ---- reading output ------------------------------------------------------------------------------
class RfcError(Exception):
    pass


class Rfc:
    """header fields [(name, unfolded raw value bytes)], body bytes"""

    def __init__(self, data, envelope):
        self.raw = data
        head, sep, self.body = data.partition(b"\n\n")
        if not sep:
            raise RfcError("no end of header")
        lines = head.split(b"\n")
        self.envelope = None
        if envelope:
            if not lines[0].startswith(b"From "):
                raise RfcError("no envelope line: %r" % lines[0][:60])
            self.envelope = lines.pop(0)
        self.h = []
        for l in lines:
            bad = re.search(rb"[\x00-\x08\x0a-\x1a\x1c-\x1f\x7f]", l)
            if bad or b"\x1b" in l and b"iso-2022" not in head.lower():
                raise RfcError("control character in header line %r" % l[:100])
            if l[:1] in (b" ", b"\t"):
                if not self.h:
                    raise RfcError("continuation line first")
                if not l.strip():
                    raise RfcError("blank continuation line after %r" % (self.h[-1],))
                self.h[-1] = (self.h[-1][0], self.h[-1][1] + l)
                continue
            m = re.match(rb"([!-9;-~]+):(?: ?)(.*)$", l, re.S)
            if not m:
                raise RfcError("malformed header line %r" % l[:100])
            self.h.append((m.group(1).decode(), m.group(2)))

    def all(self, name):
        return [v for k, v in self.h if k.lower() == name.lower()]

    def get(self, name):
        v = self.all(name)
        return v[0] if v else None

    def text(self):
        """decoded body bytes, charset declared"""
        te = (self.get("Content-Transfer-Encoding") or b"7bit").strip().lower()
        ct = self.get("Content-Type") or b""
        m = re.match(rb'\s*text/plain\s*;\s*charset="?([^";\s]+)"?\s*$', ct)
        if not m:
            raise RfcError("Content-Type %r" % ct)
        cs = m.group(1).decode()
        if te == b"base64":
            for l in self.body.split(b"\n"):
                if len(l) > 76:
                    raise RfcError("base64 line of %d characters" % len(l))
            return base64.b64decode(self.body.replace(b"\n", b""), validate=True), cs
        if te == b"quoted-printable":
            for l in self.body.split(b"\n"):
                if len(l) > 78 or re.search(rb"=(?![0-9A-F]{2}|$)|[\x80-\xff]|[ \t]$", l):
                    raise RfcError("quoted-printable line %r" % l[:100])
            return quopri.decodestring(self.body), cs
        if te == b"7bit":
            if any(c > 127 for c in self.body):
                raise RfcError("8-bit text declared 7bit")
        elif te != b"8bit":
            raise RfcError("Content-Transfer-Encoding %r" % te)
        return self.body, cs


EW = re.compile(rb"=\?([A-Za-z0-9_-]+)\?([BQ])\?([^? ]*)\?=")


def decode_words(v):
    """RFC 2047 decoding, strict: [(bytes, charset or None)] joined as (text pieces)"""
    out, pos, prev = [], 0, False
    for m in EW.finditer(v):
        gap = v[pos:m.start()]
        if not (prev and not gap.strip()):
            out.append((gap, None))
        cs = m.group(1).decode()
        if m.group(2) == b"B":
            d = base64.b64decode(m.group(3), validate=True)
        else:
            if re.search(rb"=(?![0-9A-F]{2})", m.group(3)):
                raise RfcError("bad Q word %r" % m.group(0))
            d = quopri.decodestring(m.group(3).replace(b"_", b"=20"))
        try:
            d.decode(ENC8.get(cs, cs))
        except UnicodeDecodeError:
            raise RfcError("encoded word %r cannot be decoded on its own" % m.group(0))
        out.append((d, cs))
        pos, prev = m.end(), True
    out.append((v[pos:], None))
    return out


def squeeze(b):
    return re.sub(rb"[ \t]+", b" ", b).strip()


def decoded(v, cs_out):
    """bytes of the text in charset cs_out"""
    r = b""
    for d, cs in decode_words(v):
        if cs is not None and cs.lower() != cs_out.lower():
            raise RfcError("encoded word in charset %s instead of %s" % (cs, cs_out))
        r += d
    return r


def text_match(exp, got, codec):
    """exp: unicode, got: bytes in codec (characters it does not have may be replaced by anything short)"""
    try:
        return exp.encode(codec) == got
    except UnicodeEncodeError:
        return G.fuzzy(exp, got, codec)


def split_addrs(v):
    """addresses of a header value (list of bytes without comments), RfcError if it is malformed"""
    out, cur, i, depth, ang = [], b"", 0, 0, False
    comments = []
    while i < len(v):
        c = v[i:i + 1]
        if depth:
            if c == b"\\":
                i += 2
                continue
            depth += (c == b"(") - (c == b")")
            i += 1
            continue
        if c == b'"':
            j = i + 1
            while j < len(v) and v[j:j + 1] != b'"':
                j += 2 if v[j:j + 1] == b"\\" else 1
            if j >= len(v):
                raise RfcError("open quote in %r" % v[:120])
            cur += v[i:j + 1]
            i = j + 1
            continue
        if c == b"(":
            depth = 1
        elif c == b")":
            raise RfcError("unbalanced ) in %r" % v[:120])
        elif c == b"<":
            if ang:
                raise RfcError("nested < in %r" % v[:120])
            ang = True
            cur += c
        elif c == b">":
            if not ang:
                raise RfcError("unbalanced > in %r" % v[:120])
            ang = False
            cur += c
        elif c in (b",", b";") and not ang:
            out.append(cur)
            cur = b""
        else:
            cur += c
        i += 1
    if depth or ang:
        raise RfcError("open comment or < in %r" % v[:120])
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def mailbox(v):
    """(address, display name still encoded) of a header with exactly one address"""
    L = split_addrs(v)
    if len(L) != 1:
        raise RfcError("%d addresses in %r" % (len(L), v[:150]))
    out, com, i, depth, st = b"", b"", 0, 0, None
    while i < len(v):
        c = v[i:i + 1]
        if depth:
            if c == b"\\":
                com += v[i + 1:i + 2]
                i += 2
                continue
            depth += (c == b"(") - (c == b")")
            if depth:
                com += c
        elif c == b"(":
            depth = 1
        elif c == b'"':
            j = i + 1
            while v[j:j + 1] != b'"':
                j += 2 if v[j:j + 1] == b"\\" else 1
            out += v[i:j + 1]
            i = j
        else:
            if c == b"<":
                st = len(out)
            out += c
        i += 1
    out = out.rstrip()
    if st is not None:
        if not out.endswith(b">"):
            raise RfcError("text after the address in %r" % v[:150])
        return out[st + 1:-1], unq(out[:st].strip())
    return out.strip(), com.strip()


def unq(p):
    if p.startswith(b'"') and p.endswith(b'"') and len(p) > 1:
        return re.sub(rb"\\(.)", rb"\1", p[1:-1])
    return p


def batch(data):
    """articles of an rnews batch"""
    out, pos = [], 0
    while pos < len(data):
        m = re.compile(rb"#! rnews (\d+)\n").match(data, pos)
        if not m:
            raise RfcError("no batch header at %d: %r" % (pos, data[pos:pos + 60]))
        n = int(m.group(1))
        pos = m.end()
        if pos + n > len(data):
            raise RfcError("article of %d bytes, %d left" % (n, len(data) - pos))
        out.append(data[pos:pos + n])
        pos += n
    return out


# ---- scenario ------------------------------------------------------------------------------------
BOUNCE = "Subject: bounce %s\nX-To: %%t\nX-From: %%f (%%O)\nX-Subject: %%s\n\nBOUNCE=%s\n%%R\n%%M"
ZONES = {"UTC": 0, "XXX-3": 180, "YYY5": -300}


class Scn:
    def __init__(self, case, focus):
        self.case, self.rng, self.focus = case, case.rng, focus
        rng = case.rng
        self.conf = []
        c = lambda k, p, v="": (self.conf.append((k + " " + v).strip()) or True) if rng.random() < p else False
        self.dot = c("DotNames", .2)
        self.fallback = "ftnuser" if c("FallbackUsername", .7, "ftnuser") else None
        self.mode = 0
        if rng.random() < .5:
            v, self.mode = rng.choice([("<", 1), ("a", 1), ("1", 1), ("(", 0), ("0", 0)])
            self.conf.append("RFCAddrMode " + v)
        self.defcs, self.cs_out = "cp866", "utf-8"
        if rng.random() < .8:
            self.defcs = rng.choice(["cp866", "cp866", "koi8-r", "ISO-8859-1", "utf-8"])
            self.cs_out = rng.choice(["utf-8", "koi8-r", "ISO-8859-1", "windows-1251"])
            self.conf.append("DefaultCharset %s:cp866:%s:koi8-r" % (self.defcs, self.cs_out))
        self.net_def, self.net_out = self.defcs, self.cs_out
        if rng.random() < .3:
            self.net_def, self.net_out = rng.choice(["cp866", "ISO-8859-1"]), rng.choice(["utf-8", "koi8-r"])
            self.conf.append("NetMailCharset %s:cp866:%s" % (self.net_def, self.net_out))
        self.cs_alias = {}
        if rng.random() < .35:
            for real, al in rng.sample([("cp866", ["+7FIDO", "FIDO7", "CP-866"]), ("koi8-r", ["KOI8", "+7KOI"]), ("ISO-8859-1", ["WEST"]), ("utf-8", ["FIDOU"])], rng.randint(1, 3)):
                self.conf.append("CharsetAliasesFSC %s %s" % (real, " ".join(al)))
                self.cs_alias.update((a, real) for a in al)
        self.ign_chrs = c("IgnoreCHRS", .15)
        self.soft = c("IgnoreSoftCR", .15)
        self.plain = c("NetMailHeadersPlain", .12)
        for k in ("NetMail8bit", "NetMailQuotedPrintable", "NetMailBase64"):
            c(k, .25)
        self.single = c("SingleArticles", .3)
        self.tracker = "tracker@gate.example.org" if c("TrackerMail", .3, "tracker@gate.example.org") else None
        self.nounk = c("KillUnknownMSGIDZone", .15)
        self.noid = c("KillNoMSGID", .15)
        self.killsplit = c("KillSplit", .2)
        self.useorig = c("UseOriginForOrganization", .3)
        self.errors_to = c("ErrorsTo", .2, "errs@gate.example.org")
        self.noaddr = c("NoAddressInToField", .2)
        self.useto = c("UseFTNToAddress", .2)
        self.hostres = c("HostsRestricted", .25)
        self.grk = c("GateRfcKludge", .3)
        self.junk = "fido.junk" if c("FTNJunkGroup", .3, "fido.junk") else None
        self.nodbc = c("NoDBCHistory", .5)
        self.xftn = "".join(x for x in "ftTOVDSPKF" if rng.random() < .5) if rng.random() < .6 else ""
        if self.xftn:
            self.conf.append("X-FTN " + self.xftn)
        self.cc = c("BounceCCMail", .2, "postmaster@gate.example.org")
        self.tail = "tail!not-for-mail" if c("NewsPathTail", .3, "tail!not-for-mail") else "fidogate!not-for-mail"
        c("Organization", .5, "Org of the gate")
        self.args = []
        self.insecure = rng.random() < .15
        if self.insecure:
            self.args.append("-t")
        self.ighosts = rng.random() < .2
        if self.ighosts:
            self.args.append("-i")
        if rng.random() < .2:
            self.args.append("-1")
            self.single = True
        if rng.random() < .3:
            self.args.append("-l")
        self.tz = rng.choice(list(ZONES))
        self.aliases = [("jsmith", "2:5030/100", None, "John Smith"), ("ivan.p", "2:5030/7.1", "mail.example.org", "Ivan"), ("al", "2:5030/100", "people.example.org", "Al"),
                        ("mj@people.example.org", "2:5030/100", None, "Mary-Jane")]
        self.hosts = [("2:5030/7", "known", "-"), ("2:5030/8", "-", "-d")]
        # areas: name -> (group, zone, dict of options)
        self.areas = {}
        for i in range(rng.choice([1, 3, 6])):
            o = {}
            if rng.random() < .2:
                o["g"] = True
            if rng.random() < .3:
                o["cs"] = (rng.choice(["cp866", "koi8-r"]), rng.choice(["utf-8", "koi8-r", "ISO-8859-1"]))
            if rng.random() < .4:
                o["enc"] = rng.choice(["8", "Q", "b"])
            if rng.random() < .2:
                o["dist"] = "fido"
            if rng.random() < .2:
                o["x"] = ("X-Area-Note", "note %d" % i)
            if rng.random() < .15:
                o["nh"] = True
            g = rng.choice(["fido.g%d" % i, "fido.very.long.group.name.%d.%s" % (i, "x" * rng.choice([5, 60]))])
            self.areas["AREA.%d" % i] = (g, rng.choice([2, 2, 1]), o)
        self.carbon = None
        if rng.random() < .25:
            if rng.random() < .3:
                self.conf.append("CarbonNameGroup Nobody_Else local.x local.y")
            self.carbon = ("John_Smith", "local.to.js", rng.choice(["local.from.js", None]))
            self.conf.append("CarbonNameGroup " + " ".join(x for x in self.carbon if x))
            if rng.random() < .3:
                self.conf.append("CarbonNameGroup Nobody local.z")
        self.junkopt = {}
        if self.junk and rng.random() < .6:
            self.junkopt = rng.choice([{"dist": "junk"}, {"x": ("X-Area-Note", "junk")}, {"g": True}])
            self.conf.append("FTNJunkGroupKeys ANY some.group -z 2 -a 2:5030/100" + {"dist": " -d junk", "x": ' -X "X-Area-Note: junk"', "g": " -g"}[list(self.junkopt)[0]])

    def setup(self, Spool):
        sp = self.sp = Spool(self.case, addrs=("2:5030/100", "1:170/100"), conf=self.conf)
        sp.put("etc/acl", "Netmail\n* *\nEchoMail\n* *\n")
        sp.put("etc/aliases", "".join('%s\t%s\t"%s"\n' % (u + ("@" + d if d else ""), n, f) for u, n, d, f in self.aliases))
        sp.put("etc/hosts", "".join("%s\t%s\t%s\n" % h for h in self.hosts))
        L = ""
        for a, (g, z, o) in self.areas.items():
            l = "%s %s -z %d -a 2:5030/100" % (a, g, z)
            if o.get("g"):
                l += " -g"
            if "cs" in o:
                l += " -C %s:cp866:%s" % o["cs"]
            if "enc" in o:
                l += " -" + o["enc"]
            if "dist" in o:
                l += " -d " + o["dist"]
            if "x" in o:
                l += ' -X "%s: %s"' % o["x"]
            if o.get("nh"):
                l += " -nh"
            L += l + "\n"
        sp.put("etc/areas", L)
        for r in ("acl", "acl_netmail", "addrinto", "down", "insecure", "noto", "restricted"):
            sp.put("etc/bounce." + r, BOUNCE % (r, r))
        return sp

    # -- one message -------------------------------------------------------------------------------
    def message(self, k, kind):
        """(pkt.Msg, expectation dict)"""
        rng = self.rng
        E = {"kind": kind, "area": None, "tag": "TAG%dX%d" % (self.case.index, k)}
        area = None
        o = {}
        if kind == "echo":
            area = rng.choice(list(self.areas) * 4 + ["UNKNOWN.AREA", "OTHER.UNKNOWN"])
            g, z, o = self.areas.get(area, (self.junk, 0, self.junkopt))
            E["group"], E["area"] = g, area
            if g is None:
                E["skip"] = "unknown area"
            E["zone"] = z
        dcs, out = (self.net_def, self.net_out) if kind == "net" else o.get("cs", (self.defcs, self.cs_out))
        real = dcs
        chrs = None
        if not self.ign_chrs and rng.random() < .5:
            real, chrs = rng.choice([("cp866", "CHRS: CP866 2"), ("cp866", "CHRS: IBMPC 2|CODEPAGE: 866"), ("koi8-r", "CHRS: KOI8-R 2"), ("utf-8", "CHRS: UTF-8 4"),
                                     ("ISO-8859-1", "CHRS: LATIN-1 2"), ("us-ascii", "CHRS: ASCII 1"), ("koi8-r", "CHARSET: KOI8-R")])
            if self.cs_alias and rng.random() < .5:
                al = rng.choice(sorted(self.cs_alias))
                real, chrs = self.cs_alias[al], "CHRS: %s 2" % al
        codec = {"ISO-8859-1": "latin-1", "us-ascii": "ascii"}.get(real, real)
        E["out"], E["codec"] = out, ENC8[out]
        ok = lambda s: G.enc_ok(s, codec) and not (self.soft and b"\x8d" in s.encode(codec))
        name = lambda: rng.choice([n for n in (SAFE_NAMES * 3 + SPECIAL_NAMES + CYR_NAMES * 2) if ok(n) and len(n.encode(codec)) <= 35])
        frm, to = name(), name()
        orig = rng.choice(["2:5030/7", "2:5030/7.1", "2:5030/8", "2:5030/8.3", "2:5030/9.77", "2:5030/100", "1:170/5", "3:712/1.2"])
        dest = "2:5030/100"
        hdr = []
        E["cc"], E["bcc"], E["replyto"] = None, None, None
        rfc_to = rfc_from = None
        if rng.random() < (.45 if kind == "net" else .12):
            if rng.random() < .75 or kind == "net" and rng.random() < .5:
                u = rng.choice(USERS)
                cy = rng.choice([n for n in CYR_NAMES if ok(n) and not re.search('[",()]', n)] or ["Some One"])
                rfc_to = rng.choice([cy + " <%s>" % u, '"%s" <%s>' % (cy, u), "%s (%s)" % (u, cy), u, u, u + " (Some One)", "Some One <%s>" % u, "%s, %s" % (u, rng.choice(USERS)), '"One, Some" <%s>' % u, "local@gate.example.org"])
                hdr.append("To: " + rfc_to)
            if rng.random() < .3:
                u = rng.choice(USERS)
                rfc_from = rng.choice([u, u + " (Real Name)", "Real Name <%s>" % u, '"Name, Real" <%s>' % u])
                hdr.append("From: " + rfc_from)
            for h, key in (("Cc", "cc"), ("Bcc", "bcc"), ("Reply-To", "replyto")):
                if rng.random() < .25:
                    v = rng.choice(USERS) + rng.choice(["", ", " + rng.choice(USERS)])
                    hdr.append("%s: %s" % (h, v))
                    E[key] = v
            rng.shuffle(hdr)
        if kind == "net" and rng.random() < .2:
            to = rng.choice(["user@example.org", "UUCP", "GATEWAY", "uucp", "host!user", "u%example.org", "MsgTrack 2.0", "user@bad_dom", "a b@example.org", "x, y@example.org", "Al", "John Smith", "Mary-Jane"])
        if kind == "net" and rng.random() < .08:
            frm = rng.choice(["MsgTrack+ 1.0", "ITrack", "FTrack x"])
        if kind == "net" and rng.random() < .15:
            frm, orig = "Ivan", "2:5030/7.1"
        if self.carbon and rng.random() < .4:
            if rng.random() < .5:
                to = "John Smith Jr"
            else:
                frm = "John Smith"
        pools = [p for p in (["Re: test", "Hello", "A question", "subject", "word"], G.CYR, G.LAT, G.ODD) if all(ok(w) for w in p)]
        subj = G.words(rng, pools, rng.choice([0, 1, 2, 5, 9]))
        while len(subj.encode(codec)) > 71:
            subj = subj[:-1]
        subj = subj.strip()
        rfc_subj = None
        if hdr and rng.random() < .3:
            rfc_subj = G.words(rng, pools, rng.choice([3, 12, 25]))
            hdr.append("Subject: " + rfc_subj)
        E["subject"] = rfc_subj if rfc_subj is not None else (subj or "(no subject)")
        # text
        lines = [E["tag"] + " first line"] + [l for l in G.mklines(rng, codec, ctrl=False) if ok(l) and len(l.encode(codec)) < 15000]
        if rng.random() < .3:
            lines += [rng.choice(["#! rnews 100", "From me Mon", ".", "Path: x!y", "Control: cancel <x@y>", "=?", "--- ", "---", "#! rnews 0"]), "end"]
        if kind == "echo":
            lines = [l for l in lines if not l.startswith("SEEN-BY")]
        if lines[-1].startswith("---") and lines[-1][3:4] in ("", " "):
            lines.append("x")
        E["text"] = lines
        # control lines
        K = []
        if kind == "net":
            on, dn = N(orig), N(dest)
            if on.zone != dn.zone or rng.random() < .5:
                K.append("INTL %d:%d/%d %d:%d/%d" % (dn.zone, dn.net, dn.node, on.zone, on.net, on.node))
            if on.point:
                K.append("FMPT %d" % on.point)
        E["id"] = None
        if rng.random() < .85:
            r = rng.random()
            if r < .75:
                E["id"] = "%s %08x" % (orig, rng.getrandbits(32))
            elif r < .8:
                E["id"] = "<NOMSGID_x@y.z> 12345678"
                E["skip"] = E.get("skip") or "nomsgid"
            elif r < .9:
                E["id"] = "77:1/2 %08x" % rng.getrandbits(32)
                if self.nounk:
                    E["skip"] = E.get("skip") or "unknown zone"
            else:
                E["id"] = "garbage%d" % rng.getrandbits(30)
                if self.nounk:
                    E["skip"] = E.get("skip") or "unknown zone"
            K.append("MSGID: " + E["id"])
        elif self.noid:
            E["skip"] = E.get("skip") or "no msgid"
        if not K and kind == "net":
            K.append("PID: test")
        t = rng.randrange(946684800, 1790000000) // 2 * 2
        if rng.random() < .06:
            t = int(time.time()) + rng.choice([3, 40, 400]) * 86400
        E["tz"] = None
        if rng.random() < .4:
            zz = rng.choice(["0300", "-0500", "0000", "0530", "1245", "-0930", "+0200", "-0330"])
            K.append("TZUTC: " + zz)
            s = -1 if zz[0] == "-" else 1
            d = zz.lstrip("+-")
            E["tz"] = s * (int(d[:2]) * 60 + int(d[2:]))
        E["utc"] = t - 60 * (ZONES[self.tz] if E["tz"] is None else E["tz"])
        if chrs:
            K += chrs.split("|")
        if rng.random() < .1:
            K.append("SPLIT: 30 Mar 90 11:12:34 @494/4 123 02/03 +++++++++++")
            if self.killsplit:
                E["skip"] = "split"
        if rng.random() < .15:
            K.append("PID: GIGO+ 3" if rng.random() < .4 else "PID: GED 2.50")
        if o.get("g") and (rfc_from or any(k.startswith("PID: GIGO") for k in K)):
            E["skip"] = E.get("skip") or "gateway"
        if rng.random() < .1:
            K.append("GATEWAY: FTN2X")
        if rng.random() < .1:
            K.append("Content-Transfer-Encoding: 7bit" if False else "RFC-Content-Transfer-Encoding: " + rng.choice(["7bit", "8bit", "quoted-printable", "base64"]))
            K.append("RFC-MIME-Version: 1.0")
        if rng.random() < .25:
            K.append("REPLY: %s %08x" % (orig, rng.getrandbits(32)))
            E["reply"] = K[-1][7:]
        rng.shuffle(K)
        E["kludges"] = K
        tear, origin = None, None
        if rng.random() < .8:
            tear = "--- Editor 1.0"
        E["place"] = orig
        if kind == "echo" and rng.random() < .12:
            # no origin line with an address: the address in the MSGID
            m = re.match(r"(\d+:\d+/\d+(\.\d+)?) ", E["id"] or "")
            E["place"] = m.group(1) if m else None
            if rng.random() < .5:
                origin = " * Origin: " + rng.choice(["nowhere", "(none)", "(2:x/y)"])
        elif kind == "echo" or rng.random() < .2:
            origin = " * Origin: %s (%s)" % (rng.choice(["Somewhere", "A (b) c", "Где-то" if ok("Где-то") else "x", ""]), orig)
        E["origin"], E["orig"], E["frm"], E["to"] = origin, E["place"] if kind == "echo" else orig, frm, to
        b = b""
        if kind == "echo":
            b += b"AREA:" + area.encode() + b"\r"
        b += b"".join(b"\x01" + k.encode(codec) + b"\r" for k in K)
        b += b"".join(h.encode(codec) + b"\r" for h in hdr)
        if hdr and rng.random() < .6:
            b += b"\r"
        eol = b"\r\n" if rng.random() < .15 else b"\r"
        b += b"".join(l.encode(codec) + eol for l in lines)
        if tear:
            b += tear.encode() + b"\r"
        if origin:
            b += origin.encode(codec) + b"\r"
        if kind == "echo":
            b += b"SEEN-BY: 5030/7 100\r\x01PATH: 5030/7\r"
        else:
            b += b"".join(b"\x01Via %s @20240101.000000 x\r" % orig.encode() for _ in range(rng.choice([0, 1, 2])))
        date = time.strftime("%d %b %y  %H:%M:%S", time.gmtime(t)).encode()
        po, pd = N(orig), N(dest)
        attr = rng.choice([0, 1, 1, 0x1001, 0x101])
        E["attr"] = attr
        m = Msg(frm.encode(codec), to.encode(codec), subj.encode(codec), b, po, pd, attr, 0, date)
        E["frm_b"], E["to_b"], E["incodec"], E["in"] = frm.encode(codec), to.encode(codec), codec, real
        E["rfc_to"], E["rfc_from"] = rfc_to, rfc_from
        self.resolve(E, dest)
        return m, E

    def alias(self, node, real):
        for u, n, d, f in self.aliases:
            if n == node and f.lower() == real.lower():
                return u, d
        return None

    def resolve(self, E, dest):
        """fills in from address, recipients, bounce reason"""
        fb, tb = E["frm_b"].rstrip(), E["to_b"].rstrip()
        uf, ut = user_of(fb, self.dot, self.fallback), user_of(tb, self.dot, self.fallback)
        rf, rt = real_of(fb), real_of(tb)
        dec = lambda b: b.decode(E["incodec"])
        faddr, freal = uf + b"@" + inet(E["orig"], False).encode(), rf
        if not E["rfc_from"]:
            a = self.alias(E["orig"], dec(rf))
            if a:
                faddr = a[0].encode() if "@" in a[0] else a[0].encode() + b"@" + (a[1] or inet(E["orig"], False)).encode()
                uf = a[0].split("@")[0].encode()
        else:
            u, n = email.utils.parseaddr(E["rfc_from"])[::-1]
            faddr = u.encode()
            freal = n.encode() if n else rf
        if E["kind"] == "echo":
            E["from"] = (faddr, dec(freal))
            return
        uucp = dec(rt).lower() in ("uucp", "gateway")
        mail_to, tofield = None, False
        if not E["rfc_to"]:
            a = self.alias(dest, dec(rt))
            if a and b"@" not in tb:
                u, d = a
                if "@" in u:
                    u, d = u.split("@")
                mail_to = u.encode() + (b"@" + d.encode() if d else b"")
            else:
                mail_to, tofield = ut, True
        if self.insecure and E["rfc_to"]:
            E["bounce"] = "insecure"
        elif True:
            if self.tracker and any(uf.lower().startswith(x) for x in (b"msgtrack", b"trackm", b"itrack", b"ftrack")):
                E["xorig"] = mail_to
                mail_to, uucp, tofield = self.tracker.encode(), False, False
            to_local = E["rfc_to"] and self.local(E["rfc_to"])
            if self.hostres and not self.ighosts and E["rfc_to"] and not to_local:
                h = [x for x in self.hosts if x[0] == E["orig"].split(".")[0] or x[0] == E["orig"]]
                if not h:
                    E["bounce"] = "restricted"
                elif "-d" in h[0][2]:
                    E["bounce"] = "down"
            if "bounce" not in E:
                mt = mail_to or b""
                if re.search(rb"[@%!]", mt):
                    if not tofield:
                        pass
                    elif self.noaddr:
                        E["bounce"] = "addrinto"
                    else:
                        i = tb.find(b"@")
                        if i < 0:
                            i = tb.find(b"%")
                        if i >= 0 and re.fullmatch(rb"[A-Za-z0-9.-]+", tb[i + 1:]) and not re.search(rb'[()<>,;:\\"\[\]]', tb[:i]):
                            mail_to = tb
                elif not E["rfc_to"]:
                    if uucp:
                        E["bounce"] = "noto"
                    else:
                        mail_to = mt + b"@" + (inet(dest).encode() if self.useto else b"gate.example.org")
        E["from"] = (faddr, dec(freal))
        if E["rfc_to"]:
            E["rcpt"] = [a.encode() for _, a in email.utils.getaddresses([E["rfc_to"]])]
        else:
            E["rcpt"] = [mail_to]

    def local(self, rfc_to):
        d = email.utils.getaddresses([rfc_to])[-1][1].split("@")[1]
        return d == "example.org" or d.endswith(".example.org")


# ---- execution and oracle ------------------------------------------------------------------------
ONCE_OK_MANY = {"received", "x-ftn-kludge", "x-ftn-via", "x-ftn-recd", "x-ftn-seen-by", "x-ftn-path"}
KNOWN = ONCE_OK_MANY | {"date", "x-original-date", "from", "reply-to", "user-agent", "x-newsreader", "subject", "message-id", "references", "to", "cc", "bcc", "x-orig-to", "errors-to",
                        "return-receipt-to", "organization", "lines", "x-gateway", "x-ftn-from", "x-ftn-to", "x-ftn-flags", "x-ftn-tearline", "x-ftn-origin", "x-ftn-domain", "x-split",
                        "mime-version", "content-type", "content-transfer-encoding"}
NEWS = {"path", "newsgroups", "followup-to", "distribution", "x-comment-to", "x-ftn-area", "x-area-note"}
MAIL_ONLY = {"received", "to", "cc", "bcc", "x-orig-to", "errors-to", "return-receipt-to", "x-ftn-to"}


def outputs(case, sp, single):
    """([(path, Rfc) of mails], [(path, Rfc) of articles]); what cannot be read is reported"""
    mails, arts = [], []
    for p in sp.ls("spool/outrfc/mail"):
        d = open(p, "rb").read()
        case.check(p.endswith(".rfc"), "left-over", "%s left in the mail directory" % p)
        try:
            mails.append((p, Rfc(d, True)))
        except RfcError as e:
            case.fail("malformed-mail", "%s: %s" % (p.split("/")[-1], e))
    for p in sp.ls("spool/outrfc/news"):
        d = open(p, "rb").read()
        case.check(p.endswith(".rfc"), "left-over", "%s left in the news directory" % p)
        try:
            L = [d] if single else batch(d)
        except RfcError as e:
            case.fail("batch-framing", "%s: %s" % (p.split("/")[-1], e))
            continue
        for a in L:
            try:
                arts.append((p, Rfc(a, False)))
            except RfcError as e:
                case.fail("malformed-article", "%s: %s" % (p.split("/")[-1], e))
    return mails, arts


def headers_known(case, r, kind, what):
    ok = KNOWN | (NEWS if kind == "echo" else set())
    if kind == "echo":
        ok = ok - MAIL_ONLY
    n = {}
    for k, v in r.h:
        k = k.lower()
        n[k] = n.get(k, 0) + 1
        case.check(k in ok, "foreign-header", "%s: header %s: %r is none of the gateway's" % (what, k, v[:100]))
        case.check(n[k] == 1 or k in ONCE_OK_MANY, "repeated-header", "%s: header %s occurs %d times" % (what, k, n[k]))
    for k in ("From", "Date", "Message-ID", "Subject", "To" if kind == "net" else "Newsgroups"):
        case.check(r.get(k) is not None, "missing-header", "%s: no %s header" % (what, k))


def body_lines(E, S):
    out = []
    for l in E["text"]:
        s = ""
        for c in l:
            if c < " " and c not in "\t\f":
                s += "^" + chr(ord(c) + 64)
            else:
                s += c
        out.append(s)
    return out


def check_body(case, r, E, what):
    try:
        d, cs = r.text()
    except (RfcError, ValueError) as e:
        case.fail("unreadable-text", "%s: %s" % (what, e))
        return
    exp = [l for l in body_lines(E, None)]
    if cs == "us-ascii":
        case.check(not any(c > 127 for c in d), "text-charset", "%s: 8-bit text declared us-ascii" % what)
    else:
        case.check(cs == E["out"], "text-charset", "%s: text declared %s instead of %s" % (what, cs, E["out"]))
    got = d.split(b"\n")
    case.check(got and got[-1] == b"", "text", "%s: last line not ended" % what)
    got = got[:-1]
    n = r.get("Lines")
    case.check(n is not None and n.strip() in (b"%d" % len(got), b"%d" % (len(got) - (not got[-1:] or not got[-1]))), "lines-header", "%s: Lines: %r for %d lines" % (what, n, len(got)))
    while exp and not exp[-1].strip():
        exp.pop()
    while got and not got[-1].strip():
        got.pop()
    while got and not got[0].strip():
        got.pop(0)
    case.check(len(exp) == len(got), "text", "%s: %d lines of text instead of %d: %r" % (what, len(got), len(exp), got[:3]))
    for a, b in zip(exp, got):
        if not text_match(a, b, E["codec"]):
            case.fail("text", "%s: line %r became %r (%s)" % (what, a[:200], b[:200], cs))
            break
    case.evals += len(exp)


def check_common(case, S, r, E, what):
    headers_known(case, r, E["kind"], what)
    o = S.areas[E["area"]][2] if E.get("area") in S.areas else S.junkopt if E.get("area") else {}
    plain = o.get("nh") if E["kind"] == "echo" else S.plain
    # From
    addr, real = E["from"]
    v = r.get("From") or b""
    u8 = any(c > 127 for c in addr)
    try:
        if not u8:
            a, n = mailbox(v)
            case.check(a == addr, "sender", "%s: From %r instead of %r" % (what, a, addr))
            if S.mode == 0 or n or real:
                n = decoded(n, E["out"]) if not plain else n
                e = re.sub(r"\s+", " ", real).strip()
                n = squeeze(n)
                ok = text_match(e, n, E["codec"])
                if not ok and any(c in e for c in "«»“”") is False:
                    ok = False
                case.check(ok, "sender-name", "%s: sender's name %r became %r" % (what, e, n))
    except (RfcError, ValueError) as e:
        case.fail("sender", "%s: From: %s" % (what, e))
    # Subject
    v = r.get("Subject") or b""
    try:
        g = squeeze(decoded(v, E["out"]) if not plain else v)
        e = re.sub(r"[ \t]+", " ", E["subject"]).strip()
        case.check(text_match(e, g, E["codec"]), "subject", "%s: subject %r became %r" % (what, e, g))
    except (RfcError, ValueError) as e:
        case.fail("subject", "%s: %s" % (what, e))
    if plain:
        for k, v in r.h:
            case.check(not EW.search(v), "plain-headers", "%s: %s encoded though the configuration asks for plain headers" % (what, k))
    else:
        for k, v in r.h:
            if k.lower() in ("subject", "from", "x-comment-to", "organization", "to", "x-ftn-origin", "x-ftn-from", "x-ftn-to"):
                case.check(not any(c > 127 for c in v), "raw-8bit-header", "%s: 8-bit characters in %s: %r" % (what, k, v[:80]))
    # Date
    def when(h):
        d = email.utils.parsedate_tz((r.get(h) or b"").decode("latin-1"))
        if d is None or d[9] is None:
            case.fail("date", "%s: %s %r unreadable" % (what, h, r.get(h)))
            return None
        return calendar.timegm(d[:6] + (0, 0, 0)) - d[9]
    now = time.time()
    fut = E["utc"] > now + 86400
    w = when("X-Original-Date" if fut else "Date")
    if w is not None and abs(E["utc"] - now - 86400) > 60:
        case.check(w == E["utc"], "date", "%s: date %s instead of %s" % (what, time.strftime("%F %T", time.gmtime(w)), time.strftime("%F %T", time.gmtime(E["utc"]))))
        if fut:
            w = when("Date")
            case.check(w is None or abs(w - now) < 100000, "date", "%s: date in the future left" % what)
    # ids
    mid = r.get("Message-ID") or b""
    case.check(re.fullmatch(rb"<[^<>@\s]+@[^<>@\s]+>", mid) is not None, "message-id", "%s: Message-ID %r" % (what, mid))
    if E["id"] is None:
        case.check(mid.startswith(b"<NOMSGID_"), "message-id", "%s: Message-ID %r without MSGID" % (what, mid))
    else:
        case.check(mid.startswith(b"<MSGID_"), "message-id", "%s: Message-ID %r for %s" % (what, mid, E["id"]))
    ref = r.get("References")
    case.check((ref is not None) == ("reply" in E), "references", "%s: References %r, REPLY %r" % (what, ref, E.get("reply")))
    check_body(case, r, E, what)


def check_mail(case, S, r, E, what):
    check_common(case, S, r, E, what)
    addr = E["from"][0]
    m = re.match(rb"From (.*) ((Mon|Tue|Wed|Thu|Fri|Sat|Sun) \w{3} [ \d]\d \d\d:\d\d:\d\d \d{4})$", r.envelope)
    case.check(m is not None and m.group(1) == addr, "envelope", "%s: envelope %r, sender %r" % (what, r.envelope, addr))
    for h, exp in (("To", E["rcpt"]), ("Cc", E["cc"] if E["rfc_to"] else None), ("Bcc", E["bcc"] if E["rfc_to"] else None), ("Reply-To", E["replyto"])):
        v = r.get(h)
        if exp is None:
            case.check(v is None, "recipient", "%s: unexpected %s: %r" % (what, h, v))
            continue
        if isinstance(exp, str):
            exp = [a.encode() for _, a in email.utils.getaddresses([exp])]
        if any(c > 127 for a in exp for c in a):
            case.check(v is not None, "recipient", "%s: no %s" % (what, h))
            continue
        try:
            g = []
            for x in split_addrs(v or b""):
                mm = re.search(rb"<([^<>]*)>$", x)
                g.append(mm.group(1) if mm else x)
            case.check(g == exp, "recipient", "%s: %s %r instead of %r" % (what, h, g, exp))
        except RfcError as e:
            case.fail("recipient", "%s: %s" % (what, e))
    x = E.get("xorig")
    case.check((r.get("X-Orig-To") is not None) == bool(x), "x-orig-to", "%s: X-Orig-To %r instead of %r" % (what, r.get("X-Orig-To"), x))
    case.check((r.get("Return-Receipt-To") is not None) == bool(E["attr"] & 0x1000), "receipt", "%s: Return-Receipt-To %r, attributes %#x" % (what, r.get("Return-Receipt-To"), E["attr"]))
    case.check((r.get("Errors-To") is not None) == S.errors_to, "errors-to", "%s: Errors-To %r" % (what, r.get("Errors-To")))


def check_article(case, S, r, E, what):
    check_common(case, S, r, E, what)
    g = E["group"].encode()
    extra = None
    if S.carbon:
        nm, c_to, c_from = S.carbon
        pre = nm.replace("_", " ").lower()
        f = any(E["frm"].lower().startswith(x) for x in (pre, nm.lower()))
        t = any(E["to"].lower().startswith(x) for x in (pre, nm.lower()))
        extra = c_from if f and c_from else c_to if t else None
    exp = g + (b"," + extra.encode() if extra else b"")
    case.check(r.get("Newsgroups") == exp, "newsgroup", "%s: Newsgroups %r instead of %r" % (what, r.get("Newsgroups"), exp))
    case.check((r.get("Followup-To") or None) == (g if extra else None), "newsgroup", "%s: Followup-To %r" % (what, r.get("Followup-To")))
    z = E["zone"]
    this = {1: "f100.n170.z1.fidonet.org"}.get(z, "f100.n5030.z2.fidonet.org")
    up = inet(E["up"])
    p = "!".join([this] + ([up] if up != this else []) + [inet(E["orig"]), S.tail])
    case.check(r.get("Path") == p.encode(), "path", "%s: Path %r instead of %r" % (what, r.get("Path"), p))
    o = S.areas[E["area"]][2] if E["area"] in S.areas else S.junkopt
    case.check((r.get("Distribution") is not None) == ("dist" in o), "distribution", "%s: Distribution %r" % (what, r.get("Distribution")))
    if "x" in o:
        case.check(r.get(o["x"][0]) == o["x"][1].encode(), "extra-header", "%s: %s: %r" % (what, o["x"][0], r.get(o["x"][0])))
    # addressee
    if not o.get("nh"):
        try:
            v = decoded(r.get("X-Comment-To") or b"", E["out"])
            if E["rfc_to"]:
                f = re.sub(r"\s+", " ", E["rfc_to"])
                case.check(text_match(f, squeeze(v), E["codec"]) or text_match(f, squeeze(v)[:len(f.encode("utf-8", "replace"))], E["codec"]) or f.isascii() and f.encode() in v, "comment-to", "%s: X-Comment-To %r for To: %s" % (what, v, E["rfc_to"]))
            else:
                e = re.sub(r"\s+", " ", real_of(E["to_b"]).decode(E["incodec"]))
                case.check(text_match(e, squeeze(v), E["codec"]), "comment-to", "%s: X-Comment-To %r for %r" % (what, v, e))
        except (RfcError, ValueError) as e:
            case.fail("comment-to", "%s: %s" % (what, e))
    if S.useorig and E["origin"] and not o.get("nh"):
        e = E["origin"][len(" * Origin: "):]
        e = re.sub(r"\s+", " ", e[:e.rindex("(")] if "(" in e else e).strip()
        if e:
            try:
                v = squeeze(decoded(r.get("Organization") or b"", E["out"]))
                case.check(text_match(e, v, E["codec"]), "organization", "%s: Organization %r for origin %r" % (what, v, E["origin"]))
            except (RfcError, ValueError) as e:
                case.fail("organization", "%s: %s" % (what, e))
    if "O" in S.xftn and E["origin"]:
        case.check(r.get("X-FTN-Origin") is not None, "x-ftn", "%s: no X-FTN-Origin" % what)


def run_case(case, kinds, Spool, nmax=14):
    rng = case.rng
    S = Scn(case, kinds)
    sp = S.setup(Spool)
    sent = []
    k = 0
    npk = rng.choice([1, 1, 2, 3])
    for j in range(npk):
        ms = []
        up = "2:5030/7" + rng.choice(["", "", ".3"])
        for i in range(rng.randrange(1, nmax)):
            m, E = S.message(k, rng.choice(kinds))
            E["up"] = up
            k += 1
            ms.append(m)
            sent.append(E)
        sp.put("bt/pin/%08x.pkt" % (j + 1), Pkt(N(up), N("2:5030/100" + (rng.choice(["", "", ".5"]) if not any(E["kind"] == "echo" for E in sent[-len(ms):]) else "")), ms).raw())
    R = sp.run("gate/ftn2rfc", *S.args, env={"TZ": S.tz})
    case.san(R)
    case.check(R.rc == 0, "exit", "ftn2rfc exited with %s: %s" % (R.rc, R.err[-200:]))
    case.check(not sp.ls("bt/pin"), "input-kept", "input left: %s; log: %s" % (sp.ls("bt/pin"), sp.log()[-300:]))
    mails, arts = outputs(case, sp, S.single)
    by = {}
    for kind, L in (("net", mails), ("echo", arts)):
        for p, r in L:
            if kind == "net" and r.envelope.startswith(b"From Mailer-Daemon "):
                t = re.findall(rb"TAG\d+X\d+", r.body)
                b = re.search(rb"BOUNCE=(\w+)", r.body)
                key = ("bounce", t[0].decode() if t else "?", b.group(1).decode() if b else "?")
            else:
                try:
                    d = r.text()[0]
                except (RfcError, ValueError):
                    d = r.body
                t = re.findall(rb"TAG\d+X\d+", d)
                key = (kind, t[0].decode() if t else "?")
                if len(t) > 1:
                    case.fail("mixed", "messages %s in one output" % t[:4])
            by.setdefault(key, []).append((p, r))
    exp = {}
    for E in sent:
        if "skip" in E and ("bounce" not in E or E["skip"] == "split"):
            case.seen("not_gated_by_configuration")
            continue
        if "bounce" in E:
            exp[("bounce", E["tag"], E["bounce"])] = E
        else:
            exp[(E["kind"], E["tag"])] = E
    for key, E in exp.items():
        L = by.pop(key, [])
        what = "%s %s (%s -> %s)" % (E["kind"], E["tag"], E["frm"], E["to"])
        if len(L) != 1:
            case.fail("lost" if not L else "duplicate", "%s: expected %s, written %d times; log: %s" % (what, key, len(L), sp.log()[-400:]))
            continue
        p, r = L[0]
        case.evals += 1
        if key[0] == "bounce":
            case.seen("bounces")
            case.sig("bounce " + key[2])
            v = r.get("To") or b""
            if not any(c > 127 for c in E["from"][0] + v):
                try:
                    a, n = mailbox(v)
                    # (the sender by his FTN address)
                    case.check(a == E["from"][0] or E["rfc_from"], "bounce-recipient", "%s: bounce to %r instead of %r" % (what, a, E["from"][0]))
                except RfcError as e:
                    case.fail("bounce-recipient", "%s: %s" % (what, e))
            case.check((r.get("Cc") is not None) == S.cc, "bounce-recipient", "%s: Cc %r of a bounce" % (what, r.get("Cc")))
            continue
        case.seen("articles" if E["kind"] == "echo" else "mails")
        case.sig("%s|%s|%s|%s|%s" % (E["kind"], E["in"], E["out"], r.get("Content-Transfer-Encoding"), S.mode))
        (check_article if E["kind"] == "echo" else check_mail)(case, S, r, E, what)
    for key, L in by.items():
        case.fail("unexpected", "unexpected output %s (%s): %r" % (key, L[0][0], L[0][1].raw[:300]))
    if not S.single:
        case.check(len(sp.ls("spool/outrfc/news")) <= npk, "batches", "%d batches for %d packets" % (len(sp.ls("spool/outrfc/news")), npk))
    case.sample = "%d messages in %d packets: %d mails, %d articles; %s" % (len(sent), npk, len(mails), len(arts), " ".join(S.args + S.conf)[:200])
