"""P22: whatever an FTN message contains, the Internet message has the gateway's header lines, recipients and newsgroups only"""
import re, time
from vlib.harness import Check
from vlib.spool import Spool
from vlib import ungate as U
from vlib.pkt import N, Msg, Pkt

EVIL = b"evil@bad.org"
INJ = [b"\nBcc: " + EVIL, b"\r\nBcc: " + EVIL, b"\rCc: " + EVIL, b"\n\nforged text", b"\r\r", b"\n\n", b"\n", b"\x0b", b"\x0c", b"\x85", b"\x1b$B!!", b"\x1b(B", b"\x7f", b"\x01", b"\x08\x08",
       b"=?utf-8?Q?=0ABcc:_evil@bad.org?=", b"=?utf-8?B?CkJjYzogZXZpbEBiYWQub3JnCg==?=", b", " + EVIL, b"; " + EVIL, b"(", b")", b"))", b"((", b"<" + EVIL + b">", b"> <" + EVIL, b'"', b'\\"', b"\\", b"\\)",
       b"`id`", b"| id", b"\xe2\x80\xa8", b"+AAo-Bcc: x", b"~{", b"\x8d", b"\xff", b"\xa0", b"\t", b"\nControl: cancel <a@b>", b"\nApproved: me", b"\nNewsgroups: alt.evil", b"\n.\n", b"\nFrom x", b"\n#! rnews 5\n",
       b"@", b"@@", b"!", b"%", b":", b"group: x;", b" ", b"  ", b"=0A", b"\x00", b"\nTo: " + EVIL, b"\n To: x", b"\n\t" + EVIL]
BASE = [b"John Smith", b"Sysop", b"Al", b"", b"user@example.org", b"UUCP", b"MsgTrack", b"\x88\xa2\xa0\xad \x8f\xa5\xe2\xe0\xae\xa2", b"a" * 30, b"x", b"John Smith", b"Ivan"]
CHRS = ["CP866 2", "UTF-8 4", "UTF-7", "UTF-16", "UTF-16BE 4", "UTF-32 4", "UCS-2", "EBCDIC-US", "HZ", "ISO-2022-JP", "ISO-2022-KR", "IBM037", "IBMPC 2", "LATIN-1 2", "KOI8-R 2", "+7_FIDO 2", "\nx", "utf-8\nBcc: x", "", "nonsense 9",
        "JAVA", "C99", "BIG5", "SHIFT_JIS", "GB18030", "TSCII", "UTF-8//IGNORE", "../../etc/passwd"]
KL = ["MSGID", "REPLY", "PID", "TID", "TZUTC", "FLAGS", "Via", "INTL", "FMPT", "TOPT", "GATEWAY", "SPLIT", "ORIGID", "Message-ID", "REPLYADDR", "REPLYTO", "RealName", "CHRS", "CHARSET", "CODEPAGE", "DOMAIN", "Recd",
      "RFC-Subject", "RFC-From", "RFC-To", "RFC-Cc", "RFC-Bcc", "RFC-Newsgroups", "RFC-Control", "RFC-Approved", "RFC-Supersedes", "RFC-Also-Control", "RFC-References", "RFC-Message-ID", "RFC-Reply-To", "RFC-User-Agent",
      "RFC-X-NewsReader", "RFC-Organization", "RFC-Content-Type", "RFC-MIME-Version", "RFC-Content-Transfer-Encoding", "RFC-Sender", "RFC-Followup-To", "RFC-Distribution", "X y", "", "PTH", "EID", "PATH"]
RFCH = ["To", "From", "Cc", "Bcc", "Reply-To", "Subject", "Sender", "Control", "Approved", "Newsgroups", "Message-ID", "to", "TO "]
FORBIDDEN = {"control", "approved", "supersedes", "also-control", "sender", "resent-to", "resent-cc", "resent-bcc", "apparently-to", "return-path", "delivered-to", "xref", "nntp-posting-host"}


def spice(rng, b, n):
    for _ in range(n):
        i = rng.choice([0, len(b), rng.randrange(len(b) + 1)])
        b = b[:i] + rng.choice(INJ) + b[i:]
    return b


def nozero(b):
    return b.replace(b"\x00", b"_")


class Hostile(U.Scn):
    def message(self, k, kind):
        rng = self.rng
        tag = "TAG%dX%d" % (self.case.index, k)
        E = {"kind": kind, "tag": tag, "area": None, "group": None}
        n = lambda: rng.choice([0, 1, 1, 2, 3])
        frm, to = nozero(spice(rng, rng.choice(BASE), n()))[:35], nozero(spice(rng, rng.choice(BASE), n()))[:35]
        subj = nozero(spice(rng, rng.choice([b"subject", b"Re: x", b"\x8f\xa0\xaf\xa0 word", b"", b"w " * 20]), n()))[:71]
        orig = rng.choice(["2:5030/7", "2:5030/7.1", "2:5030/8", "2:5030/9.77", "2:5030/100", "1:170/5", "3:712/1.2"])
        K = []
        for _ in range(rng.choice([0, 1, 3, 6])):
            name = rng.choice(KL)
            v = rng.choice([b"%s %08x" % (orig.encode(), rng.getrandbits(32)), b"a" * rng.choice([1, 70, 300, 2000]), b"<id@x.org>", EVIL, b"text/html; charset=x", b"x <" + EVIL + b">", b"0300", b"7bit", b"1.0"])
            v = spice(rng, v, n())
            if rng.random() < .3:
                v = rng.choice(CHRS).encode()
                name = rng.choice(["CHRS", "CHARSET", "CODEPAGE"])
            K.append((name + rng.choice([":", ": ", " ", "\t"])).encode() + nozero(v).replace(b"\r", b""))
        if rng.random() < .5:
            K.append(b"CHRS: " + rng.choice(CHRS).encode())
        if kind == "net" and (not K or rng.random() < .5):
            K.append(b"MSGID: %s %08x" % (orig.encode(), rng.getrandbits(32)))
        H = []
        for _ in range(rng.choice([0, 0, 1, 3]) if rng.random() < .7 else 0):
            v = rng.choice([b"user@example.org", b"Some One <u_1@y.net>", b"u_1@y.net (Name)", b"x, y@z.org", b"", b"a" * 200 + b"@x.org"])
            H.append(rng.choice(RFCH).encode() + b": " + nozero(spice(rng, v, n())).replace(b"\r", b""))
        lines = [tag.encode() + b" first line", b"text " + bytes(rng.randrange(32, 256) for _ in range(20)), b"Bcc: text", b".", b"end"]
        tear = b"--- " + nozero(spice(rng, b"Ed", n())).replace(b"\r", b"") + b"\r" if rng.random() < .5 else b""
        origin = b" * Origin: " + nozero(spice(rng, b"Somewhere", n())).replace(b"\r", b"") + b" (" + orig.encode() + b")\r" if kind == "echo" else b""
        b = b""
        if kind == "echo":
            E["area"] = rng.choice(list(self.areas))
            E["group"], E["zone"], _ = self.areas[E["area"]]
            b += b"AREA:" + E["area"].encode() + b"\r"
        b += b"".join(b"\x01" + k + b"\r" for k in K) + b"".join(h + b"\r" for h in H) + (b"\r" if rng.random() < .5 else b"")
        b += b"".join(l + b"\r" for l in lines) + tear + origin
        if kind == "echo":
            b += b"SEEN-BY: 5030/7 100\r\x01PATH: 5030/7\r"
        else:
            b += b"".join(b"\x01Via %s\r" % nozero(spice(rng, b"2:5030/7 @2024", n())).replace(b"\r", b"") for _ in range(rng.choice([0, 1])))
        E["kl"] = K
        E["hdr"], E["frm_b"], E["to_b"], E["orig"] = H, frm, to, orig
        E["rcpt_text"] = b"\n".join(H + [k[len(b"RFC-"):] for k in K if k.startswith(b"RFC-Reply-To")])
        return Msg(frm, to, subj, b, N(orig), N("2:5030/100"), rng.choice([0, 1, 0x1001]), 0, time.strftime("%d %b %y  %H:%M:%S", time.gmtime(1700000000)).encode()), E


def addrs(case, S, r, h, what, src):
    """addresses of one header (None: not there)"""
    v = r.get(h)
    if v is None:
        return []
    if any(c > 127 for c in v):
        # (plain headers: a reader has to take the bytes as they are)
        case.seen("8bit_address_headers")
    try:
        out = []
        for x in U.split_addrs(v):
            out.append(U.mailbox(x)[0])
        case.evals += 1
        return out
    except U.RfcError as e:
        if any(c > 127 for l in src for c in l):
            case.seen("8bit_source_line")
            return None
        try:
            for l in src:
                for x in U.split_addrs(l.partition(b":")[2]):
                    U.mailbox(x)
        except U.RfcError:
            # the message's own line is malformed
            case.seen("malformed_source_line")
            return None
        case.fail("address-structure", "%s: %s: %s" % (what, h, e))
        return None


def one(case, kinds=("net", "net", "echo")):
    rng = case.rng
    S = Hostile(case, kinds)
    S.conf = [c for c in S.conf if not c.startswith("KillSplit")] + (["TZUTC"] if rng.random() < .2 else [])
    if rng.random() < .85 and not S.fallback:
        S.conf.append("FallbackUsername ftnuser")
        S.fallback = "ftnuser"
    sp = S.setup(Spool)
    sent, k = {}, 0
    npk = rng.choice([1, 1, 2])
    for j in range(npk):
        ms = []
        for i in range(rng.randrange(1, 12)):
            m, E = S.message(k, rng.choice(kinds))
            k += 1
            ms.append(m)
            sent[E["tag"]] = E
        sp.put("bt/pin/%08x.pkt" % (j + 1), Pkt(N("2:5030/7"), N("2:5030/100"), ms).raw())
    R = sp.run("gate/ftn2rfc", *S.args, env={"TZ": S.tz})
    case.san(R)
    case.check(R.rc in (0, 65, 69, 72), "exit", "ftn2rfc exited with %s: %s" % (R.rc, R.err[-200:]))
    mails, arts = U.outputs(case, sp, S.single)
    seen = {}
    for kind, L in (("net", mails), ("echo", arts)):
        for p, r in L:
            check(case, S, kind, r, sent, seen, p)
    for t, n in seen.items():
        case.check(n == 1, "multiplied", "message %s written %d times" % (t, n))
    case.check(len(mails) + len(arts) <= len(sent), "multiplied", "%d messages became %d" % (len(sent), len(mails) + len(arts)))
    case.sample = "%d hostile messages: %d mails, %d articles; %s" % (len(sent), len(mails), len(arts), " ".join(S.conf)[:150])


def check(case, S, kind, r, sent, seen, path):
    bounce = kind == "net" and r.envelope.startswith(b"From Mailer-Daemon ")
    try:
        body = r.text()[0]
    except (U.RfcError, ValueError):
        body = r.body
    known = U.KNOWN | (U.NEWS - {"x-area-note"} if kind == "echo" else set())
    if kind == "echo":
        known = known - U.MAIL_ONLY
    cnt = {}
    t = re.search(rb"TAG\d+X\d+", body)
    what = "%s %s" % (kind, t.group(0).decode() if t else path.split("/")[-1])
    E = sent.get(t.group(0).decode()) if t else None
    ok = known | {"x-area-note"} if kind == "echo" else known
    if bounce:
        ok = ok | {"x-to", "x-from", "x-subject", "auto-submitted", "precedence"}
    for n, v in r.h:
        n = n.lower()
        cnt[n] = cnt.get(n, 0) + 1
        case.check(n in ok and n not in FORBIDDEN, "foreign-header", "%s: header %s: %r is none of the gateway's" % (what, n, v[:100]))
        case.check(cnt[n] == 1 or n in U.ONCE_OK_MANY, "repeated-header", "%s: header %s occurs %d times" % (what, n, cnt[n]))
        case.evals += 1
    for n in ("From", "Date", "Message-ID", "Subject", "Newsgroups" if kind == "echo" else "To"):
        if not (bounce and n in ("Message-ID",)):
            case.check(r.get(n) is not None, "missing-header", "%s: no %s header" % (what, n))
    if E is None:
        # (text in a charset that cannot be read: the framing was judged all the same)
        case.seen("unidentified")
        return
    case.seen("bounces" if bounce else kind)
    case.sig("%s|%s|%s" % (kind, bounce, sorted(cnt)))
    if not bounce:
        seen[E["tag"]] = seen.get(E["tag"], 0) + 1
        case.check(E["kind"] == kind, "kind", "%s: %s became %s" % (what, E["kind"], kind))
    # one boundary: what the header ends with is the text's beginning
    pre = body[:body.index(t.group(0))]
    if not bounce:
        okpre = [h.split(b":")[0].strip().lower() for h in E["hdr"]]
        for l in pre.split(b"\n"):
            l = l.strip()
            if l and l.split(b":")[0].strip().lower() not in okpre and not any(l in h for h in E["hdr"]):
                # a line the message does not have before its text
                case.check(not re.match(rb"[A-Za-z][A-Za-z-]*:", l) or kind == "net" and l in b" ".join(E["hdr"]), "header-in-text", "%s: line %r before the text" % (what, l[:100]))
    dom = U.inet(E["orig"], False).encode()
    if kind == "echo":
        g = E["group"].encode()
        exp = [g] + ([g + b"," + x.encode() for x in S.carbon[1:] if x] if S.carbon else [])
        case.check(r.get("Newsgroups") in exp, "newsgroup", "%s: Newsgroups %r instead of %r" % (what, r.get("Newsgroups"), g))
        case.check(r.get("Followup-To") in (None, g), "newsgroup", "%s: Followup-To %r" % (what, r.get("Followup-To")))
        z = E["zone"]
        p = r.get("Path") or b""
        case.check(p.endswith((U.inet(E["orig"]) + "!" + S.tail).encode()) and re.fullmatch(rb"[A-Za-z0-9.!_-]+", p), "path", "%s: Path %r" % (what, p))
        dist = "dist" in S.areas[E["area"]][2]
        case.check((r.get("Distribution") or b"").strip() == (b"fido" if dist else b""), "distribution", "%s: Distribution %r" % (what, r.get("Distribution")))
    if not S.fallback and any(c > 127 for c in E["to_b"] + E["frm_b"]):
        return
    # authors
    named = {h.split(b":")[0].strip().lower() for h in E["hdr"]}
    a = addrs(case, S, r, "From", what, [x for x in E["hdr"] if x[:5].lower() == b"from:"])
    case.check(a is None or len(a) == 1 or b"from" in named and len(a) <= 1 + max(x.count(b",") + x.count(b";") for x in E["hdr"]), "authors", "%s: From %r has %d addresses" % (what, r.get("From"), len(a or [])))
    named = {h.split(b":")[0].strip().lower() for h in E["hdr"]}
    if a and len(a) == 1 and b"from" not in named and not bounce and not any(k.startswith(b"REPLYADDR") for k in E["kl"]):
        # (the zone, or the point, is what the kludges say)
        m = re.match(rb"f\d+\.n\d+\.z", re.sub(rb"^p\d+\.", b"", dom))
        tail = re.escape(m.group(0)) + rb"\d+\.(fidonet|example)\.org" if m else re.escape(re.sub(rb"^p\d+\.", b"", dom))
        case.check(re.search(rb"@(p\d+\.)?(%s|f7\.n5030\.z\d+\.fidonet\.org|invalid)$" % tail, a[0]) or a[0].endswith((b"@mail.example.org", b"@people.example.org")), "authors", "%s: From %r, sender's domain %s" % (what, r.get("From"), dom.decode()))
    if kind == "echo":
        return
    # recipients
    text = re.sub(rb"\s+", b" ", E["rcpt_text"])
    for h in ("To", "Cc", "Bcc"):
        L = addrs(case, S, r, h, what, [x for x in E["hdr"] if x.split(b":")[0].strip().lower() in (h.lower().encode(), b"from" if bounce else b"")])
        if L is None:
            continue
        if bounce:
            if h == "Cc" and S.cc:
                case.check(L == [b"postmaster@gate.example.org"], "recipient", "%s: Cc %r of a bounce" % (what, L))
            elif h != "To":
                case.check(not L, "recipient", "%s: %s %r of a bounce" % (what, h, L))
            else:
                case.check(len(L) == 1, "recipient", "%s: To %r of a bounce" % (what, r.get("To")))
            continue
        if h.lower().encode() not in named:
            if h != "To":
                case.check(r.get(h) is None, "recipient", "%s: %s: %r out of nothing" % (what, h, r.get(h)))
                continue
            case.check(len(L) == 1, "recipient", "%s: To %r has %d addresses, addressee %r" % (what, r.get("To"), len(L), E["to_b"]))
            if len(L) == 1 and not re.search(rb"[@%!]", E["to_b"]):
                case.check(re.search(rb"@(p\d+\.)?f\d+\.n\d+\.z\d+\.(fidonet|example)\.org$", L[0]) or re.search(rb"@(p\d+\.)?known\.example\.org$", L[0]) or L[0].endswith((b"@gate.example.org", b"@mail.example.org", b"@people.example.org")), "recipient", "%s: To %r, addressee %r" % (what, r.get("To"), E["to_b"]))
            continue
        # a line of the message names them: nothing may be added
        if r.get(h) is None:
            continue
        src = [re.sub(rb"\s+", b" ", x) for x in E["hdr"] if x.split(b":")[0].strip().lower() == h.lower().encode()]
        comma = max([x.count(b",") + x.count(b";") for x in src] + [0]) + 1
        case.check(len(L) <= max(comma, 1), "recipient", "%s: %s %r has %d addresses, the message named %r" % (what, h, r.get(h), len(L), src))
        if b"evil" not in b" ".join(src) and b"evil" not in E["to_b"]:
            case.check(not any(b"evil@" in x for x in L), "recipient", "%s: %s %r, the message named %r" % (what, h, r.get(h), src))


def news(case):
    one(case, ("echo",))

CHECK = Check("P22", "exploration",
              "the outputs for messages with line breaks, control characters, specials, encoded words and odd charsets in every field are read by a strict reader: only known header fields, each well-formed and once, address structure intact, recipients, newsgroups and authors those configured or named, the text after the only boundary",
              ["names and subjects up to their FTS-1 lengths, without zero bytes"], variants=("asan", "plain"))
CHECK.phase("hostile", one, 400, 8000)
CHECK.phase("news", news, 150, 3000)
