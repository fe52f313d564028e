"""Hostile and structure-aware RFC messages and news batches."""
import base64, quopri
from . import hostile as H

NAMES = [b"From", b"To", b"Cc", b"Bcc", b"Subject", b"Date", b"Message-ID", b"References", b"In-Reply-To", b"Reply-To",
         b"Sender", b"Resent-From", b"Newsgroups", b"MIME-Version", b"Content-Type", b"Content-Transfer-Encoding",
         b"Content-Disposition", b"Organization", b"X-Comment-To", b"X-Flags", b"Return-Receipt-To", b"X-FTN-Kludge",
         b"X-FTN-Tearline", b"X-FTN-Origin", b"X-FTN-Seen-By", b"X-FTN-Path", b"X-Mailer", b"User-Agent", b"X-Newsreader", b"X-Gateway",
         b"X-FTN-From", b"X-FTN-To", b"X-FTN-Subject", b"X-FTN-MSGID", b"X-FTN-Area", b"X-FTN-Via", b"X-FTN-Chrs", b"X-FTN-Kludge",
         b"Control", b"Received", b"Path", b"Xref", b"Distribution", b"X-Charset", b"Return-Path", b"Approved", b"", b" ", b":"]
DATES = [b"Mon, 01 Jan 2024 12:00:00 +0300", b"1 Jan 24 12:00 GMT", b"32 Foo 99999 25:61:61 +9999", b"", b"Mon,", b"Mon, 01 Jan",
         b"01 Jan 2024", b"01 Jan 2024 12", b"01 Jan 2024 12:00:00 -", b"01 Jan 2024 12:00:00 EST (x)", b"0 0 0 0:0:0 0",
         b"99999999999999999999 Jan 99999999999999999 1:1:1 +1", b"01 Jan 1900 00:00:00 +0000", b"31 Dec 9999 23:59:59 +1400", b"A" * 300,
         b"01 Jan 2024 12:00:00 " + b"Z" * 200, b"1 Jan -5 -1:-1:-1 +-10", b"01 Jan 2024 12:00:00 +99999999999"]
ADDRS = [b"John_Smith@p1.f100.n5030.z2.fidonet.org", b"john@gate.example.org", b"a@b", b"Ivan <ivan@example.org>", b"\"Q, x\" <q@f1.n5030.z2.fidonet.org>",
         b"<>", b"@", b"a", b"a@", b"@b", b"a@b@c", b"a!b!c@d", b"a%b@c", b"(comment) a@b (c2)", b"a@b (John (Nested) Smith)", b"\"unterminated <a@b", b"<a@b",
         b"a@b>", b"undisclosed-recipients:;", b"grp: a@b, c@d;", b"x@p99999.f99999.n99999.z99999.fidonet.org", b"x@f1.n1.z.fidonet.org",
         b"x@f.n.z.fidonet.org", b"x@p1.p1.f1.f1.n1.n1.z1.z1.fidonet.org", b"x@f-1.n-1.z-1.fidonet.org", b"a" * 300 + b"@f1.n5030.z2.fidonet.org", b"x@" + b"f1." * 100 + b"org",
         b"\"" + b"a b" * 100 + b"\"@f1.n5030.z2.fidonet.org", b"John_Smith%p1.f2.n5030.z2.fidonet.org@gate.example.org", b"=?utf-8?B?0KI=?= <x@f1.n5030.z2.fidonet.org>",
         b"\"a\\\"b\\\\\" <x@y>", b"x@[1.2.3.4]", b"All@f100.n5030.z2.fidonet.org", b"x@.fidonet.org", b"x@fidonet.org", b"2:5030/1.2", b"x@2:5030/1"]
CHARSETS = [b"utf-8", b"UTF-8", b"koi8-r", b"us-ascii", b"iso-8859-1", b"windows-1251", b"cp866", b"ibm866", b"utf-7", b"utf-16", b"iso-2022-jp", b"x-unknown", b"",
            b"\"utf-8\"", b"\"utf-8", b"a" * 200, b"shift_jis", b"gb2312", b"utf-32", b"//TRANSLIT", b"/", b"utf-8//IGNORE"]
ENC = [b"7bit", b"8bit", b"binary", b"base64", b"quoted-printable", b"BASE64", b"x-uuencode", b"", b"base64 ", b"quoted printable"]
TEXTS = [b"hello\n", b"line one\nline two\n", b"", b"\n\n\n", b"no newline", b"\xd0\x9f\xd1\x80\xd0\xb8\n", b"\xf0\xd2\xc9\n", b"\xff\xfe\x00x\n", b"---\n", b"--- tear\n * Origin: x (2:5030/1)\nSEEN-BY: 1/1\n",
         b"\x01PATH: 1/1\n", b"AREA:X\n", b"a" * 5000 + b"\n", b"\r\r\r\n", b"=\n=3D=\n=ZZ\n=4", b"=C3=28=\n", b"MTIz\n", b"MTI\n", b"====\n", b"!!!!\n", b"M" * 4000, b"From me\n.\n..\n",
         b"\x1b$B$3\x1b(B\n", b"+AGE-\n", b"\x00\x00", b"\x1b", b"x \n" * 300, b"=E2=82=AC=E2=82\n"]


def hval(rng, name):
    n = name.lower()
    r = rng.random()
    if r < 0.15:
        v = H.val(rng, 40000)
    elif n in (b"date",):
        v = rng.choice(DATES)
    elif n in (b"from", b"to", b"cc", b"bcc", b"reply-to", b"sender", b"resent-from", b"x-comment-to", b"return-receipt-to", b"return-path"):
        v = rng.choice([b",", b", ", b",,"]).join(rng.choice(ADDRS) for _ in range(rng.choice([1, 1, 1, 2, 5, 40])))
    elif n == b"content-type":
        v = ctype(rng, rng.choice([b"b1", b"b 2", b"x" * 90]))
    elif n == b"content-transfer-encoding":
        v = rng.choice(ENC)
    elif n == b"newsgroups":
        v = rng.choice([b",", b", ", b" ,"]).join(rng.choice([b"fido.test", b"fido.a", b"alt.x", b"", b"fido." + b"x" * 80, b"fido.test.deep.er"]) for _ in range(rng.choice([1, 1, 2, 8])))
    elif n in (b"message-id", b"references", b"in-reply-to"):
        v = b" ".join(rng.choice([b"<a@b>", b"<MSGID_2=3A5030=2F1_12345678@fidonet.org>", b"<NOMSGID_x@y>", b"<>", b"<" + b"q" * 300 + b"@x>", b"a@b", b"<MSGID_=ZZ=@fidonet.org>", b"<MSGID_mimeanswer:_2=3A1@x>", b"<12345678@f1.n2.z3.ftn>"])
                      for _ in range(rng.choice([1, 1, 3, 60])))
    elif n in (b"x-ftn-msgid", b"x-ftn-kludge", b"x-ftn-via", b"x-ftn-path", b"x-ftn-seen-by", b"x-ftn-chrs"):
        v = rng.choice([b"MSGID: 2:5030/1 1234", b"CHRS: CP866 2", b"CHRS:", b"CHRS", b"INTL 2:5030/1 2:5030/2", b"5030/1 2 3"]) if rng.random() < .6 else H.val(rng, 9000)
    elif n == b"x-flags":
        v = bytes(rng.choice(b"cphfrdamnzCPH ") for _ in range(rng.choice([0, 1, 4, 20])))
    else:
        v = rng.choice([b"plain text", b"=?utf-8?B?0KLQtdC80LA=?=", b"=?koi8-r?Q?=F4=C5?= and =?utf-8?Q?x_y?=", b"=?utf-8?B?" + b"0J" * 400 + b"?=", H.val(rng, 9000)])
    if rng.random() < 0.1:
        v = b"=?" + rng.choice(CHARSETS) + b"?" + rng.choice([b"B", b"Q", b"b", b"q", b"X", b""]) + b"?" + rng.choice([v[:60].replace(b" ", b"_"), base64.b64encode(v[:60]), b""]) + rng.choice([b"?=", b"?", b"="])
    if rng.random() < 0.15:
        i = rng.randrange(len(v) + 1)
        v = v[:i] + rng.choice([b"\n ", b"\n\t", b"\r\n ", b"\n \n ", b"\r"]) + v[i:]
    return v


def ctype(rng, bnd, multi=None):
    if multi or (multi is None and rng.random() < 0.35):
        b = rng.choice([bnd, b"\"" + bnd + b"\"", b"\"" + bnd, b"", b"\"\"", bnd + b" "]) if rng.random() < .3 else b"\"" + bnd + b"\""
        return rng.choice([b"multipart/mixed", b"multipart/alternative", b"Multipart/Signed", b"multipart/", b"multipart"]) + rng.choice([b"; ", b";", b"; x=y; ", b";\n "]) + b"boundary" + rng.choice([b"=", b" = ", b"="]) + b
    return rng.choice([b"text/plain", b"text/html", b"TEXT/PLAIN", b"text", b"", b"application/octet-stream", b"text/plain ", b"message/rfc822"]) + rng.choice([b"; charset=", b";charset=", b"; charset", b""]) + rng.choice(CHARSETS)


def text(rng):
    t = b"".join(rng.choice(TEXTS) for _ in range(rng.choice([0, 1, 2, 3, 10])))
    if rng.random() < 0.15:
        t += H.val(rng, 40000)
    return t


def part(rng, depth=0):
    """(header lines, body)"""
    hs = []
    if rng.random() < 0.3 and depth < 40:
        bnd = rng.choice([b"b1", b"b 2", b"BB", b"x" * 70, b"--", b"b"])
        hs.append(b"Content-Type: " + ctype(rng, bnd, True))
        if rng.random() < 0.2:
            hs.append(b"Content-Transfer-Encoding: " + rng.choice(ENC))
        body = rng.choice([b"", b"preamble\n"])
        n = rng.choice([0, 1, 2, 3]) if depth else rng.choice([1, 2, 4])
        for _ in range(n):
            h, b = part(rng, depth + 1)
            body += b"--" + bnd + rng.choice([b"\n", b"\n", b" \n", b"\r\n", b"x\n"]) + b"".join(x + b"\n" for x in h) + rng.choice([b"\n", b"\n", b"\n", b""]) + b + rng.choice([b"\n", b""])
        body += rng.choice([b"--" + bnd + b"--\n", b"--" + bnd + b"--", b"--" + bnd, b"", b"--\n"]) + rng.choice([b"", b"epilogue\n"])
        return hs, body
    t = text(rng)
    e = rng.choice(ENC)
    if rng.random() < 0.85:
        hs.append(b"Content-Type: " + ctype(rng, b"b1", None if rng.random() < .2 else False))
    if rng.random() < 0.7:
        hs.append(b"Content-Transfer-Encoding: " + e)
        if rng.random() < 0.7:
            if e.lower().startswith(b"base64"):
                t = base64.encodebytes(t)
            elif e.startswith(b"quoted"):
                t = quopri.encodestring(t)
    return hs, t


def nest(rng, n):
    hs, body = [b"Content-Type: text/plain"], b"deep\n"
    for i in range(n):
        b = b"n%d" % i
        body = b"--" + b + b"\n" + b"".join(h + b"\n" for h in hs) + b"\n" + body + b"\n--" + b + b"--\n"
        hs = [b"Content-Type: multipart/mixed; boundary=" + b]
    return hs, body


def message(rng, news=False):
    if rng.random() < 0.08:
        n = rng.choice([0, 1, 50, 3000])
        return bytes(rng.choice(b"\n\r:= \t\x00\x01aA<>@-?\xff") if rng.random() < .5 else rng.randrange(256) for _ in range(n))
    hs = []
    need = [b"From", b"Message-ID", b"Date", b"Subject", b"Newsgroups" if news else b"To"]
    for n in need:
        if rng.random() < 0.85:
            if rng.random() < 0.6:
                v = {b"From": b"Ivan <ivan@example.org>", b"Message-ID": b"<1@example.org>", b"Date": DATES[0], b"Subject": b"subj", b"Newsgroups": b"fido.test",
                     b"To": b"John_Smith@f1.n5030.z2.fidonet.org"}[n]
            else:
                v = hval(rng, n)
            hs.append(n + b": " + v)
    for _ in range(rng.choice([0, 1, 3, 8])):
        n = rng.choice(NAMES)
        hs.append(n + rng.choice([b": ", b": ", b":", b" ", b"", b" : "]) + hval(rng, n))
    if rng.random() < 0.75:
        hs.append(b"MIME-Version: " + rng.choice([b"1.0", b"1.0", b"1.0 (x)", b""]))
        ph, b = part(rng) if rng.random() < .97 else nest(rng, rng.choice([5, 40, 200]))
        hs += ph
    else:
        b = text(rng)
    rng.shuffle(hs)
    m = b"".join(h + b"\n" for h in hs) + rng.choice([b"\n", b"\n", b"\n", b"\r\n", b""]) + b
    if rng.random() < 0.2:
        m = m.replace(b"\n", b"\r\n")
    if rng.random() < 0.2:
        m = H.mutbytes(rng, m)
    return bytes(m)


def batch(rng, arts):
    out = b""
    for a in arts:
        n = len(a)
        if rng.random() < 0.2:
            n += rng.choice([-1, 1, -10, 10, 100000, -n, -n - 1, 2 ** 31, 2 ** 63, 2 ** 64])
        out += rng.choice([b"#! rnews %d\n"] * 8 + [b"#! rnews %d \n", b"#!rnews %d\n", b"#! rnews  %d\n", b"#! rnews %d x\n", b"rnews %d\n", b"#! rnews -%d\n", b"#! rnews\n", b"", b"#! cunbatch\n"]).replace(b"%d", b"%d" % n) + a
    return out
