"""Hostile inputs: structure-aware mutation of packets, messages, control lines."""
import struct, random
from .pkt import N, Node, Msg, Pkt

KEYS = [b"MSGID", b"REPLY", b"INTL", b"FMPT", b"TOPT", b"PID", b"TID", b"CHRS", b"CHARSET", b"CODEPAGE", b"TZUTC",
        b"SPLIT", b"PATH", b"Via", b"Recd", b"Forward", b"DOMAIN", b"FLAGS", b"GATEWAY", b"REPLYADDR",
        b"REPLYTO", b"ORIGID", b"ORIGREF", b"Message-ID", b"RFC-Message-ID", b"RFC-References",
        b"RFC-Reply-To", b"RFC-Organization", b"RFC-User-Agent", b"RFC-X-NewsReader", b"X-FZ-SPLIT",
        b"RFC-MIME-Version", b"RFC-Content-Type", b"RFC-Content-Transfer-Encoding", b"ACUPDATE", b"EOT",
        b"AREA", b"SEEN-BY", b"CHRC", b"X", b""]
HDRS = [b"From", b"To", b"Cc", b"Bcc", b"Subject", b"Reply-To", b"Sender", b"UUCPFROM", b"REPLYADDR",
        b"MIME-Version", b"Content-Type", b"Content-Transfer-Encoding", b"Newsgroups", b"Return-Receipt-To"]
VALS = [b"", b" ", b"2:5030/100.7@fidonet 12345678", b"2:5030/1.2", b"2:5030/100", b"0:0/0.0", b"65535:65535/65535.65535",
        b"-1:-1/-1.-1", b"99999999999:99999999999/99999999999.9999999999", b"2:5030/100@", b"@", b"/", b":", b".",
        b"2:", b"2:5030", b"2:5030/", b"a:b/c.d", b"2:5030/1 2:5030/2", b"2:5030/1", b"1:2/3 4:5/6 7:8/9", b"5030/1 2 3 .1 .2 463/1",
        b"5030/1.5 .6", b"5030/99999999999", b"//..::", b"<a@b>", b"<>", b"<", b">", b"(x)", b"((((", b"))))", b"\"", b"\"\"",
        b"\\", b"%s%n%x", b"%", b"=?utf-8?B?0YI=?=", b"=?utf-8?B?", b"=?utf-8?Q?=", b"=?", b"=?a?b?c?=", b"=?x?B?!!!!?=",
        b"=?utf-8?Q?=ZZ?=", b"=?" + b"x" * 300 + b"?B?AAAA?=", b"CP866 2", b"IBMPC 2", b"LATIN-1 2", b"UTF-8 4", b"CP", b"CP" + b"9" * 40, b"KOI8-R 2",
        b"x" * 200 + b" 2", b"FIDO", b"UTF-16", b"+0300", b"-0500", b"0300", b"-", b"+99999999", b"abcd", b"030", b"03000", b"-1",
        b"text/plain; charset=", b"text/plain; charset=\"", b"text/plain; charset=" + b"k" * 300, b"multipart/mixed",
        b"multipart/mixed; boundary", b"multipart/mixed; boundary=", b"multipart/mixed; boundary=\"a b\"", b"text/plain; charset=utf-8; x=y",
        b";;;;", b"text", b"/", b"1.0", b"base64", b"quoted-printable", b"8bit", b"x-uu", b"A" * 8, b"00000000", b"FFFFFFFF",
        b"GIGO 1.0", b"00:00:00 (1/2) @5030", b"1:2:3", b"user@host.domain", b"user%host@dom", b"host!user", b"a b c d e f g",
        b"user@", b"@host", b"a" * 255 + b"@b", b"a@" + b"b" * 255, b"\x80\x8d\xff", b"\x00", b"\x01", b"\x02\x00", b"\x02",
        b"\t", b"\n", b"\x1b[2J", b"\x8d" * 40, b",,,,", b"a,b,c", b"(((a(b)c", b"a (b", b"\"a\\", b"\"" + b"\\" * 50,
        b"../../../../etc/passwd", b"/etc/passwd", b"*", b"?", b"[", b"[a-", b"[^]", b"***?***[", b"~", b"|sh", b"$(id)",
        b" * Origin: x (2:5030/1)", b"--- ", b"...", b"(2:5030/100.1", b"2:5030/100.1)", b"(2:5030/100)(", b")("]
LENS = [1, 2, 7, 8, 16, 32, 35, 36, 37, 63, 64, 71, 72, 73, 77, 79, 80, 81, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024,
        2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 16384, 32766, 32767, 32768, 65536]


def val(rng, lim=70000):
    r = rng.random()
    if r < 0.6:
        v = rng.choice(VALS)
    elif r < 0.75:
        v = rng.choice(VALS) + rng.choice([b" ", b"", b"@", b"\t"]) + rng.choice(VALS)
    elif r < 0.9:
        n = rng.choice([x for x in LENS if x <= lim]) + rng.choice([0, 0, -1, 1])
        v = rng.choice([b"A", b"1", b" ", b".", b"\xe0", b"(", b"2:5030/1 ", b"<", b"=?", b"\\", b"\"", b"%s", b"/", b"="]) * (n + 1)
        v = v[:max(n, 0)]
    else:
        v = bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 10, 60])))
    return v


def line(rng):
    r = rng.random()
    e = rng.choice([b"\r"] * 8 + [b"", b"\r\n", b"\n", b"\r\r", b"\0"])
    if r < 0.3:
        return b"\x01" + rng.choice(KEYS) + rng.choice([b": ", b": ", b":", b" ", b"", b":  "]) + val(rng) + e
    if r < 0.4:
        return rng.choice([b"SEEN-BY: ", b"SEEN-BY:", b"SEEN-BY", b"\x01PATH: ", b"\x01PATH:", b"\x01PATH"]) + val(rng, 9000) + e
    if r < 0.5:
        return rng.choice([b" * Origin: ", b" * Origin:", b" * Origin", b"--- ", b"---", b"...", b"\x01Via ", b"\x01Via"]) + val(rng) + e
    if r < 0.62:
        return rng.choice(HDRS) + rng.choice([b": ", b":", b""]) + val(rng) + e
    if r < 0.68:
        return b"AREA:" + val(rng) + e
    return val(rng) + e


def mutbytes(rng, d):
    d = bytearray(d)
    for _ in range(rng.choice([1, 1, 2, 4, 12])):
        if not d:
            break
        r = rng.random()
        i = rng.randrange(len(d))
        if r < 0.3:
            d[i] = rng.choice([0, 1, 2, 10, 13, 32, 255, 127, 128, rng.randrange(256)])
        elif r < 0.45:
            del d[i:i + rng.choice([1, 2, 4, 30])]
        elif r < 0.6:
            d[i:i] = rng.choice([b"\0", b"\0\0", b"\2\0", b"\xff\xff", b"\r", b"\x01", val(rng, 5000)])
        elif r < 0.7:
            j = rng.randrange(len(d))
            d[i:i] = d[j:j + rng.choice([2, 14, 58, 200])]
        elif r < 0.85:
            del d[i:]
        else:
            k = min(4, len(d) - i)
            d[i:i + k] = struct.pack("<I", rng.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fff, 0xffff]))[:k]
    return bytes(d)


DATES = [b"01 Jan 24  12:00:00", b"Mon 01 Jan 24 12:00", b"", b"\xff" * 20, b"99 Xxx 99  99:99:99", b"00 Jan 00  00:00:00",
         b"31 Feb 99  23:59:60", b"29 Feb 23  24:00:00", b"1 Jan 1970 0:0", b"                    ", b"01 Jan 24  12:00:0", b"A" * 20,
         b"0000000000000000000", b"1" * 19, b"-1 Jan -1  -1:-1:-1", b"01 Jan 24 12:00:00 +9"]


def body(rng, kind):
    L = []
    if kind == "echo":
        L.append(b"AREA:" + rng.choice([b"TEST", b"TEST", b"test", b"NEW.AREA", b"JUNK"]) + b"\r")
    if rng.random() < 0.9:
        L.append(b"\x01MSGID: 2:5030/%d %08x\r" % (rng.randrange(1, 5), rng.randrange(1 << 32)))
    if kind == "net" and rng.random() < 0.6:
        L.append(b"\x01INTL 2:5030/100 2:5030/1\r")
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        L.append(line(rng))
    if rng.random() < 0.4:
        L += [b"From: " + val(rng, 3000) + b"\r", b"To: " + val(rng, 3000) + b"\r", b"\r"]
    for _ in range(rng.choice([0, 1, 3, 6])):
        L.append(rng.choice([b"plain text line\r", b"\r", b"caf\xe9 \x8f\xe0\xa8\xa2\xa5\xe2\r", line(rng), line(rng)]))
    if rng.random() < 0.6:
        L += [b"--- x\r", b" * Origin: here (2:5030/1)\r"]
    if kind == "echo":
        for _ in range(rng.choice([0, 1, 1, 2, 40])):
            L.append(b"SEEN-BY: " + rng.choice([b"5030/1 100", val(rng, 9000)]) + b"\r")
        L.append(b"\x01PATH: " + rng.choice([b"5030/1", b"5030/1", val(rng, 9000)]) + b"\r")
    if rng.random() < 0.3:
        L.append(b"\x01Via " + val(rng, 4000) + b"\r")
    if rng.random() < 0.2:
        rng.shuffle(L)
    if rng.random() < 0.1:
        L = L[:rng.randrange(len(L) + 1)]
    return b"".join(L)


def message(rng, kind=None):
    kind = kind or rng.choice(["net", "echo"])
    m = Msg(rng.choice([b"Some One", val(rng, 3000)]), rng.choice([b"Gate Way", b"UUCP", b"AreaFix", val(rng, 3000)]),
            rng.choice([b"subject", val(rng, 3000)]), body(rng, kind), N("2:5030/1"), N("2:5030/100"),
            attr=rng.choice([0, 0, 1, 0x10, 0x1000, 0xffff]))
    if rng.random() < 0.3:
        m.date = rng.choice(DATES)
    if rng.random() < 0.2:
        for f in ("onode", "dnode", "onet", "dnet"):
            if rng.random() < 0.5:
                setattr(m, f, rng.choice([0, 1, 0xffff, 0x7fff, 0x8000]))
    return m


def packet(rng, orig=N("2:5030/1"), dest=N("2:5030/100"), kind=None):
    p = Pkt(orig, dest, [message(rng, kind) for _ in range(rng.choice([1, 1, 2, 3, 5]))], kind=rng.choice(["2+", "2+", "2", "48"]))
    d = p.raw()
    r = rng.random()
    if r < 0.45:
        return d
    if r < 0.8:
        return mutbytes(rng, d)
    if r < 0.87:
        h = bytearray(d)
        for _ in range(rng.choice([1, 2, 5])):
            h[rng.randrange(58)] = rng.choice([0, 1, 2, 255, 127, 128])
        return bytes(h)
    if r < 0.92:
        return d[:rng.choice([0, 1, 10, 57, 58, 59, 60, 61, 73, 92, len(d) - 1, len(d) - 2, rng.randrange(len(d))])]
    if r < 0.96:
        return d + rng.choice([b"\0", b"\2\0", b"\2\0\0\0", bytes(60), d, d[58:]])
    return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 58, 60, 200, 2000])))
