"""Internet -> FTN: generator of messages with known text, oracle for the gated packets."""
import base64, re, codecs
from .pkt import N

ASCII = "The quick brown fox jumps over the lazy dog 0123456789 =3D .. -- *bold* _u_ a@b <c> http://x.y/z?q=1&r=2".split(" ")
CYR = "Съешь ещё этих мягких французских булок да выпей чаю ЁЖЗ русский Р".split(" ")
LAT = "naïve café Ünïcödé Straße ÆØÅ ñ".split(" ")
ODD = "€ 漢字 😀 “q” — … ™ й ½ № ﷺ Ω".split(" ")
CTRL = ["--- tear", "---", " * Origin: fake (2:5030/9)", "SEEN-BY: 5030/1 2", "SEEN-BY:1/1", "\x01PATH: 5030/77", "\x01MSGID: 2:5030/1 deadbeef", "\x01\x01X", "AREA:EVIL",
        "\x01Via 2:5030/1", "\x01SPLIT: x", "\x01INTL 1:1/1 2:2/2", " * Origin: x", "\x01"]
FTN = {"cp866": "cp866", "koi8-r": "koi8-r", "iso-8859-1": "latin-1", "utf-8": "utf-8", "us-ascii": "ascii"}


def words(rng, pools, n):
    return " ".join(rng.choice(rng.choice(pools)) for _ in range(n))


def enc_ok(s, cs):
    try:
        s.encode(cs)
        return True
    except UnicodeEncodeError:
        return False


def mklines(rng, cs, ctrl=True, size=None):
    """lines of text that charset cs can carry"""
    pools = [p for p in (ASCII, CYR, LAT, ODD) if all(enc_ok(w, cs) for w in p)]
    if cs == "iso2022_jp":
        pools.append(["日本", "漢字", "テスト"])
    out = []
    for _ in range(size or rng.choice([0, 1, 2, 5, 12, 30])):
        r = rng.random()
        if r < .15:
            l = ""
        elif r < .3 and ctrl:
            l = rng.choice(CTRL)
            if rng.random() < .3:
                l += " " + words(rng, pools, 2)
        elif r < .35:
            l = rng.choice([".", "..", "From me", ">From x", "-- ", " x", "\ttab\tbed", "trail  ", "trail\t", "=", "=20", "a=", "--", "----", "===", "#! rnews 20", "=?utf-8?B?0KI=?=",
                            "Subject: x", "To: x", "To: y@z", "-", "--b1", "--b1x", "begin 644 x", "---x", "seen-by: 1", "* Origin: y", " *Origin: z", "x" * 76, "x" * 77])
        elif r < .4:
            l = words(rng, pools, rng.choice([100, 400]))
        elif r < .41:
            # (in a stateful charset beyond what is read at once: not supported)
            l = words(rng, pools, 1500 if cs == "iso2022_jp" else 9000)
        else:
            l = words(rng, pools, rng.choice([1, 3, 8, 14]))
        out.append(l)
    return out


def qp(data, rng, text=True):
    """our own quoted-printable encoder (soft breaks at random places)"""
    out, col = [], 0
    lines = data.split(b"\n")
    lim = rng.choice([76, 76, 30, 8])
    for li, l in enumerate(lines):
        col = 0
        for i, c in enumerate(l):
            ch = bytes([c])
            last = i == len(l) - 1
            if c == 61 or c < 32 and c != 9 or c > 126 or (c in (32, 9) and last) or rng.random() < .02:
                t = (b"=%02X" if rng.random() < .8 else b"=%02x") % c
            else:
                t = ch
            if col + len(t) > lim - 1:
                out.append(b"=" + (rng.choice([b" ", b"\t", b"  "]) if rng.random() < .03 else b"") + b"\n")
                col = 0
            out.append(t)
            col += len(t)
        if li < len(lines) - 1:
            out.append(b"\n")
    return b"".join(out)


def encode(rng, lines, cs, te, final_nl=True):
    """(transfer-encoded body, expected lines)"""
    nl = "\n"
    t = nl.join(lines) + (nl if final_nl and lines else "")
    d = t.encode(cs)
    if te == "base64":
        if rng.random() < .5:
            d = d.replace(b"\n", b"\r\n")
        w = rng.choice([76, 76, 60, 4])
        b = base64.b64encode(d)
        if len(d) > 2000:
            w = 76
        nl = lambda: b"\n"
        if rng.random() < .15:      # what is not of the alphabet does not count
            nl = lambda: rng.choice([b"\n", b"\n", b" \n", b"\n\n", b"\n \t", b"*\n", b"\n!", b"\n.\n"])
        return b"".join(b[i:i + w] + nl() for i in range(0, len(b), w))
    if te == "quoted-printable":
        return qp(d, rng)
    return d


class Ftn:
    """gated message taken apart"""

    def __init__(self, m):
        self.m = m
        b = m.body
        self.kludges, self.rest = [], []
        self.area = None
        lines = b.split(b"\r")
        if lines and lines[-1] == b"":
            lines.pop()
            self.ended = True
        else:
            self.ended = not b
        if lines and lines[0].startswith(b"AREA:"):
            self.area = lines.pop(0)[5:]
        self.lines = lines


def fold_text(s):
    return s


def fuzzy(exp, got, codec, skip=12, wild=()):
    """exp with its unrepresentable characters replaced by up to skip bytes each: set of reachable positions"""
    pos, out = {0}, len(got)
    for k, ch in enumerate(exp):
        if k in wild:
            pos = {p + 1 for p in pos if p < out}
            continue
        try:
            e = ch.encode(codec)
            pos = {p + len(e) for p in pos if got.startswith(e, p)}
        except UnicodeEncodeError:
            pos = {q for p in pos for q in range(p, min(p + skip, out) + 1)}
        if not pos:
            return False
        if len(pos) > 60:
            pos = set(sorted(pos)[:30] + sorted(pos)[-30:])
    return out in pos


def match_line(exp, got, ftncs, ctrl_ok=True):
    """exp: unicode line; got: bytes. Unrepresentable characters may be replaced by anything short."""
    codec = FTN[ftncs]
    try:
        e = exp.encode(codec)
        if e == got:
            return True
    except UnicodeEncodeError:
        if fuzzy(exp, got, codec):
            return True
    # a neutralised control line: characters at its start changed, so that it is none any more
    if is_ctrl(exp) and not is_ctrl(got.decode("latin-1")):
        n = len(exp) - len(exp.lstrip("\x01"))
        for i in range(1 if n else 10):
            if fuzzy(exp, got, codec, wild=range(n) if n else (i, i + 1)):
                return True
    return False


def is_ctrl(s):
    return s.startswith("\x01") or s == "---" or s.startswith("--- ") or s.startswith(" * Origin:") or s.startswith("SEEN-BY") or s.startswith("AREA:")
