"""Independent FTS-0001 / FSC-0039 packet writer and strict reader."""
import struct, re
from collections import namedtuple


class Node(namedtuple("Node", "zone net node point")):
    __slots__ = ()

    def s(self):
        p = ".%d" % self.point if self.point else ""
        return "%d:%d/%d%s" % (self.zone, self.net, self.node, p)

    def p4(self):
        return "%d:%d/%d.%d" % self

    def nf(self):
        p = ".%d" % self.point if self.point else ""
        return "%d/%d%s" % (self.net, self.node, p)


def N(s):
    m = re.fullmatch(r"(\d+):(\d+)/(\d+)(?:\.(\d+))?", s)
    if not m:
        raise ValueError(s)
    return Node(int(m[1]), int(m[2]), int(m[3]), int(m[4] or 0))


class Msg:
    __slots__ = ("onode", "dnode", "onet", "dnet", "attr", "cost", "date",
                 "to", "frm", "subj", "body")

    def __init__(self, frm=b"", to=b"", subj=b"", body=b"", orig=None, dest=None,
                 attr=0, cost=0, date=b"01 Jan 24  12:00:00"):
        self.frm, self.to, self.subj, self.body = frm, to, subj, body
        self.attr, self.cost, self.date = attr, cost, date
        o = orig or Node(0, 0, 0, 0)
        d = dest or Node(0, 0, 0, 0)
        self.onet, self.onode = o.net & 0xffff, o.node
        self.dnet, self.dnode = d.net & 0xffff, d.node

    def raw(self):
        return (struct.pack("<7H", 2, self.onode, self.dnode, self.onet, self.dnet,
                            self.attr, self.cost) + self.date.ljust(20, b"\0")[:20] +
                self.to + b"\0" + self.frm + b"\0" + self.subj + b"\0" +
                self.body + b"\0")

    def lines(self):
        return self.body.replace(b"\n", b"").split(b"\r")


class Pkt:
    def __init__(self, orig, dest, msgs=(), pw=b"", when=(2024, 0, 1, 12, 0, 0),
                 kind="2+"):
        self.orig, self.dest, self.msgs, self.pw = orig, dest, list(msgs), pw
        self.when, self.kind = when, kind

    def header(self):
        o, d = self.orig, self.dest
        y, mo, da, h, mi, s = self.when
        onet = o.net
        aux = 0
        cw = 1
        oz = o.zone
        dz = d.zone
        if self.kind == "48" and o.point:
            onet, aux = 0xffff, o.net
        b = struct.pack("<HHHHHHHHHHHHBB", o.node, d.node, y, mo, da, h, mi, s,
                        0, 2, onet, d.net, 0xfe, 5)
        b += self.pw.ljust(8, b"\0")[:8]
        b += struct.pack("<HH", oz, dz)
        if self.kind == "2":
            b += struct.pack("<H", 0) + b"\0\0" + bytes([0, 0]) + b"\0\0" + b"\0" * 12
        else:
            b += struct.pack("<H", aux) + struct.pack(">H", cw) + bytes([0, 12])
            b += struct.pack("<H", cw)
            b += struct.pack("<HHHH", oz, dz, o.point, d.point) + b"\0" * 4
        assert len(b) == 58
        return b

    def raw(self):
        return self.header() + b"".join(m.raw() for m in self.msgs) + b"\0\0"


class PktError(ValueError):
    pass


def _z(data, off, what, limit):
    e = data.find(b"\0", off)
    if e < 0:
        raise PktError("%s at %d not terminated" % (what, off))
    if limit and e - off >= limit:
        raise PktError("%s at %d longer than %d" % (what, off, limit - 1))
    return data[off:e], e + 1


def parse(data, strict=True):
    """Strict parse; raises PktError on anything not FTS-0001/FSC-0039."""
    if len(data) < 58:
        raise PktError("short header (%d bytes)" % len(data))
    f = struct.unpack("<12H", data[:24])
    onode, dnode, y, mo, da, h, mi, s, baud, ver, onet, dnet = f
    if ver != 2:
        raise PktError("packet version %d" % ver)
    if strict and not (1970 <= y <= 2099 and mo <= 11 and 1 <= da <= 31 and h <= 23
                       and mi <= 59 and s <= 60):
        raise PktError("bad date in header %r" % (f[2:8],))
    pw = data[26:34].split(b"\0")[0]
    oz, dz, aux = struct.unpack("<HHH", data[34:40])
    cws = struct.unpack(">H", data[40:42])[0]
    cw = struct.unpack("<H", data[44:46])[0]
    oz2, dz2, op, dp = struct.unpack("<HHHH", data[46:54])
    if cw and cw == cws:
        if strict and (oz != oz2 or dz != dz2):
            raise PktError("zones disagree %r" % ((oz, dz, oz2, dz2),))
        if onet == 0xffff and op:
            onet = aux
    else:
        op = dp = 0
    p = Pkt(Node(oz, onet, onode, op), Node(dz, dnet, dnode, dp), [], pw,
            (y, mo, da, h, mi, s))
    off = 58
    while True:
        if off + 2 > len(data):
            raise PktError("no end-of-packet marker (offset %d of %d)" % (off, len(data)))
        t = struct.unpack_from("<H", data, off)[0]
        if t == 0:
            if off + 2 != len(data):
                raise PktError("%d bytes after end of packet" % (len(data) - off - 2))
            return p
        if t != 2:
            raise PktError("bad message type %d at %d" % (t, off))
        if off + 34 > len(data):
            raise PktError("short message header")
        m = Msg()
        (t, m.onode, m.dnode, m.onet, m.dnet, m.attr, m.cost) = struct.unpack_from("<7H", data, off)
        dt = data[off + 14:off + 34]
        if strict and (dt[19] != 0 or 0 in dt[:19]):
            raise PktError("date field %r" % dt)
        m.date = dt.split(b"\0")[0]
        off += 34
        m.to, off = _z(data, off, "to", 36)
        m.frm, off = _z(data, off, "from", 36)
        m.subj, off = _z(data, off, "subject", 72)
        m.body, off = _z(data, off, "body", 0)
        p.msgs.append(m)
