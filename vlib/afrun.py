"""Running the area manager on generated requests and judging the results (P23, P24)."""
import os, re, time
from collections import Counter
from .pkt import Node, N, Msg, Pkt
from .spool import Spool
from .tossmodel import fts_date
from . import afix as A
from .netm import PN, addr4

UPS = [N("2:5030/0"), N("2:5020/1"), N("1:1/23")]
DOWN = [N(x) for x in ("2:5030/10", "2:5030/11", "2:5030/10.1", "2:5030/10.2", "2:5031/10", "3:640/5",
                       "2:5030/12", "2:5030/100.7", "21:100/5", "1:5030/10", "2:5030/101")]
DIRS = ["-", "-", "/var/spool/echo", "fido/x", "pt"]
DESCS = ["Area of \"quotes\"", "plain", "two words", "", "back\\slash x", "end", "x: y"]
TAGW = ["R", "RU", "N5030", "SU", "FIDO", "X", "LONG.AREA.NAME.THAT.GOES.ON.AND.ON.AND.ON", "a", "Mixed.Case"]
PWS = ["SECRET", "pass", "x", "12345678", "Pa.ss"]
FIRSTS = ["our sysop ! 2:5030/100", "", "# comment  with  blanks ", "x"]


def gen_setup(rng, hard, nareas=None):
    """areas, passwd links, uplinks"""
    links = []
    pool = list(DOWN)
    rng.shuffle(pool)
    for n in pool[:rng.choice([2, 4, 7, 10])]:
        l = A.Link()
        l.node, l.pw = n, rng.choice(PWS) + str(rng.randrange(10))
        l.lvl = rng.choice([None, 1, 1, 5, 9, 0])
        l.key = None
        l.lg = l.la = 0
        l.rest = ""
        if l.lvl is not None and rng.random() < .8:
            l.key = "".join(sorted(set(rng.choice("ABC") for _ in range(rng.randrange(3)))))
            for c, pr in (("$", .3), ("&", .5), ("~", .25), ("%", .4)):
                if rng.random() < pr:
                    l.key += c
            if not l.key:
                l.key = "-"
            if rng.random() < .5:
                l.rest = " Name_%d" % rng.randrange(10)
                if rng.random() < .6:
                    l.lg = rng.choice([0, 1, 2, 3, 8])
                    if rng.random() < .5:
                        l.la = rng.choice([0, 1, 2, 5])
                        l.rest += " %d/%d" % (l.lg, l.la)
                    else:
                        l.rest += " %d" % l.lg
        links.append(l)
    uplinks = []
    k = 0
    for u in UPS:
        if rng.random() < .65:
            tags = []
            for _ in range(rng.choice([1, 3, 6])):
                k += 1
                tags.append(("FWD.%s.%d" % (rng.choice(["A", "B"]), k)))
            opt = []
            if rng.random() < .4:
                opt.append(("-#", None))
            if rng.random() < .3:
                opt.append(("-l", str(rng.choice([1, 5, 9]))))
            if rng.random() < .3:
                opt.append(("-k", rng.choice("ABC")))
            uplinks.append((tags, u, "Areafix%d" % k, "UPW%d" % k, opt))
    areas = []
    seen = set()
    for i in range(nareas or rng.choice([0, 1, 4, 10, 25, 60] if hard else [2, 6, 15])):
        a = A.new_area()
        a.tag = "%s.%d" % (rng.choice(TAGW), i) if rng.random() < .9 else "%s.%d.SUB" % (rng.choice(TAGW), max(0, i - 1))
        if a.tag.upper() in seen:
            continue
        seen.add(a.tag.upper())
        a.dir = rng.choice(DIRS)
        a.pt = rng.random() < .5
        a.ro = rng.random() < .2
        a.lvl = rng.choice([-1, -1, 1, 5, 9])
        a.key = rng.choice([None, None, None, "A", "B", "AB"])
        a.desc = rng.choice(DESCS) if rng.random() < .4 else None
        a.state = rng.choice([None, "S", "S", "S", "U", "W", "F", "P"])
        a.en = rng.choice([0, 0, 30])
        a.et = rng.choice([0, 0, 7])
        a.time = rng.choice([0, 1500000000 + rng.randrange(10 ** 7)])
        a.addr = rng.choice([None, None, N("2:5030/100"), N("2:5030/101.5")])
        up = rng.choice(UPS)
        subs = rng.sample(DOWN, rng.choice([0, 1, 2, 3, len(DOWN)]))
        a.nodes = [up] + subs
        a.up = 1
        if rng.random() < .2:
            a.up = 2
            a.nodes = [up] + [u for u in UPS if u != up][:1] + subs
        if rng.random() < .08:
            a.nodes = subs
        if rng.random() < .05:
            a.nodes = []
        rest = [d for d in DOWN if d not in a.nodes]
        a.passive = rng.sample(rest, rng.randrange(min(3, len(rest) + 1))) if rng.random() < .4 else []
        if len(a.nodes) > 1 and rng.random() < .12:
            a.passive.append(rng.choice(a.nodes[1:]))       # as written by older versions: P before the node
        z = a.nodes[0].zone if a.nodes else 0
        a.zone = rng.choice([z, z, z, 3, 21]) if a.nodes else 0
        areas.append(a)
    return areas, links, uplinks


def gen_cmds(rng, areas, links, uplinks, node, profile):
    out = []
    tags = [a.tag for a in areas] + [t for u in uplinks for t in u[0]] + ["NO.SUCH.AREA"]

    def tag():
        t = rng.choice(tags)
        r = rng.random()
        return t.lower() if r < .2 else t.upper() if r < .3 else t

    def pat():
        t = rng.choice(tags)
        return rng.choice([t[:rng.randrange(1, len(t) + 1)] + "*", "*", "?" + t[1:], "*" + t[-2:], "FWD.*", t,
                           t[:1].lower() + "*"])
    for _ in range(rng.choice([1, 2, 4, 8])):
        r = rng.random()
        if profile == "auth" and r < .2:
            l = rng.choice(links)
            out.append(rng.choice(["%%PASSWORD %s %s", "passwd %s %s", "%%from %s %s"]) % (
                rng.choice([l.node, rng.choice(DOWN)]).s(), rng.choice([l.pw, l.pw, rng.choice(links).pw, "bad"])))
        elif profile == "auth" and r < .25:
            out.append(rng.choice(["%passwd", "%passwd 2:5030/10", "%passwd bad bad", "%password 2:5030/11 x"]))
        elif r < .50:
            out.append(rng.choice(["+%s", "%s", "subscribe %s", "%%SUB %s", "+ %s"]) % (tag() if rng.random() < .7 else pat()))
        elif r < .68:
            out.append(rng.choice(["-%s", "unsub %s", "%%Unsubscribe %s"]) % (tag() if rng.random() < .75 else pat()))
        elif r < .74:
            out.append(rng.choice(["passive", "pause %s", "%%passive %s"]).replace("%s", pat()).replace("%%", "%"))
        elif r < .80:
            out.append(rng.choice(["active", "resume %s", "%%Active %s"]).replace("%s", pat()).replace("%%", "%"))
        elif r < .90:
            out.append(rng.choice(["list", "%LIST", "query", "%query", "unlinked", "avail", "%listall"]))
        elif r < .94:
            out.append(rng.choice(["&%s%s", "%%new %s%s", "create %s%s"]) % (
                rng.choice(["NEW.%d" % rng.randrange(20), "new.x.%d" % rng.randrange(20), tag()]),
                rng.choice(["", " -#", " -l 5", " -k A -r", " -d desc -#"])))
        elif r < .97:
            out.append(rng.choice(["~%s", "%%delete %s"]) % (tag() if rng.random() < .8 else pat()))
        else:
            out.append(rng.choice(["", " * quoted line", "help", "%bogus cmd", "   "]))
    if rng.random() < .15:
        out.insert(rng.randrange(len(out) + 1), rng.choice(["--", "---", "--- tear", "-- "]))
    return [c.replace("%%", "%") for c in out]


class Req:
    pass


def gen_reqs(rng, areas, links, uplinks, profile):
    R = []
    for i in range(rng.choice([1, 1, 2, 4])):
        r = Req()
        r.node = rng.choice(links).node
        l = [x for x in links if x.node == r.node][0]
        pw = l.pw
        bad = rng.random() < (.5 if profile == "auth" else .05)
        if bad:
            k = rng.randrange(6)
            if k == 0:
                pw = "wrong"
            elif k == 1:
                pw = ""
            elif k == 2:
                pw = rng.choice(links).pw
            elif k == 3:
                pw = pw[:-1]
            elif k == 4:
                pw = pw + "x"
            else:
                r.node = rng.choice([r.node._replace(point=rng.choice([0, 3])), r.node._replace(zone=rng.choice([1, 3])),
                                     r.node._replace(net=5031), rng.choice(DOWN), rng.choice(UPS)])
        if rng.random() < .3:
            pw = pw.swapcase()
        r.subj = pw + rng.choice(["", "", "", " -q", " -l", " -L -q"])
        r.name = "User %d" % i
        r.cmds = gen_cmds(rng, areas, links, uplinks, r.node, profile)
        R.append(r)
    return R


def gen_opts(rng, sp, mode="af"):
    FIX = "AreaFix" if mode == "af" else "FileFix"
    """options of the robot"""
    o = {}
    if rng.random() < .3:
        pats = rng.sample(["NEW.1*", "new.?", "FWD.A.*", "*.3", "NO.*", "fwd.b.2", "*X*"], rng.choice([1, 2, 3]))
        o["forb"] = pats
        if rng.random() < .4:
            sp.put("etc/forbidden", "".join(p + rng.choice(["\n", "\r\n", " # no\n"]) for p in pats))
            sp.conf.append(FIX + "CreateForbiddenAreasFile " + sp.p("etc/forbidden"))
        else:
            sp.conf += [FIX + "CreateForbiddenAreas " + p for p in pats]
    if rng.random() < .2:
        o["fchars"] = rng.choice(["5", "x", "/*X1"])
        sp.conf.append("ForbiddenChar " + o["fchars"])
    if rng.random() < .2:
        o["subnodes"] = rng.sample(DOWN, rng.choice([1, 2]))
        k = rng.randrange(2)
        sp.conf += [("AutoCreateSubscribeNodes " if mode == "af" else "AutoCreateSubscribeFileechoNodes ") + A.short(x, rng) for x in
                    ([o["subnodes"]] if k else [[n] for n in o["subnodes"]])]
    if rng.random() < .2:
        o["prlkey"] = True
        sp.conf.append("IgnorePRLKey")
    if rng.random() < .2:
        o["onlyplus"] = True
        sp.conf.append("AreaFixSubscribeOnlyIfPlus")
    if rng.random() < .2:
        o["availall"] = True
        sp.conf.append("AreafixAvailPrintsAllAreas")
    if rng.random() < .2:
        o["listf"] = True
        sp.conf.append("FStatusAreaFixList")
    if rng.random() < .15:
        o["availfile"] = True
        n = rng.choice([1, 2])
        for i in range(n):
            sp.put("etc/avail%d" % i, "; comment\n" + "".join("@%d-%d of the file\n" % (i, k) for k in range(3)))
        sp.conf.append("AvailFile " + ",".join(sp.p("etc/avail%d" % i) for i in range(n)))
        o["availn"] = n
    if rng.random() < .4:
        o["clog"] = True
        sp.conf.append("AreaFixCreateLogFile " + sp.p("log/created"))
    return o


def judge_created(case, m, sp, log0, t0, ctxt):
    """the log of created areas"""
    new = sp.get("log/created") if os.path.exists(sp.p("log/created")) else b""
    case.check(new.startswith(log0), "creation-log", "earlier lines changed\n" + ctxt)
    L = new[len(log0):].decode("latin1").split("\n")[:-1]
    got = []
    for l in L:
        f = l.split()
        case.check(len(f) == 5 and f[0] == getattr(m, "mode", "af") and f[4].isdigit() and t0 <= int(f[4]) <= time.time() + 1, "creation-log", l)
        if len(f) == 5:
            got.append((f[1], N(f[2]), None if f[3] == "<null>" else N(f[3])))
    case.check(got == m.created, "creation-log", lambda: "expected %s\n     got %s\n%s" % (m.created, got, ctxt))
    case.seen("created_logged", len(got))


def gen_long(rng, areas, links, sweep=None):
    """requests whose answers fill several messages"""
    R = []
    if sweep is not None:
        r = Req()
        r.node, r.subj, r.name = links[0].node, links[0].pw, "User 0"
        r.cmds = ["-NO.SUCH.%d" % k for k in range(sweep)]
        return [r]
    for i in range(rng.choice([1, 2])):
        r = Req()
        l = rng.choice(links)
        r.node = l.node
        r.subj = l.pw
        r.name = "User %d" % i
        r.cmds = ["-NO.SUCH.%d" % k for k in range(rng.choice([rng.randrange(1, 20), rng.randrange(120, 170), rng.randrange(280, 320)]))]
        for a in rng.sample(areas, min(len(areas), rng.choice([3, 30]))):
            r.cmds.insert(rng.randrange(len(r.cmds) + 1), rng.choice("+-") + a.tag)
        for c in rng.sample(["list", "query", "unlinked", "listall", "avail"], rng.choice([0, 1, 3])):
            r.cmds.insert(rng.choice([0, len(r.cmds), rng.randrange(len(r.cmds) + 1)]), c)
        R.append(r)
    return R


def judge_long(case, R, msgs):
    for r in R:
        parts = [(t, text) for f, t, ms, text in msgs if ms.to == r.name.encode()]
        case.seen("answer_parts", len(parts))
        case.seen("answers_in_several_parts", len(parts) > 1)
        for t, text in parts:
            case.check(t == r.node, "part-to-other-node", "%s instead of %s" % (t.s(), r.node.s()))
            case.seen("answer_lines", len(text))
        words = Counter(re.sub(r":$", "", w).upper() for t, text in parts for l in text for w in l.split() if "." in w)
        missing = [c for c in r.cmds if c.startswith("-NO.SUCH") and not words[c[1:].upper()]]
        case.check(not missing, "command-not-answered", lambda: "request of %s, %d commands: no line of the answer (%s lines) names %s" % (
            r.node.s(), len(r.cmds), [len(text) for t, text in parts], missing[:5]))


def write_conf(sp, links, uplinks, areas, first, rng, ffpw=True, mode="af"):
    L = []
    ot = "ff" if mode == "af" else "af"
    for l in links:
        s = "%s %s %s" % (mode, l.node.s(), l.pw)
        if l.lvl is not None:
            s += " %d" % l.lvl
            if l.key is not None:
                s += " " + l.key + l.rest
        L.append(s)
        if ffpw and rng.random() < .3:
            L.append("%s %s FF%s 9 ABC$&~%%" % (ot, l.node.s(), l.pw))
        if ffpw and rng.random() < .3:
            L.append("packet %s PKTPW" % l.node.s())
    rng.shuffle(L)
    sp.put("etc/passwd", "\n".join(L) + "\n")
    U = []
    for tags, n, robot, pw, opt in uplinks:
        U.append("%s %s %s %s %s %s" % (mode, ",".join(tags), n.s(), robot, pw,
                                        " ".join(k + (" " + v if v else "") for k, v in opt)))
    if ffpw and rng.random() < .4:
        # the file request robot's uplinks: same systems, other names and passwords
        for n in rng.sample(UPS, 2):
            U.insert(rng.randrange(len(U) + 1), "%s %s %s Filefix FFUPW" % (ot,
                rng.choice(["*", "FWD.*"] + [",".join(u[0]) for u in uplinks]), n.s()))
    sp.put("etc/uplinks", "\n".join(U) + "\n")
    sp.put("etc/areas.bbs" if mode == "af" else "etc/fareas.bbs", first + "\n" + "".join(A.line(a, rng) + "\n" for a in areas))


def put_reqs(sp, rng, R, now, rnd, robot=b"areafix"):
    """write the requests as packets; processed in this order"""
    i = 0
    pk = 0
    while i < len(R):
        k = rng.randrange(1, len(R) - i + 1)
        porig = rng.choice([R[i].node, A.N("2:5030/0"), R[i].node._replace(point=0)])
        ms = []
        for r in R[i:i + k]:
            ks = [b"INTL %s %s" % (A.ADDR.s().encode(), r.node._replace(point=0).s().encode())]
            if r.node.point:
                ks.append(b"FMPT %d" % r.node.point)
            ks.append(b"MSGID: %s %08x" % (r.node.s().encode(), rng.randrange(1 << 32)))
            body = b"".join(b"\1" + x + b"\r" for x in ks) + b"".join(c.encode("latin1") + b"\r" for c in r.cmds)
            if rng.random() < .5 and not (r.cmds and r.cmds[-1] == "--"):
                body += b"---\r * Origin: here (%s)\r" % r.node.s().encode()
            ms.append(Msg(r.name.encode(), robot, r.subj.encode(), body, r.node, A.ADDR, 1, 0, fts_date(now)))
        sp.put("bt/pin/%04x.pkt" % (pk + rnd * 100), Pkt(porig, A.ADDR, ms).raw(), now - 1000 + pk)
        pk += 1
        i += k


def read_out(case, sp):
    """[(from Node, to Node, Msg, text lines)] and remove them"""
    import os
    out = []
    for p, pk in sp.read_pkts("spool/outpkt"):
        for m in pk.msgs:
            pn = PN(m.body)
            f, t, err = addr4(m, pn, pk)
            if err:
                case.fail("answer-addressing", "; ".join(err))
            out.append((f, t, m, [x.decode("latin1") for x in pn.text]))
        os.unlink(p)
    return out


def setup_mail(sp):
    sp.put("mail/x", "")
    sp.put("bin/mailer", "#!/bin/sh\ncat > %s/$$.msg\n" % sp.p("mail"))
    sp.conf.append("AreafixMailer sh " + sp.p("bin/mailer"))


def inet(n):
    return (("p%d." % n.point) if n.point else "") + "f%d.n%d.z%d.fidonet.org" % (n.node, n.net, n.zone)


def mail_req(rng, r):
    """the request as Internet mail -> text; sets r.reply, the address an answer is due to"""
    k = rng.randrange(6)
    user = r.name.replace(" ", "_")
    if k == 0:
        # a sender outside of the network has no rights but the ones of passwords in the text
        r.node, frm, x = A.Node(0, 0, 0, 0), "%s@%s" % (user, rng.choice(["example.com", "f10.n5030.z2.example.com", "fidonet.org", "f1.n2.fidonet.org.evil.com"])), None
        if rng.random() < .3:
            x = rng.choice(["nobody", "User 0", "User 0 @ here"])
    elif k < 3:
        frm, x = rng.choice(["%s@%s (User 0)", "User 0 <%s@%s>", "%s@%s"]) % (user, inet(r.node)), None
    else:
        frm = rng.choice(["%s@%s" % (user, inet(r.node)), "someone@example.com", "%s@%s" % (user, inet(rng.choice(DOWN)))])
        x = "%s @ %s" % (r.name, r.node.s())
    r.reply = ("addr", r.node) if x and k > 2 else ("from", frm)
    H = ["From: " + frm, "To: areafix@f100.n5030.z2.fidonet.org", "Subject: " + r.subj]
    if x:
        H.append("X-FTN-From: " + x)
    rng.shuffle(H)
    return "\n".join(H) + "\n\n" + "".join(c + "\n" for c in r.cmds) + rng.choice(["", "-- \n+NO.SUCH\n"])


def read_mail(case, sp, r):
    """answers handed to the mailer, in the form of read_out"""
    out = []
    for p in sp.ls("mail", "*.msg"):
        t = open(p, "rb").read().decode("latin1")
        os.unlink(p)
        head, _, body = t.partition("\n\n")
        h = dict(l.split(": ", 1) for l in head.split("\n"))
        if r.reply[0] == "from":
            ok, to = h.get("To") == r.reply[1], r.node
        else:
            mm = re.fullmatch(r"(\w+)@(?:p(\d+)\.)?f(\d+)\.n(\d+)\.z(\d+)\.fidonet\.org", h.get("To", ""))
            ok = mm and mm[1] == r.name.replace(" ", "_")
            to = A.Node(int(mm[5]), int(mm[4]), int(mm[3]), int(mm[2] or 0)) if mm else r.node
        case.check(ok and re.fullmatch(r"Your Areafix.* request", h["Subject"]) and h["From"].lower().startswith("areafix"), "answer-header", "%r for %r" % (head, r.reply))
        ms = Msg(b"Areafix", r.name.encode(), b"", b"", A.ADDR, to, 0, 0, b"")
        out.append((A.ADDR, to, ms, body.split("\n")))
        case.seen("mailed_answers")
    case.check(len(out) == 1, "answers", "%d answers mailed" % len(out))
    return out


def go(case, which, long=False, mail=False, mode="af"):
    rng = case.rng
    profile = "auth" if which == "P23" else "cmds"
    sp = Spool(case, addrs=("2:5030/100", "3:640/100", "1:1/100", "21:100/100"), uplink="2:5030/0", zones=(1, 2, 3, 21))
    sp.conf.append("DefaultCharset utf-8:utf-8:utf-8:utf-8") if rng.random() < .3 else None
    areas, links, uplinks = gen_setup(rng, which == "P24", rng.choice([100, 150, 160, 310]) if long else None)
    first = rng.choice(FIRSTS)
    write_conf(sp, links, uplinks, areas, first, rng, mode=mode)
    opt = gen_opts(rng, sp, mode)
    bbs = "etc/areas.bbs" if mode == "af" else "etc/fareas.bbs"
    if mode == "ff":
        opt["autodir"] = sp.p("files")
        sp.put("files/x", "")
        sp.conf.append("AutoCreateFechoPath " + sp.p("files"))
        if rng.random() < .5:
            # what binds the other robot
            sp.conf += ["AreaFixCreateForbiddenAreas *", "AutoCreateSubscribeNodes 2:5030/999"]
    if mail:
        setup_mail(sp)
    raw0 = sp.get(bbs)
    f0, parsed = A.parse_file(raw0)
    assert [a.fields() for a in parsed] == [a.fields() for a in areas], "generator"
    cur = parsed
    now = int(time.time())
    copies = []
    if which == "P24":
        copies = [b"old copy %d\n" % i for i in range(rng.choice([0, 1, 3, 5]))]
        for i, c in enumerate(copies):
            sp.put(bbs[:-3] + "o%02d" % (i + 1), c.decode())
    sig = []
    for rnd in range(rng.choice([1, 2, 3]) + 2 * bool(mail)):
        R = gen_reqs(rng, cur, links, uplinks, profile) if not long else gen_long(rng, cur, links, 130 + case.index if case.index < 30 else None)
        if mail == "cmd":
            # the command line of the operator: needs no password, has the node's rights
            R = R[:1]
            r = R[0]
            l = rng.choice(links)
            r.node, r.subj = l.node, l.pw
            r.cmds = [c for c in r.cmds if c.split() and not re.match(r"--| \* |%?(passw|from)", c)][:1] or ["list"]
            r.reply = None
        elif mail:
            R = R[:1]
            inp = mail_req(rng, R[0])
        else:
            put_reqs(sp, rng, R, now, rnd, b"filefix" if mode == "ff" else b"areafix")
        m = A.Model(cur, links, uplinks, first, mode)
        for k, v in opt.items():
            setattr(m, k, v)
        m.t0 = now
        log0 = sp.get("log/created") if os.path.exists(sp.p("log/created")) else b""
        before = sp.get(bbs)
        for r in R:
            r.final, r.lists = m.request(r.node, r.subj, r.cmds)
        case.sample = "requests %r" % ([{"from": r.node.s(), "subject": r.subj, "commands": r.cmds} for r in R],)
        t0 = int(time.time())
        res = sp.run("areafix/ftnafpkt", *["-F"] * (mode == "ff")) if not mail else sp.run("areafix/ftnaf", "--", R[0].node.s(), *R[0].cmds[0].split(" ")) if mail == "cmd" else sp.run("areafix/ftnaf", "-m", input=inp.encode("latin1"))
        case.san(res)
        case.check(res.rc == 0 or mail == "cmd" and not m.changed, "exit-status", "ftnafpkt exit status %s on valid requests\n%s" % (res.rc, sp.log()[-500:]))
        left = sp.ls("bt/pin")
        case.check(not left, "request-not-processed", "requests left: %s" % left)
        after = sp.get(bbs)
        case.seen("requests", len(R))
        if which == "P24":
            if m.changed:
                copies = ([before] + copies)[:5]
            for i in range(5):
                p = sp.p(bbs[:-3] + "o%02d" % (i + 1))
                got = open(p, "rb").read() if os.path.exists(p) else None
                want = copies[i] if i < len(copies) else None
                case.check(got == want, "old-copies", lambda: "areas.o%02d is %r instead of %r (%s)" % (i + 1, got and got[:80], want and want[:80], "changed" if m.changed else "unchanged"))
            case.seen("old_copies_checked", len(copies))
        for k, v in m.stats.items():
            case.seen(k, v)
        msgs = read_out(case, sp)
        if mail == "cmd":
            msgs.append((A.ADDR, R[0].node, Msg(b"", R[0].name.encode(), b"", b"", A.ADDR, R[0].node, 0, 0, b""), res.out.decode("latin1").split("\n")))
        elif mail:
            msgs += read_mail(case, sp, R[0])
        try:
            f1, got = A.parse_file(after)
        except ValueError as e:
            case.fail("area-list-unreadable", "%s" % e)
            return
        ctxt = "requests: %s\nbefore:\n%s\nafter:\n%s" % (
            "; ".join("%s subj=%r %r" % (r.node.s(), r.subj, r.cmds) for r in R), before.decode("latin1")[:3000],
            after.decode("latin1")[:3000])
        judge(case, which, m, cur, got, f1, first, before, after, msgs, R, links, uplinks, ctxt)
        for a in m.areas if which == "P24" and mode == "ff" else ():
            if a.dir.startswith(sp.p("files")):
                case.check(os.path.isdir(a.dir), "no-directory", "%s\n%s" % (a.show(), ctxt))
                case.seen("file_area_directories")
        if long:
            judge_long(case, R, msgs)
        if os.path.exists(sp.p("log/created")) or m.created and opt.get("clog"):
            judge_created(case, m, sp, log0, t0, ctxt)
        sig.append(tuple(sorted(m.stats)))
        if case.viol:
            return
        cur = got
    case.sig(tuple(sig))


def judge(case, which, m, cur, got, f1, first, before, after, msgs, R, links, uplinks, ctxt):
    ups = {u[1]: u for u in uplinks}
    answers, reqs, other = [], [], []
    for f, t, ms, text in msgs:
        if re.fullmatch(rb"User \d+", ms.to):
            answers.append((t, ms, text))
        else:
            reqs.append((t, ms, text))
    if which == "P24":
        if not m.changed:
            case.check(before == after, "list-changed-without-command", ctxt)
        exp, g = m.areas, got
        case.check(f1 == first, "first-line-changed", "%r -> %r\n%s" % (first, f1, ctxt))
        ef, gf = [a.fields() for a in exp], [a.fields() for a in g]
        if ef != gf:
            d = "\n".join(["expected %s" % a.show() for a, x in zip(exp, ef) if x not in gf] +
                          ["     got %s" % a.show() for a, x in zip(g, gf) if x not in ef])
            case.fail("area-list-differs", (d or "order of areas") + "\n" + ctxt)
        case.evals += len(ef)
        old = {a.tag: a for a in cur}
        for a in g:
            if a.tag in old and a.fields() == old[a.tag].fields() and a.tag not in m.touched:
                case.check(a.time == old[a.tag].time, "area-time-changed", "%s\n%s" % (a.tag, ctxt))
        got_req = Counter()
        for t, ms, text in reqs:
            for l in text:
                if l.strip() and not l.startswith("--- "):
                    got_req[(t, ms.to.decode("latin1"), ms.subj.decode("latin1"), l.strip())] += 1
        want = Counter(m.req)
        case.check(got_req == want, "uplink-requests", "expected %s\n     got %s\n%s" % (
            sorted((want - got_req).items()), sorted((got_req - want).items()), ctxt))
        case.seen("uplink_requests", sum(want.values()))
        for i, r in enumerate(R):
            text = []
            for t, ms, tx in answers:
                if ms.to == r.name.encode():
                    text += tx
            gl = A.reply_lists(text)
            want = [(k, list(e)) for k, n, e in r.lists]
            if gl != want:
                d = [(k, "missing %s" % ([x for x in e if x not in g][:9]), "unexpected %s" % ([x for x in g if x not in e][:9]))
                     for (k, e), (l, g) in zip(want, gl) if (k, e) != (l, g)]
                case.fail("list-in-answer", "request %r\nlists %s %s\n%r\nexpected %r\n     got %r\n%r\n%s" % (
                    r.node.s(), [k for k, e in want], [k for k, e in gl], d, want, gl, r.cmds, ctxt))
            case.seen("lists_checked", len(want))
            if m.availfile:
                c = Counter(l for l in text if l.startswith("@"))
                na = sum(1 for k, n, e in r.lists if k == "avail")
                w = Counter({"@%d-%d of the file" % (j, k): na for j in range(m.availn) for k in range(3)} if na else {})
                case.check(c == w, "avail-file", lambda: "%d avail commands: %s\n%s" % (na, dict(c), ctxt))
                case.seen("avail_files_read", na)
            case.evals += 1
        return
    # P23
    authd = {}
    newmod = {l.node: l for l in links}
    allowed = set()                 # nodes which were authorised in some request of this run
    keys, lvl = {}, {}
    for r in R:
        ok = set()
        f = r.subj.split()
        l = newmod.get(r.node)
        if l and f and f[0].lower() == l.pw.lower():
            ok.add(r.node)
        for c in r.cmds:
            mm = re.match(r"%?(?:passwd|password|from)\s+(\S+)\s+(\S+)", c, re.I)
            if mm:
                try:
                    n = N(mm[1])
                except ValueError:
                    continue
                l = newmod.get(n)
                if l and mm[2].lower() == l.pw.lower():
                    ok.add(n)
        r.ok = ok
        allowed |= ok
    if not allowed:
        case.check(before == after, "changed-without-authorisation", ctxt)
        case.check(not reqs, "uplink-request-without-authorisation", "%r\n%s" % ([(t.s(), x) for t, _, x in reqs], ctxt))
        case.seen("runs_without_any_authorised_request")
    old = {a.tag: a for a in cur}
    new = {a.tag: a for a in got}
    kk = lambda n: (newmod[n].key or "") if n in newmod else ""
    anykey = lambda c: any(c in kk(n) for n in allowed)
    for tag, a in old.items():
        b = new.get(tag)
        if b is None:
            dead = a.pt or not [n for n in a.nodes if n not in allowed] or not a.zone or anykey("~")
            case.check(dead and allowed, "area-removed", "%s\n%s" % (tag, ctxt))
            foreign = [n for n in a.nodes[1:] + a.passive if n not in allowed]
            # only a DELETE or a passthru area with its last member gone may take others' entries away
            # (also when the head of the list leaves, one other member is left and it is no known uplink)
            rem = [n for n in a.nodes if n not in allowed]
            case.check(anykey("~") or not [n for n in a.nodes[1:] if n not in allowed] or not a.zone or
                       a.pt and len(rem) == 1 and a.nodes[0] in allowed and rem[0] not in ups,
                       "others-lost-area", "%s %s\n%s" % (tag, foreign, ctxt))
            continue
        if anykey("$") and b.time >= m.t0 and (
                anykey("~") or a.pt or not [n for n in a.nodes if n not in allowed] or not a.zone):
            continue            # removed and created again
        for lst in ("nodes", "passive"):
            x, y = set(getattr(a, lst)), set(getattr(b, lst))
            ch = x ^ y
            case.check(ch <= allowed, "other-node-changed", "%s %s: %s\n%s" % (tag, lst, sorted(n.s() for n in ch - allowed), ctxt))
        for n in (set(b.nodes) | set(b.passive)) - (set(a.nodes) | set(a.passive)):
            l = newmod[n] if n in newmod else None
            if not l:
                continue
            lv = 1 if l.lvl is None else l.lvl
            case.seen("new_links_judged")
            case.check(a.lvl <= lv, "level-ignored", "%s %s\n%s" % (tag, n.s(), ctxt))
            case.check(not a.key or set(a.key) <= set(l.key or ""), "key-ignored", "%s %s\n%s" % (tag, n.s(), ctxt))
            case.check(m.mode == "ff" or a.zone == n.zone or (a.zone <= 6 and n.zone <= 6), "zone-ignored", "%s %s\n%s" % (tag, n.s(), ctxt))
        ao, bo = a.fields(), b.fields()
        case.check(ao[:9] + ao[10:13] == bo[:9] + bo[10:13], "area-options-changed", "%s\n%s" % (tag, ctxt))
    for tag, b in new.items():
        if tag in old:
            continue
        up = [u for u in uplinks if tag in [t.upper() for t in u[0]]]
        case.check(anykey("$") or (up and anykey("&")), "area-created", "%s\n%s" % (tag, ctxt))
        case.seen("created_areas_judged")
        fn = [n for n in b.nodes + b.passive if n not in allowed and n not in m.subnodes and not any(n == u[1] for u in up)]
        case.check(not any(A.wm(p, tag) for p in m.forb), "forbidden-area-created", "%s\n%s" % (tag, ctxt))
        case.check(not fn, "other-node-subscribed", "%s %s\n%s" % (tag, [n.s() for n in fn], ctxt))
        if up:
            for n in b.nodes:
                if n in newmod and n != b.nodes[0] and n not in m.subnodes:
                    l = newmod[n]
                    case.check(b.lvl <= (1 if l.lvl is None else l.lvl) and (not b.key or set(b.key) <= set(l.key or "")),
                               "access-ignored-on-forward", "%s %s\n%s" % (tag, n.s(), ctxt))
    for t, ms, text in reqs:
        u = ups.get(t)
        case.check(u and ms.subj.decode() == u[3] and ms.to.decode() == u[2], "request-to-wrong-system",
                   "to %s %r subj %r\n%s" % (t.s(), ms.to, ms.subj, ctxt))
        case.seen("uplink_messages_judged")
    names = {r.name.encode(): r for r in R}
    for t, ms, text in answers:
        r = names.get(ms.to)
        case.check(r is not None, "answer-to-unknown", "%r\n%s" % (ms.to, ctxt))
        if not r:
            continue
        case.check(t == r.node or t in r.ok, "answer-to-other-node", "request of %s answered to %s\n%s" % (r.node.s(), t.s(), ctxt))
        case.seen("answers_judged")
        joined = "\n".join(text)
        for l in links:
            if l.node not in r.ok and len(l.pw) > 4 and l.pw not in r.subj and not any(l.pw.lower() in c.lower() for c in r.cmds):
                case.check(l.pw not in joined, "password-revealed", "%s\n%s" % (l.pw, ctxt))
        lists = A.reply_lists(text)
        if not r.ok:
            case.check(not any(e for k, e in lists), "list-without-authorisation", "%r\n%s" % (lists, ctxt))
            case.seen("unauthorised_answers_judged")
        tagged = {a.tag: a for a in cur}
        for k, e in lists:
            if k == "listall":
                case.check(any("%" in kk(n) for n in r.ok), "listall-without-key", ctxt)
                continue
            for x in e:
                a = tagged.get(x[1])
                if not a:
                    continue
                acc = False
                for n in r.ok:
                    l = newmod[n]
                    if n in a.nodes or n in a.passive:
                        acc = True
                    elif a.lvl <= (1 if l.lvl is None else l.lvl) and (not a.key or set(a.key) <= set(l.key or "")) and \
                            (m.mode == "ff" or a.zone == n.zone or (a.zone <= 6 and n.zone <= 6)):
                        acc = True
                case.check(acc, "area-revealed", "%s listed to %s\n%s" % (x[1], r.node.s(), ctxt))
                case.seen("list_lines_judged")
