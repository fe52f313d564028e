"""P10: numbers, file names and message ids are used once"""
import os, re, time, signal, struct
from collections import Counter
from vlib.harness import Check, popen, chown_tree, UID
from vlib import native, flows as F
from vlib.spool import Spool
from vlib.pkt import N, Msg, Pkt, parse
from vlib.tossmodel import fts_date
from vlib import par


def prepare(srcs):
    return {"seqtest": native.helper(srcs["plain"], "seqtest"), "shim": native.shim(srcs["plain"])}


START = [None, b"", b"1\n", b"17\n", b"99999\n", b"1048574\n", b"1048576\n", b"garbage\n", b"-5\n", b"2147483647\n", b"4294967295\n",
         b"9223372036854775807\n", b"12", b"0\n", b"\0\0\0\0", b"123456789012345678901234567890\n"]


def numbers(case):
    """processes drawing numbers from one file, delayed and killed at any operation"""
    r = case.rng
    sp = Spool(case)
    nodir = r.random() < .2
    seq = "%V/newdir/seq" if nodir else "%V/seq/s"
    rel = "var/newdir/seq" if nodir else "var/seq/s"
    start = None if nodir else START[case.index % len(START)]
    if start is not None:
        sp.put(rel, start)
    sp.write_conf()
    nproc, n = r.choice([1, 2, 4, 8]), r.choice([1, 5, 20])
    die, kil = r.choice([0, 0, 5]), r.choice([0, 0, 5000, 30000])
    delay = r.choice([0, 100, 1000])
    ps = []
    for k in range(nproc):
        env = dict(sp.env(), LD_PRELOAD=case.ctx["shim"], SHIM_SEED=str(r.getrandbits(20)), SHIM_DELAY=str(delay),
                   SHIM_PROB="60", SHIM_KILL=str(kil), SHIM_LOG=sp.p("shimlog"))
        ps.append(popen([case.ctx["seqtest"], sp.p("etc/fidogate.conf"), seq, str(n), str(die)], sp.d, env))
    seqs = []
    for p in ps:
        try:
            out, err = p.communicate(timeout=60)
        except Exception:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            case.fail("hang", "seqtest hangs, start %r" % start)
            return
        case.check(p.returncode in (0, -9), "crash", "seqtest: %s %s" % (p.returncode, err[-200:]))
        seqs.append([int(x) for x in out.split()])
        case.check(p.returncode != 0 or len(seqs[-1]) == n, "number-missing", "%d numbers of %d" % (len(seqs[-1]), n))
    al = [x for s in seqs for x in s]
    dup = [x for x, c in Counter(al).items() if c > 1]
    case.check(not dup, "number-twice", "start %r, %d processes: drawn twice %s" % (start, nproc, dup[:5]))
    case.check(all(x > 0 for x in al), "number-not-positive", "start %r: %s" % (start, [x for x in al if x <= 0][:3]))
    for s in seqs:
        case.check(all(a < b for a, b in zip(s, s[1:])), "number-not-increasing", "start %r: %s" % (start, s[:20]))
    m = re.match(rb"\s*([-+]?\d+)", start or b"")
    st = int(m[1]) if m else 0
    if 0 <= st < 2 ** 62:
        case.check(all(x > st for x in al), "number-reused", "file had %r: drawn %s" % (start, sorted(al)[:3]))
        if not kil and not die:
            case.check(sorted(al) == list(range(st + 1, st + 1 + len(al))), "number-gap", "start %r: %s" % (start, sorted(al)[:10]))
    if al and 0 <= st < 2 ** 62:
        case.check(int(sp.get(rel).split()[0]) >= max(al), "number-not-saved", "file %r after drawing %d" % (sp.get(rel), max(al)))
    case.seen("numbers", len(al)); case.seen("processes", nproc)
    case.sig(start, nproc, n, delay > 0, die > 0, kil > 0)


def unusable(case):
    """no number can be taken: nothing may be written under a made-up one"""
    r = case.rng
    key = ["toss", "gate", "og"][case.index % 3]
    cls = dict(F.FLOWS, og=F.OutGate)[key]
    fl = cls(case, r)
    fl.fill(2)
    fl.sp.write_conf()
    how = r.choice(["readonly", "dir", "nodir"]) if os.geteuid() == 0 else "dir"
    for s in ("mail", "news", "msgid", "pkt", "split", "toss", "pack", "tick", "ff"):
        p = fl.sp.p("var/seq", s)
        if how == "readonly":
            with open(p, "w") as f:
                f.write("5\n")
            os.chmod(p, 0o444)
            os.chown(p, 0, 0)
        elif how == "dir":
            os.mkdir(p)
    if how == "nodir":
        os.rmdir(fl.sp.p("var/seq"))
        with open(fl.sp.p("var/seq"), "w") as f:
            f.write("")
    rcs = []
    for _ in range(2 if key == "og" else 1):
        prog, a, i = fl.cmd()
        R = fl.sp.run(prog, *a, input=i, variant="plain")
        case.san(R)
        rcs.append(R.rc)
    w = fl.where()
    if key == "og":
        case.check(all(rcs) or not fl.open_(w), "silent-loss", "%s: rc %s, mail lost without an error" % (how, rcs))
    else:
        case.check(not fl.lost(w), "message-lost", lambda: "%s %s: rc %s lost %s\n%s" % (key, how, rcs, fl.lost(w)[:3], fl.sp.log()[-500:]))
        case.check(rcs[0] != 0, "silent-failure", "%s %s: rc 0" % (key, how))
    case.check(not fl.extra(w), "message-twice", "%s: %s" % (key, fl.extra(w)[:3]))
    case.sig(key, how)
    case.seen("unusable_sequence_files")


# ------------------------------------------------- several programs at once
def gating(case):
    """many gateways and area managers at the same time share the sequences"""
    r = case.rng
    fl = F.OutGate(case, r, conf=["MaxMsgSize 8000"])
    sp = fl.sp
    n = r.choice([2, 4, 8])
    fl.big = r.random() < .5
    fl.fill(n)
    cmds = [fl.cmd() for _ in range(n)]
    if r.random() < .5:
        sp.put("etc/areas.bbs", "# list\n#- ALPHA 2:5030/1\n")
        sp.put("etc/passwd", "".join("af 2:5030/%d pw 9 A\n" % i for i in range(1, 9)))
        for k in range(r.choice([1, 2])):
            d = "bt/af%d" % k
            m = Msg(b"Sysop", b"areafix", b"pw", b"\1INTL 2:5030/100 2:5030/%d\r\1MSGID: 2:5030/%d %08x\r%%LIST\r" % (k + 2, k + 2, k),
                    N("2:5030/%d" % (k + 2)), N("2:5030/100"), 1, 0, fts_date(int(time.time())))
            sp.put(d + "/00000001.pkt", Pkt(N("2:5030/%d" % (k + 2)), N("2:5030/100"), [m]).raw())
            cmds.append(("areafix/ftnafpkt", ["-I", sp.p(d)], None))
    nsplit = 0
    if r.random() < .5:
        for k in range(r.choice([1, 3])):
            b = b"From: john@gate.example.org\nTo: sysop@f1.n5030.z2.fidonet.org\nSubject: big %d\n\n" % k + \
                b"".join(b"part %d line %d of a long text that has to be split\n" % (k, i) for i in range(900))
            cmds.append(("gate/rfc2ftn", ["-t"], b))
            nsplit += 1
    r.shuffle(cmds)
    sp.write_conf()
    res = par.run_many(case, sp, cmds, r.choice([50, 300, 1500]))
    bad = [(c[0], rc, e[-200:]) for c, rc, e in res if rc]
    case.check(not bad, "program-failed", "%s\n%s" % (bad[:2], sp.log()[-300:]))
    w = fl.where()
    done, inp, q, broken = w
    broken = [x for x in broken if "ids []" not in x]
    case.check(not broken, "broken-output", "%s" % broken[:3])
    case.check(not fl.open_(w), "message-lost", lambda: "not written %s\n%s" % (fl.open_(w)[:5], sp.log()[-400:]))
    # split messages repeat the id in every part only when it is in the text of each
    case.check(not fl.extra(w), "message-twice", lambda: "%s" % fl.extra(w)[:5])
    ids, splits, pk = Counter(), {}, 0
    for d in ("spool/outpkt", "spool/outpkt/mail", "spool/outpkt/news"):
        for p, k in sp.read_pkts(d):
            pk += 1
            for m in k.msgs:
                x = re.search(rb"\x01MSGID: ([^\r]*)\r", m.body)
                s = re.search(rb"\x01SPLIT: .{18} @+(\S+) +(\d+) +(\d+)/(\d+)", m.body)
                if x:
                    ids[x[1], s[3] if s else None] += 1
                if s:
                    splits.setdefault(s[2], []).append((int(s[3]), int(s[4]), m.subj))
    dup = [x for x, c in ids.items() if c > 1]
    case.check(not dup, "msgid-twice", "MSGID used twice: %s" % dup[:4])
    for k, v in splits.items():
        case.check(sorted(x[0] for x in v) == list(range(1, v[0][1] + 1)), "split-number-shared", "SPLIT number %r: parts %s" % (k, v))
    case.check(len(splits) >= (nsplit and 1), "split-missing", "no SPLIT of %d big messages" % nsplit) if nsplit else None
    case.seen("packets", pk); case.seen("message_ids", len(ids)); case.seen("split_messages", len(splits))
    case.sig(n, nsplit, len(cmds), pk)


def dirs(case):
    """instances with separate input directories write to the same output"""
    r = case.rng
    key = ["toss", "gate", "route"][case.index % 3]
    fl = F.FLOWS[key](case, r)
    k = r.choice([2, 3, 4])
    fl.fill(k * r.choice([1, 3]))
    ins = []
    for j, p in enumerate(fl.sp.ls(fl.indir, "*.pkt")):
        d = "bt/indir%d" % (j % k)
        fl.sp.put(d + "/" + os.path.basename(p), open(p, "rb").read(), fl.now - 3000 + j)
        os.unlink(p)
    fl.sp.write_conf()
    cmds = [(fl.prog, ["-I", fl.sp.p("bt/indir%d" % j)] + (["-w", "100000"] if key == "toss" else ["-i"] if key == "gate" else []), None)
            for j in range(k)]
    res = par.run_many(case, fl.sp, cmds, r.choice([50, 300, 1500]))
    rcs = [x[1] for x in res]
    w = fl.where()
    left = [x for j in range(k) for x in fl.sp.ls("bt/indir%d" % j)]
    case.check(not any(rcs), "program-failed", "%s: %s\n%s" % (key, rcs, fl.sp.log()[-400:]))
    case.check(not w[3], "broken-output", "%s: %s" % (key, w[3][:3]))
    case.check(not fl.open_(w), "message-lost", lambda: "%s: not delivered %s, left %s\n%s" % (key, fl.open_(w)[:5], left[:3], fl.sp.log()[-400:]))
    case.check(not fl.extra(w), "message-twice", "%s: %s" % (key, fl.extra(w)[:5]))
    case.seen("messages", len(fl.need))
    case.sig(key, k, len(fl.need))


def rollback(case):
    """the numbers start again (restored backup, wrap): older files stay"""
    r = case.rng
    key = ["toss", "gate", "og", "pack", "route"][case.index % 5]
    cls = dict(F.FLOWS, og=F.OutGate)[key]
    fl = cls(case, r)
    sp = fl.sp
    sp.write_conf()
    start = r.choice([None, 0, 0xffffd, 0xfffff, 999998, 99998])
    ms = re.compile(rb"\x01MSGID: ([^\r]*)\r")
    rounds = r.choice([2, 3])
    for rd in range(rounds):
        for s in ("mail", "news", "pkt", "toss", "pack", "tick", "ff", "split"):
            if start is None:
                try:
                    os.unlink(sp.p("var/seq", s))
                except FileNotFoundError:
                    pass
            else:
                sp.put("var/seq/" + s, "%d\n" % start)
        if key in ("pack", "route"):
            fl.seqno = 0xfff00             # the tosser's names come again too
        fl.fill(r.choice([1, 3]) if key != "og" else 2)
        before = {k: v for d in ("spool/outpkt", "spool/outrfc", "spool/toss/toss", "spool/toss/route") for k, v in
                  ((d + "/" + k, v) for k, v in sp.tree(d).items())} if key not in ("pack", "route") else {}
        for _ in range(2 if key == "og" else 1):
            prog, a, i = fl.cmd()
            R = sp.run(prog, *a, input=i, variant="plain")
            case.san(R)
            case.check(R.rc == 0, "program-failed", "%s round %d: rc %d %s\n%s" % (key, rd, R.rc, R.err[-200:], sp.log()[-300:]))
        for k, v in before.items():
            got = sp.get(k) if os.path.exists(sp.p(k)) else None
            case.check(got == v, "overwritten", "%s: %s of an earlier run is %s" % (key, k, "gone" if got is None else "changed"))
    w = fl.where()
    case.check(not w[3], "broken-output", "%s: %s" % (key, w[3][:3]))
    case.check(not fl.open_(w), "message-lost", lambda: "%s, numbers start again at %s: not delivered %s; in input %s, set aside %s\n%s" % (
        key, start, fl.open_(w)[:5], sorted(w[1])[:3], sorted(w[2])[:3], sp.log()[-400:]))
    case.check(not fl.extra(w), "message-twice", "%s: %s" % (key, fl.extra(w)[:5]))
    case.sig(key, start, rounds)
    case.seen("sequences_reset", rounds)


def setaside(case):
    """packets set aside get names of their own"""
    r = case.rng
    key = ["toss", "gate", "route", "pack", "afpkt"][case.index % 5]
    sp = Spool(case)
    ind = {"toss": "bt/pin", "gate": "bt/pin", "route": "spool/toss/toss", "pack": "spool/toss/route", "afpkt": "bt/pin"}[key]
    prog = {"toss": "toss/ftntoss", "gate": "gate/ftn2rfc", "route": "toss/ftnroute", "pack": "toss/ftnpack",
            "afpkt": "areafix/ftnafpkt"}[key]
    sp.put("etc/areas.bbs", "# x\n")
    sp.put("etc/acl", "Netmail\n* *\n")
    for b in ("unknown", "local", "malformed"):
        sp.put("etc/bounce." + b, "b\n")
    sp.put("etc/routing", "netmail\nroute normal 2:*\nechomail\nroute normal 2:*\n")
    sp.put("etc/packing", 'arc noarc ""\nnetmail\npack noarc 2:*\nechomail\npack noarc 2:*\n')
    sp.write_conf()
    marks = {}
    n = r.choice([2, 3, 12])
    for i in range(n):
        mark = b"MARK%04d" % i
        what = r.choice(["short", "type", "trunc"])
        good = Pkt(N("2:5030/1"), N("2:5030/100"), []).raw()
        d = {"short": mark + b"x" * 20, "type": good[:18] + b"\x09\x00" + good[20:] + mark,
             "trunc": good[:58] + struct.pack("<7H", 2, 1, 100, 5030, 5030, 0, 0) + mark}[what]
        name = "mnn00001.pkt" if key in ("route", "pack") else "12345678.pkt"
        sp.put(ind + "/" + name, d)
        R = sp.run(prog, *(["-I", sp.p(ind)] if key == "afpkt" else []), variant="plain")
        case.san(R)
        marks[mark] = what
        if r.random() < .3 and os.path.exists(sp.p(ind, name)) is False:
            pass
        if os.path.exists(sp.p(ind, name)):       # not set aside by this program
            os.unlink(sp.p(ind, name))
            del marks[mark]
    al = b"\n".join(v for k, v in sp.tree(".").items() if not k.startswith("log"))
    for m, what in marks.items():
        case.check(m in al, "set-aside-overwritten", "%s: unreadable packet %s (%s) of an earlier run is gone: %s" % (
            key, m, what, sorted(sp.tree(ind))[:20]))
    case.seen("set_aside", len(marks))
    case.sig(key, n)


CHECK = Check("P10", "exploration",
    "numbers: 1-8 processes draw from one sequence file, missing, empty, damaged or at its limits, with delays before "
    "every file operation and deaths at any; gating/dirs: several gateways, tossers, routers, area managers at the same "
    "time with shared sequences, all MSGIDs, SPLIT numbers and output files compared; rollback: numbers start again while "
    "older output is waiting; setaside: packets of the same name set aside repeatedly; unusable sequence files",
    ["a message id made from the Message-ID of an Internet message is a checksum of it",
     "the file of message id numbers itself is not rolled back"],
    variants=("plain",), prepare=prepare)
CHECK.phase("numbers", numbers, 400, 3000, 4)
CHECK.phase("unusable", unusable, 36, 200)
CHECK.phase("gating", gating, 120, 1200, 4)
CHECK.phase("dirs", dirs, 90, 1200, 4)
CHECK.phase("rollback", rollback, 160, 1500)
CHECK.phase("setaside", setaside, 100, 600)
