"""P13: hostile packets"""
import os, time, zlib
from vlib.harness import Check
from vlib.spool import Spool
from vlib.pkt import N, Msg, Pkt
from vlib import hostile as H

CONFS = ["EchoMail4D", "NetMail8bit", "NetMailQP", "NetMailBase64", "GateRfcKludge", "DotNames", "FTNStrictPktCheck",
         "UseOriginForOrganization", "KillUnknownMSGIDZone", "KillNoMSGID", "IgnoreCHRS", "IgnoreSoftCR",
         "DontIgnoreMimeType", "SingleArticles", "KillSplit", "UseFTNToAddress", "NoAddressInToField", "HostsRestricted",
         "NetMailHeadersPlain", "NoDBCHistory", "NoFidoStyleMsgid", "SaveFidoMsgid", "TossEchoMail4D", "CheckPath",
         "AddMeSeenby", "DupeCheck", "KillUnknown", "AutoCreate", "TosserCheckPath", "PathTruncate"]
PROGS = ["toss", "toss", "route", "pack", "rfc", "rfc", "rfc", "af", "debug", "ftn2ftn"]


def make(case, rng):
    conf = [c for c in CONFS if rng.random() < 0.3]
    conf += ["Organization Org", "DefaultCharset %s" % rng.choice(["cp866:cp866:utf-8", "cp866:cp866:koi8-r", "latin-1:iso-8859-1:iso-8859-1", "utf-8:utf-8:utf-8"]),
             "X-FTN ftTOVDSPKF"]
    if rng.random() < 0.5:
        conf += ["FTNJunkGroup fido.junk"]
    if rng.random() < 0.3:
        conf += ["TrackerMail root@localhost", "ErrorsTo root@localhost"]
    if rng.random() < 0.3:
        conf += ["RFCAddrMode %s" % rng.choice("pa"), "NetMailCharset cp866:cp866:utf-8"]
    if rng.random() < 0.3:
        conf += ["CarbonNameGroup Some_One fido.a fido.b"]
    conf += ["AreaFixHelp %C/areafix.help"]
    sp = Spool(case, conf=conf)
    sp.put("etc/areas", "TEST fido.test -a 2:5030/100%s\n\"\" fido. -H -a 2:5030/100 -b -C cp866:cp866:utf-8\n" % rng.choice(["", " -8", " -Q", " -b", " -nh", " -g", " -R 1"]))
    sp.put("etc/areas.bbs", "; x\n#- TEST 2:5030/100 2:5030/1 2:5030/2\n- OTHER -z 2 2:5030/3 2:5030/1\n")
    sp.put("etc/passwd", "af 2:5030/1 pass 100 $&~% Sysop\npacket 2:5030/7 XXX\n")
    sp.put("etc/routing", "NetMail\nremapto 2:5030/100.0 2:5030/100.9000 \"areafix\"\nroute normal 2:5030/0 2:5030/200 1:*\nsend hold 2:5030/1.*\n"
           "hostroute crash 2:5031/*\nEchoMail\n%s\n" % rng.choice(["sendmove normal *", "route normal 2:5030/5 *", "send hold *"]))
    sp.put("etc/packing", "EchoMail\npack noarc *\nNetMail\npack noarc *\n")
    for b in ("acl", "acl_netmail", "addrinto", "down", "insecure", "noto", "restricted"):
        sp.put("etc/bounce." + b, "Subject: bounce %s\n\n%%F %%T %%O %%d %%t %%f %%s %%R %%A %%D %%N %%S\n\n%%M\n%%\n" % b)
    sp.put("etc/hosts", "2:5030/1 node1\n2:5030/100 gate\n")
    sp.put("etc/aliases", "john 2:5030/100 \"John Smith\"\n")
    sp.put("etc/areafix.help", "help text\n")
    sp.put("lib/.x", "")
    return sp


def good(mark, kind, dest="2:5030/100"):
    k = b"AREA:TEST\r" if kind == "echo" else b"\x01INTL 2:5030/100 2:5030/1\r"
    t = b"\x01MSGID: 2:5030/1 %08x\rmark %s end\r" % (zlib.crc32(mark.encode()), mark.encode())
    if kind == "echo":
        t += b"--- \r * Origin: o (2:5030/1)\rSEEN-BY: 5030/1\r\x01PATH: 5030/1\r"
    m = Msg(b"Good One", b"John Smith", b"good", k + t, N("2:5030/1"), N(dest))
    return Pkt(N("2:5030/1"), N("2:5030/100"), [m]).raw()


def one(case):
    rng = case.rng
    variant = rng.choice(["asan", "asan", "msan"])
    sp = make(case, rng)
    which = rng.choice(PROGS)
    n = rng.choice([1, 4, 16, 30])
    kind = rng.choice([None, None, "net", "echo"])
    marks = []
    t0 = int(time.time()) - 5000

    def fill(d, pre=("",)):
        os.makedirs(sp.p(d), exist_ok=True)
        for i in range(n):
            x = rng.choice(pre)
            sp.put("%s/%s%0*x.pkt" % (d, x, 8 - len(x), i + 1), H.packet(rng, kind=kind), t0 + i)
        for j, when in enumerate([t0 - 10, t0 + 4000]):
            mk = "MARK%dQ%d" % (case.index, j)
            k = rng.choice(["echo", "net"])
            x = {"echo": "nen", "net": "nnn"}[k] if pre != ("",) else ""
            sp.put("%s/%s%0*x.pkt" % (d, x, 8 - len(x), 0x9000 + j), good(mk, k), when)
            marks.append(mk)
    args, d, mustdeliver = [], "bt/pin", True
    PRE = ("nen", "nnn", "nec", "nnh", "xxx", "ntn", "-nd", "nnc")
    if which == "toss":
        prog = "toss/ftntoss"
        args = rng.choice([[], [], ["-n"], ["-s"]])
        fill(d)
    elif which == "route":
        d, prog = "spool/toss/toss", "toss/ftnroute"
        fill(d, PRE)
    elif which == "pack":
        d, prog = "spool/toss/route", "toss/ftnpack"
        args = rng.choice([[], [], ["-F", "/"], ["-F", sp.p("in")]])
        fill(d, [x for x in PRE if x[1] in "en" and x[2] in "nhcd"])       # nothing else is packed
    elif which == "rfc":
        prog = "gate/ftn2rfc"
        args = rng.choice([["-i"], ["-i", "-1"], ["-i", "-t"]])
        fill(d)
    elif which == "af":
        prog = "areafix/ftnafpkt"
        args = rng.choice([[], ["-r"], ["-n"]])
        mustdeliver = False
        fill(d)
    elif which == "debug":
        fill(d)
        prog, args = "util/pktdebug", rng.choice([["-mt"], ["-mtt"], ["-s"], ["-m"], ["-mttvvvvvvvvv"]]) + sp.ls(d, "*.pkt")
        mustdeliver = False
    else:
        prog, args = "toss/ftn2ftn", ["-A", "2:5030/100", "-B", "2:5030/100.1", "-O", sp.p("spool/outpkt")]
        n = 1
        fill(d)
        args += [sp.ls(d, "00*1.pkt")[0]]
        mustdeliver = False
    if rng.random() < 0.1:
        args = ["-v"] * 9 + args
    pk = {os.path.basename(f): open(f, "rb").read() for f in sp.ls(d)}
    sp.write_conf()
    r = sp.run(prog, *args, variant=variant, timeout=100)
    case.seen("packets", len(pk))
    case.seen("prog_" + which)
    if not case.san(r):
        for f, b in pk.items():
            if os.path.exists(sp.p(d, f)):
                case.viol[-1] = (case.viol[-1][0], case.viol[-1][1] + "\nleft: %s %d bytes %s" % (f, len(b), b[:300]))
                break
        return
    left = [os.path.basename(f) for f in sp.ls(d, "*.pkt")]
    bad = [os.path.basename(f) for f in sp.ls(d) if not f.endswith(".pkt")]
    bad += [f for f in os.listdir(sp.p("spool/toss/bad"))]
    case.seen("set_aside", len(bad))
    case.sig(which, variant, len(bad), len(left), r.rc, tuple(sorted({l.split("] ")[-1][:14] for l in sp.log().split("\n")}))[:6])
    if which in ("toss", "route", "pack", "rfc", "af"):
        log = sp.log()
        for f in left:
            if which == "pack" and (any(int.from_bytes(pk[f][o:o + 2], "little") not in range(1, 7) for o in (36, 48)) or pk[f][22:24] == b"\xff\xff"):
                continue                    # no outbound directory for such a destination: stays spooled
            case.check(f in log, "left-unreported", "%s neither processed nor set aside nor reported %s, exit %d\n%s" % (which, f, r.rc, log[-500:]))
    if mustdeliver:
        tree = sp.tree()
        for mk in marks:
            mb = (mk + " end").encode()
            where = [p for p, b in tree.items() if mb in b]
            ok = [p for p in where if not p.startswith(d + "/") and "/bad/" not in p]
            case.check(len(where) >= 1, "good-lost", "%s: the good message %s is nowhere" % (which, mk))
            case.check(ok, "good-blocked", lambda: "%s: the good packet was not processed: %s; rc %d; %s" % (which, where, r.rc, sp.log()[-600:]))
            case.seen("good_delivered", 1 if ok else 0)
    case.sample = "%s (%s): %d packets, %d set aside, rc %d" % (which, variant, len(pk), len(bad), r.rc)


CHECK = Check("P13", "exploration",
              "programs x number set aside x exit x kinds of log messages",
              ["memory errors are those AddressSanitizer, UBSan and MemorySanitizer can see in the executed paths"],
              variants=("asan", "msan", "plain"))
CHECK.phase("packets", one, 1500, 40000)
