"""P14: hostile mail, articles and news batches"""
import os
from vlib.harness import Check
from vlib.spool import Spool
from vlib.pkt import PktError, parse
from vlib import rfc as R

CONFS = ["NoFromLine", "NoFSC0035", "NoFSC0035ifAlias", "NoFSC0047", "EchoMail4D", "DontUseReplyTo", "ReplyAddrIfmailTX",
         "UseXHeaderForTearline", "NoChrsKludge", "NoRfcKludge", "NoGatewayKludge", "XFromKludge", "UseTZUTCKludge",
         "DontProcessReturnReceiptTo", "DontFlushDBCHistory", "EchogateAlias", "SinglePKTs", "NoDBCHistory", "NoFidoStyleMsgid",
         "HostsRestricted", "AddressFallback", "UseOrganizationForOrigin", "ForbidFromFido", "CheckAreasBBS"]
LIBRCPT = ["John_Smith@f1.n5030.z2.fidonet.org", "x@p7.f1.n5030.z2.fidonet.org", "john@gate.example.org", "a@b.c", "", "@", "2:5030/1", "A" * 300 + "@f1.n5030.z2.fidonet.org",
           "\"a b\"@f1.n5030.z2.fidonet.org", "x@f99999.n5030.z2.fidonet.org", "<x@f1.n5030.z2.fidonet.org>", "a!b!c", "x@" + "a." * 200 + "org", "()", "John Smith <x@f1.n5030.z2.fidonet.org>"]


def one(case):
    rng = case.rng
    variant = rng.choice(["asan", "asan", "msan"])
    conf = [c for c in CONFS if rng.random() < 0.25]
    conf += ["DefaultCharset %s" % rng.choice(["cp866:cp866:utf-8", "cp866:cp866:koi8-r", "latin-1:iso-8859-1:iso-8859-1", "utf-8:utf-8:utf-8", "ascii:us-ascii:utf-8"]),
             "RFCLevel %d" % rng.choice([0, 1, 2, 3]), "Origin gateway origin", "UserDomain example.org" if rng.random() < .3 else "; x"]
    if rng.random() < .4:
        conf += ["XFlagsPolicy %d" % rng.choice([0, 1, 2])]
    if rng.random() < .4:
        conf += ["MaxMsgSize %d" % rng.choice([100, 1000, 14000]), "LimitMsgSize %d" % rng.choice([0, 5000])]
    if rng.random() < .3:
        conf += ["NetMailCharset latin-1:iso-8859-1:utf-8"]
    if rng.random() < .3:
        conf += ["Gateway 2:5030/50"]
    if rng.random() < .3:
        conf += ["LocalNetmailDomain example.org"]
    sp = Spool(case, conf=conf)
    opt = rng.choice(["", " -m 500", " -l 2000", " -R 2", " -o \"area origin\"", " -C koi8-r:koi8-r:koi8-r", " -x", " -X", " -u", " -H"])
    sp.put("etc/areas", "TEST fido.test -a 2:5030/100%s\nA fido.a -z 2\n\"\" fido. -z 2\n" % opt)
    if rng.random() < .7:
        sp.put("etc/areas.bbs", "; x\n#- TEST 2:5030/100 2:5030/1 2:5030/2\nA -z 2\nOTHER -a 2:5030/100 2:5030/3\n")
    for b in ("acl", "acl_netmail"):
        sp.put("etc/bounce." + b, "Subject: bounce\n\n%F %T %O %d %t %f %s %R %A %D %N %S %B\n\n%M\n%\n")
    sp.put("etc/acl", rng.choice(["Netmail\n* *\nEchoMail\n* *\n"] * 5 + ["Netmail\n*@example.org *,!2:5030/50\nEchomail\n* *,!fido.a\nPostingNotAllowedNotify *\n"]))
    sp.put("etc/hosts", "2:5030/1 node1\n2:5030/100 gate\n")
    sp.put("etc/aliases", "john 2:5030/100 \"John Smith\"\nivan 2:5030/100 \"Ivan I\"\n")
    sp.write_conf()
    mode = rng.choice(["mail", "mail", "t", "n", "b", "f"])
    inp = b""
    args = [] if rng.random() < .5 else ["-i"]
    if rng.random() < .15:
        args += ["-w", rng.choice(["Normal", "Hold", "Crash"])]
    if rng.random() < .15:
        args += ["-W"]
    if rng.random() < .1:
        args += ["-m", "1"]
    if rng.random() < .05:
        args += ["-v"] * 9
    if mode == "mail":
        inp = R.message(rng)
        args += ["--"] + [rng.choice(LIBRCPT) for _ in range(rng.choice([1, 1, 2, 4]))]
    elif mode == "t":
        args += ["-t"]
        inp = R.message(rng)
    elif mode == "n":
        args += ["-n"]
        inp = R.message(rng, True)
    elif mode == "b":
        args += ["-b"]
        inp = R.batch(rng, [R.message(rng, True) for _ in range(rng.choice([1, 2, 6]))])
    else:
        names = []
        for i in range(rng.choice([1, 2, 6])):
            sp.put("in/art%d" % i, R.message(rng, True))
            names.append(sp.p("in/art%d" % i) + rng.choice(["", " extra", " "]))
        sp.put("in/list", "\n".join(names + rng.choice([[], ["/nonexistent"], [""]])) + "\n")
        args += ["-f", sp.p("in/list")]
    r = sp.run("gate/rfc2ftn", *args, input=inp, variant=variant, timeout=60)
    case.seen("messages")
    case.seen("mode_" + mode)
    if not case.san(r):
        case.viol[-1] = (case.viol[-1][0], case.viol[-1][1] + "\nargs %r input %d bytes %r" % (args, len(inp), inp[:300]))
        return
    n = 0
    for rel in ("spool/outpkt/mail", "spool/outpkt/news", "bt/out", "bt/out.001"):
        for p, k in sp.read_pkts(rel):
            n += len(k.msgs)
        for p, k in sp.read_pkts(rel, "*.?ut"):
            n += len(k.msgs)
    case.seen("gated", n)
    case.sig(mode, variant, r.rc, min(n, 6), tuple(sorted({l.split("] ")[-1][:18] for l in sp.log().split("\n")}))[:5])
    if n == 0 and r.rc == 0:
        case.seen("nothing")
    case.sample = "%s (%s) rc %d, %d messages" % (mode, variant, r.rc, n)


CHECK = Check("P14", "exploration",
              "mode x exit code x messages gated x kinds of log messages",
              ["memory errors are those AddressSanitizer, UBSan and MemorySanitizer can see in the executed paths"],
              variants=("asan", "msan", "plain"))
CHECK.phase("messages", one, 5000, 120000)
