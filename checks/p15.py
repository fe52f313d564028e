"""P15: hostile announcements, requests and configuration"""
import os, time
from vlib.harness import Check
from vlib.spool import Spool
from vlib.pkt import N, Msg, Pkt, PktError
from vlib import hostile as H
from vlib import rfc as R
from checks.p14 import CONFS as C14
from checks.p13 import CONFS as C13

KW = """ACL ALIASES AREAS AddOtherAKA AddOtherAKAs AddToSeenBy AddressIsLocalForXPost AmigaStyleOutbound AreaFixCreateForbiddenAreas
AreaFixCreateForbiddenAreasFile AreaFixCreateLogFile AreaFixHelp AreaFixName AreaFixNoTrafficTimeout AreaFixRequestTimeout
AreaFixSubscribeOnlyIfPlus AreafixAvailPrintsAllAreas AreafixCC AreafixMailer AreasBBS AreasXlate AutoCreateCmd AutoCreateFechoPath
AutoCreateFileechoDontCheckPassword AutoCreateFileechoLine AutoCreateLine AutoCreateNG AutoCreateNewgroupCmd AutoCreateRenumberCmd
AutoCreateRmgroupCmd AutoCreateSubscribeFileechoNodes AutoCreateSubscribeNodes AutoRemoveNG AvailFile BounceCCMail BundleDisp
CHARSETMAP CarbonNameGroup CharsetAliasesFSC CharsetNameMap CheckAreasBBS CheckPath CheckPointOriginAddr DBC_HISTORY DefaultCharset
DeletePath DeleteSeenBy DiskFreeMin DiskFreeProg DontFlushDBCHistory DontIgnore0x8d DontIgnoreMimeType DontIgnoreSoftCR
DontProcessReturnReceiptTo DontUseReplyTo DotNames DupeCheck EchoMail4D EchogateAlias EnableTickPassword ErrorsTo FAreasBBS FAttachFlav
FStatusAreaFixList FTNACL FTNInRecombine FTNInRnews FTNInSendmail FTNJunkGroup FTNJunkGroupKeys FTNStrictPktCheck FallbackUsername
FileEchoFilesModeChange FileFixCreateForbiddenAreas FileFixCreateForbiddenAreasFile FileFixName FileFixNoTrafficTimeout
FileFixRequestTimeout ForbiddenChar ForceRFCAddrInFrom GateRfcKludge HOSTS HUBROUTEDB HostsRestricted IgnoreCHRS IgnoreFileAttach
IgnorePRLKey IgnoreSoftCR KillBlank KillCircular KillDupe KillDupes KillEmpty KillInsecure KillNoMSGID KillOld KillReadonly KillRouted
KillSplit KillTickDupe KillUnknown KillUnknownMSGIDZone LimitMsgSize LogNetMail MaxArc MaxArchiveRatio MaxHistory MaxHistoryDBC MaxMsg
MaxMsgSize MaxOpenFiles MaxTicHistory MinDiskFree NetMail8bit NetMailBase64 NetMailCharset NetMailHeadersPlain NetMailQP
NetMailQuotedPrintable NewsPathTail NlFile NoAddressInToField NoChrsKludge NoDBCHistory NoEmptyPath NoFSC0035 NoFSC0035ifAlias NoFSC0047
NoFidoStyleMsgid NoFromLine NoGatewayKludge NoLogIfArticleNotFound NoRewrite NoRfcKludge NoTicHistory Organization Origin PACKING PASSWD
PassthroughtBoxesDir PassthroughtBoxesFlavours RFCAddrMode RFCLevel ROUTING Regex1stLine RepackMailTime ReplyAddrIfmailTX RulesConfig
RulesDir RulesSendTo SPYES SaveFidoMsgid SingleArticles SinglePKTs SupportPing TickDontSetTime TickFlav TickMode TickReplacedDir
TickReplacedIgnore TickWaitAction TickWaitHour TossEchoMail4D Track TrackerMail TrafficStatistics TrafficStatisticsFile UPLINKS
UnknownTickArea UplinkCanBeReadonly UseFTNToAddress UseOrganizationForOrigin UseOriginForOrganization UseTZUTCKludge
UseXHeaderForTearline X-FTN XFlagsPolicy XFromKludge ZoneGate TickFileAction LocalNetmailDomain UserDomain
Address GateAddress Uplink Zone Hostname Domain HostsDomain DosDrive Gateway Include Regex""".split()
NUM = ["0", "1", "-1", "10", "077", "999999999999999999999", "0x10", "1 2 3", "2147483648", "-2147483649"]

TIC = ["Area", "Origin", "From", "To", "File", "Replaces", "Desc", "LDesc", "CRC", "Created", "Size", "Path", "Seenby", "Pw",
       "Release", "Date", "Areadesc", "Magic", "App", "x", ""]


def tic(rng):
    L = [b"Area FILES", b"Origin 2:5030/1", b"From 2:5030/1", b"File new.zip", b"Desc A file", b"CRC 352441C2", b"Size 3", b"Path 2:5030/1 1 Mon",
         b"Seenby 2:5030/1", b"Pw secret"]
    for _ in range(rng.choice([0, 1, 3, 30])):
        l = rng.choice(TIC).encode() + rng.choice([b" ", b" ", b": ", b"\t", b"  ", b""]) + H.val(rng)
        if rng.random() < .5:
            L[rng.randrange(len(L))] = l
        else:
            L.insert(rng.randrange(len(L) + 1), l)
    e = rng.choice([b"\r\n", b"\r\n", b"\n", b"\r", b"\0"])
    d = e.join(L) + e
    return d if rng.random() < .6 else H.mutbytes(rng, d)


REQ = ["%%LIST", "%%QUERY", "%%UNLINKED", "%%HELP", "%%PASSIVE", "%%ACTIVE", "%%RESCAN", "%%CREATE", "%%DELETE", "%%VIA", "%%LVL", "%%KEY",
       "%%DESC", "%%PASSWD", "%%QUIT", "%%FORWARD", "%%+ALL", "%%-ALL", "%%UPLINKS", "+", "-", "", "%%", "?", "~", "=", "%%+", "%%-", "%%FROM", "*", "%%INFO", "%%RULES"]


def request(rng):
    L = []
    for _ in range(rng.choice([1, 2, 5, 12])):
        w = rng.choice(REQ).replace("%%", "%").encode()
        if rng.random() < .2:
            w = w.lower()
        r = rng.random()
        if r < .3:
            w += rng.choice([b" ", b"", b"\t"]) + rng.choice([b"TEST", b"OTHER", b"NEW.AREA", b"TEST -R=10", b"*", b"T*", b"2:5030/2", b"LIST", b"-l 50 -k A X"])
        elif r < .8:
            w += rng.choice([b" ", b" ", b""]) + H.val(rng, 9000)
        L.append(w)
    b = b"\r".join(L) + b"\r"
    return b if rng.random() < .7 else H.mutbytes(rng, b)


def base(case, rng, level=.25):
    conf = [c for c in sorted(set(C13 + C14)) if rng.random() < level]
    conf += ["DefaultCharset cp866:cp866:utf-8", "PassthroughtBoxesDir %B/fbox", "AreaFixHelp %C/areafix.help"]
    sp = Spool(case, conf=conf)
    os.makedirs(sp.p("fa/files"))
    sp.put("etc/fareas.bbs", "# c\n%s FILES -u 1 2:5030/1 2:5030/2 3:55/1\n#- PT 2:5030/1 2 3\n" % sp.p("fa/files"))
    sp.put("etc/areas", "TEST fido.test -a 2:5030/100\n\"\" fido. -a 2:5030/100\n")
    sp.put("etc/areas.bbs", "; x\n#- TEST -k $ -l 50 2:5030/100 2:5030/1 2:5030/2\n#- OTHER -z 2 2:5030/3 2:5030/1\n")
    sp.put("etc/passwd", "ff 2:5030/1 secret 100 & Sysop\naf 2:5030/1 pass 100 $&~% Sysop\npacket 2:5030/7 XXX\ntic 2:5030/1 secret\nuplink 2:5030/2 x\n")
    sp.put("etc/routing", "NetMail\nremapto 2:5030/100.0 2:5030/100.9000 \"areafix\"\nrewritefrom 2:5030/50.* 2:5030/51.*\nroute normal 2:5030/0 2:5030/200 1:*\nsend hold 2:5030/1.*\n"
           "hostroute crash 2:5031/*\nbossroute normal *\nEchoMail\nchange normal hold 2:5030/3\nsend hold *\nTick\nsend crash 2:5030/1\n")
    sp.put("etc/packing", "EchoMail\npack noarc 2:5030/1\nrpack false *\nNetMail\npack noarc *\nArcName\nprog zip cat\n")
    sp.put("etc/uplinks", "areafix 2:5030/2 areafix x\n")
    for b in ("acl", "acl_netmail", "addrinto", "down", "insecure", "noto", "restricted"):
        sp.put("etc/bounce." + b, "Subject: bounce %s\n\n%%F %%T %%O %%d %%t %%f %%s %%R %%A %%D %%N %%S\n\n%%M\n%%\n" % b)
    sp.put("etc/hosts", "2:5030/1 node1\n2:5030/100 gate\n.a .b\n")
    sp.put("etc/aliases", "john 2:5030/100 \"John Smith\"\n")
    sp.put("etc/acl", "Netmail\n* *\nEchoMail\n* *\nInclude nothing\n")
    sp.put("etc/areafix.help", "help text\n")
    sp.put("lib/.x", "")
    return sp


def finish(case, sp, r, what, variant, show):
    case.seen("runs")
    case.seen("prog_" + what)
    ok = case.san(r)
    if not ok:
        case.viol[-1] = (case.viol[-1][0], case.viol[-1][1] + "\n%s" % show)
        return
    case.check(r.rc >= 0, "killed-by-signal", "%s %d\n%s" % (what, r.rc, show))
    case.sig(what, variant, r.rc, tuple(sorted({l.split("] ")[-1][16:40] for l in sp.log().split("\n")}))[:4])
    case.sample = "%s (%s) rc %d" % (what, variant, r.rc)


def tics(case):
    rng = case.rng
    variant = rng.choice(["asan", "asan", "msan"])
    sp = base(case, rng)
    for k in ("KillTickDupe", "TickWaitHour 1", "TickWaitAction delete", "TickReplacedDir %B/old", "EnableTickPassword", "NoTicHistory",
              "UnknownTickArea FILES", "TickFileAction FILES * cat %%s", "AutoCreateFechoPath %B/auto", "AutoCreateFileechoLine * -l 3 2:5030/1",
              "AutoCreateFileechoDontCheckPassword"):
        if rng.random() < .3:
            sp.conf.append(k)
    for i in range(rng.choice([1, 2, 4])):
        sp.put("bt/pin/t%d.tic" % i, tic(rng), mtime=int(time.time()) - rng.choice([0, 100000]))
    sp.put("bt/pin/new.zip", "abc")
    sp.put("fa/files/files.bbs", rng.choice([b"", b"old.zip desc\r\n", H.val(rng)]))
    r = sp.run("tick/ftntick", *rng.choice([[], [], ["-t"], ["-v"] * 1, ["-a", "2:5030/100"]]), variant=variant)
    finish(case, sp, r, "ftntick", variant, "log %s" % sp.log()[-1500:])


def areafix(case):
    rng = case.rng
    variant = rng.choice(["asan", "asan", "msan"])
    sp = base(case, rng)
    mode = rng.choice(["pkt", "pkt", "mail", "cmd"])
    subj = rng.choice([b"pass", b"pass", b"PASS -Q", b"secret", b"pass -R=10", H.val(rng, 300)])
    flag = ["-F"] if rng.random() < .3 else []
    if mode == "pkt":
        ms = []
        for _ in range(rng.choice([1, 1, 3])):
            b = (b"\x01INTL 2:5030/100 2:5030/1\r" if rng.random() < .9 else b"") + b"\x01MSGID: 2:5030/1 12345678\r" + request(rng)
            if rng.random() < .5:
                b += b"--- t\r * Origin: o (2:5030/1)\r"
            ms.append(Msg(b"Sysop" if rng.random() < .8 else H.val(rng, 36), b"AreaFix", subj[:71], b.replace(b"\0", b" "), N("2:5030/1"), N("2:5030/100")))
        sp.put("bt/pin/0.pkt", Pkt(N("2:5030/1"), N("2:5030/100"), ms).raw())
        prog, args, inp = "areafix/ftnafpkt", [], None
    elif mode == "mail":
        prog, args = "areafix/ftnaf", ["-m"]
        inp = b"From: Sysop <Sysop@f1.n5030.z2.fidonet.org>\nTo: areafix@gate\nSubject: " + subj.replace(b"\n", b"") + b"\n"
        if rng.random() < .5:
            inp += b"X-FTN-From: " + (b"Sysop @ 2:5030/1" if rng.random() < .7 else H.val(rng, 900).replace(b"\n", b"")) + b"\nX-FTN-To: AreaFix\n"
        inp += b"\n" + request(rng).replace(b"\r", b"\n")
    else:
        prog, inp = "areafix/ftnaf", None
        args = ["2:5030/1"] + [x.decode("latin1") for x in request(rng).replace(b"\0", b"").split(b"\r") if x][:6]
        if rng.random() < .1:
            args = [H.val(rng, 300).replace(b"\0", b"").decode("latin1")] + args[1:]
        if any(x.startswith("-") for x in args):
            args = ["--"] + args
    r = sp.run(prog, *(flag + args), input=inp, variant=variant)
    finish(case, sp, r, "%s %s" % (prog, mode), variant, "args %r input %r" % (args, inp))


FILES = ["fidogate.conf"] * 4 + ["routing", "routing", "packing", "areas", "areas.bbs", "fareas.bbs", "passwd", "hosts", "aliases", "acl", "uplinks"]
WORDS = {"routing": ["send", "route", "change", "hostroute", "bossroute", "hubroute", "sendmove", "xroute", "rewrite", "rewriteto", "rewritefrom",
                     "remap", "remapto", "remapfrom", "netmail", "echomail", "tick", "normal", "hold", "crash", "direct", "*", "2:*", "2:5030/*", "\"areafix\"", "2:5030/1.*"],
         "packing": ["pack", "rpack", "fpack", "dirpack", "dirrpack", "move", "echomail", "netmail", "noarc", "prog", "arcname", "*", "%a %f", "zip"],
         "areas": ["-a", "-z", "-l", "-d", "-g", "-h", "-x", "-X", "-R", "-b", "-C", "-8", "-Q", "-n", "-m", "-o", "-r", "-L", "fido.x"],
         "areas.bbs": ["-a", "-z", "-l", "-k", "-d", "-s", "-t", "-e", "-n", "-u", "-p", "-r", "-w", "#-", "2:5030/1", "P2:5030/2", "R2:5030/2"],
         "fareas.bbs": ["-a", "-z", "-l", "-k", "-d", "-s", "-t", "-e", "-n", "-u", "-p", "#-", "2:5030/1", ".1", "5"],
         "passwd": ["af", "ff", "packet", "tic", "uplink", "key", "2:5030/1", "secret"],
         "hosts": [".", "2:5030/1", "-", "host"], "aliases": ["rfc2ftn", "ftn2rfc", "*", "include", "\"A B\"", "a@b.c"],
         "acl": ["netmail", "echomail", "include", "*", "!fido.*", "!*", "PostingNotAllowedNotify"],
         "uplinks": ["areafix", "filefix", "2:5030/1", "\"x y\""]}


def confline(rng, f, sp):
    v = lambda: H.val(rng, 40000).decode("latin1").replace("\n", " ").replace("/tmp", "")
    if f == "fidogate.conf":
        k = rng.choice(KW)
        r = rng.random()
        if k == "Include":
            return "Include " + rng.choice(["%C/nothing", sp.p("etc/fidogate.conf") if rng.random() < .1 else "/dev/null", v()])
        if r < .25:
            return k
        if r < .5:
            return k + " " + rng.choice(NUM)
        if r < .7:
            return k + " " + rng.choice(["2:5030/100", "fidonet.org 2", "2 x", "%C/areas", "%B/x", "%", "%%", "%X", "A B C D E F", "\"a", "\"\"", "C: /x", "a:b:c:d:e", ":", ":::", "* * *"])
        return k + rng.choice([" ", "\t", "  "]) + v()
    w = [rng.choice([rng.choice(WORDS[f]), rng.choice(WORDS[f]), rng.choice(NUM), v()]) for _ in range(rng.choice([1, 2, 4, 9]))]
    return rng.choice(["", "", " ", "\t"]) + rng.choice([" ", " ", "\t", "  "]).join(w)


def config(case):
    rng = case.rng
    variant = rng.choice(["asan", "asan", "msan"])
    sp = base(case, rng, .1)
    sp.write_conf()
    for f in set(rng.choice(FILES) for _ in range(rng.choice([1, 1, 2, 4]))):
        L = sp.get("etc/" + f).decode("latin1").split("\n")
        for _ in range(rng.choice([1, 2, 5, 20])):
            L.insert(rng.randrange(len(L) + 1), confline(rng, f, sp))
        d = "\n".join(L).encode("latin1")
        if rng.random() < .15:
            d = H.mutbytes(rng, d)
        if rng.random() < .03:
            d = rng.choice([b"", b"\n", b"x", b"#", H.val(rng)])
        sp.put("etc/" + f, d)
    good = Pkt(N("2:5030/1"), N("2:5030/100"), [
        Msg(b"Sysop", b"John Smith", b"s", b"AREA:TEST\r\x01MSGID: 2:5030/1 12345678\rtext\r--- \r * Origin: o (2:5030/1)\rSEEN-BY: 5030/1\r\x01PATH: 5030/1\r", N("2:5030/1"), N("2:5030/100")),
        Msg(b"Sysop", b"John Smith", b"s", b"\x01INTL 2:5030/100 2:5030/1\r\x01MSGID: 2:5030/1 12345679\rtext\r", N("2:5030/1"), N("2:5030/100"))]).raw()
    prog = rng.choice(["toss/ftntoss", "toss/ftnroute", "toss/ftnpack", "gate/ftn2rfc", "gate/ftn2rfc", "gate/rfc2ftn", "gate/rfc2ftn", "tick/ftntick", "tick/ftnhatch",
                       "areafix/ftnaf", "areafix/ftnafpkt", "areafix/ftnafutil", "areafix/ftnafmail", "util/confval", "util/ftnflo", "util/ftnfattach", "toss/ftnexpire",
                       "gate/ftnin", "toss/ftn2ftn", "gate/ftnmail", "util/ftngenpkt", "areafix/pkttmpl"])
    args, inp = [], None
    b = os.path.basename(prog)
    if b in ("ftntoss", "ftn2rfc", "ftnafpkt", "ftnin"):
        sp.put("bt/pin/0.pkt", good)
        if b == "ftnin":
            args = ["-n"] if rng.random() < .3 else []
    elif b in ("ftnroute", "ftnpack"):
        for i, (t, f) in enumerate([("n", "n"), ("e", "h"), ("n", "c")]):
            sp.put("spool/toss/%s/0%s%s0000%d.pkt" % ("toss" if b == "ftnroute" else "route", t, f, i), good)
    elif b == "rfc2ftn":
        inp = R.message(rng, rng.random() < .5)
        args = rng.choice([["-n"], ["--", "John_Smith@f1.n5030.z2.fidonet.org"], ["-t"]])
    elif b == "ftntick":
        sp.put("bt/pin/t.tic", tic(rng))
        sp.put("bt/pin/new.zip", "abc")
    elif b == "ftnhatch":
        sp.put("fa/files/x.zip", "abc")
        args = ["FILES", "x.zip", "description"]
    elif b == "ftnaf":
        args = ["2:5030/1", rng.choice(["%list", "%query", "+TEST", "-TEST", "%help", "+NEW.ONE", "%create X.Y"])]
    elif b == "ftnafutil":
        args = rng.choice([["expire"], ["deluplink"], ["create", "X.Y"], ["delete", "TEST"], ["subscribe", "2:5030/1", "TEST"], ["list"], [], ["-F", "expire"]])
    elif b == "ftnafmail":
        inp = b"X-FTN-From: Sysop @ 2:5030/1\nX-FTN-To: AreaFix @ 2:5030/100\nFrom: a@f1.n5030.z2.fidonet.org\nSubject: pass\n\n%list\n"
    elif b == "confval":
        args = [rng.choice(["Origin", "%C", "VARDIR", "%X", "-t", "zone", "address", ""])]
    elif b == "ftnfattach":
        args = ["2:5030/1", sp.p("etc/passwd")]
    elif b == "ftnflo":
        args = [rng.choice(["2:5030/1", "-l", "3:55/1"])]
    elif b == "ftnexpire":
        sp.put("var/history", "<a@b> %d\n" % time.time())
    elif b == "ftn2ftn":
        args = ["-B", "2:5030/100", "-A", "3:55/7"]
        sp.put("bt/pin/0.pkt", good)
    elif b == "ftngenpkt":
        args = ["2:5030/100", "2:5030/1"]
        inp = b"text\n"
    elif b == "ftnmail":
        inp = b"text\n"
        args = ["-a", "2:5030/1", "-s", "x"]
    elif b == "pkttmpl":
        args = ["2:5030/1", sp.p("etc/bounce.acl")]
    r = sp.run(prog, *args, input=inp, variant=variant)
    finish(case, sp, r, b, variant, "args %r" % args + "".join("\n-- %s\n%r" % (f, sp.get("etc/" + f)[-1500:]) for f in sorted(set(FILES)) if os.path.exists(sp.p("etc/" + f)))[:6000])


CHECK = Check("P15", "exploration",
              "program x sanitizer x exit code x kinds of log messages",
              ["memory errors are those AddressSanitizer, UBSan and MemorySanitizer can see in the executed paths"],
              variants=("asan", "msan"))
CHECK.phase("tics", tics, 700, 30000)
CHECK.phase("areafix", areafix, 700, 30000)
CHECK.phase("config", config, 1800, 80000)
