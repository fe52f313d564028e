"""P07 Packing."""
import os, re
from vlib.harness import Check
from vlib import flows as F
from vlib import packrun as P


def one(case):
    rng = case.rng
    s = P.Scen(case, rng)
    for rnd in range(rng.choice([1, 1, 2, 3])):
        s.packets(rng, rng.choice([1, 2, 4, 8, 14]))
        if rng.random() < 0.12:
            # an archiver that fails: nothing may be lost, the next run packs it
            failing(case, s)
        P.run_and_check(case, s)
        if case.viol:
            break


def failing(case, s):
    """archiver fails for everything: every message must still be spooled"""
    sp = s.sp
    if not sp.done:
        sp.write_conf()
    sp.put("bin/arc.sh", P.ARC % dict(d=sp.d, fail=""))
    keep = {}
    arc = {nm for nm in s.want if s.plan(nm)[0] in ("arc", "dirarc")}
    others = {nm: v for nm, v in s.want.items() if nm not in arc}
    # only the packets to be archived take part in this run
    import os
    if s.fa:
        # attachments would be queued twice by design of the retry
        sp.put("bin/arc.sh", P.ARC % dict(d=sp.d, fail="NEVERMATCH"))
        return
    for nm in others:
        os.rename(sp.p("spool/toss/route", nm), sp.p("spool/" + nm))
    r = sp.run("toss/ftnpack")
    case.san(r)
    left = {os.path.basename(x) for x in sp.ls("spool/toss/route", "*.pkt")}
    case.check(left == arc, "failed-archiver-loses", lambda: "archiver failed; spooled %s, left %s" % (
        sorted(arc), sorted(left)))
    case.seen("archiver_failures", len(arc))
    for nm in others:
        os.rename(sp.p("spool/" + nm), sp.p("spool/toss/route", nm))
    for nm in left:
        t = s.now - 5000 + int(nm[3:8], 16)
        os.utime(sp.p("spool/toss/route", nm), (t, t))
    sp.put("bin/arc.sh", P.ARC % dict(d=sp.d, fail="NEVERMATCH"))


def damaged(case):
    """mail waits for a node whose packet in the outbound was cut (disk full, crash of
    an other program): nothing is appended behind the damage, nothing is lost"""
    r = case.rng
    fl = F.Pack(case, r)
    sp = fl.sp
    fl.fill(r.choice([2, 4, 8]))
    a = fl.cmd()
    case.san(sp.run(a[0], *a[1]))
    cut = {}
    for p in sp.ls("bt/out", "*.?ut"):
        d = open(p, "rb").read()
        how = r.choice(["end", "end", "half", "byte", "header", "tail"])
        d = {"end": d[:-2], "half": d[:len(d) // 2], "byte": d[:-1], "header": d[:r.randrange(2, 58)],
             "tail": d + b"\x02\x00"}[how]
        if d[-2:] == b"\0\0":
            d = d[:-2] + b"\2\0"
        sp.put(os.path.relpath(p, sp.d), d)
        cut[os.path.relpath(p, sp.d)] = (how, d)
    old = set(fl.need)
    fl.fill(r.choice([2, 4, 8]))
    R = sp.run(a[0], *a[1])
    case.san(R)
    w = fl.where()
    fresh = [x for x in fl.lost(w) if (x[0] if isinstance(x, tuple) else x) not in old]
    case.check(not fresh, "lost-behind-damage", lambda: "%s: lost %s rc=%d in %s\n%s" % (
        {k: v[0] for k, v in cut.items()}, fresh[:3], R.rc, sp.ls("spool/toss/route"), sp.log()[-600:]))
    case.seen("damaged_packets", len(cut))
    case.sig("damaged", tuple(sorted(v[0] for v in cut.values())))


CHECK = Check("P07", "exploration",
              "runs of the instrumented packer on generated spools, packing files and outbounds, with a recording "
              "archiver, compared with an independent model; distinct by kind of packing, type, flavour, "
              "addressing, outbound style and earlier outbound content",
              ["an existing packet or flow file of any flavour is reused, as documented",
               "names of archives only have to be in the configured range and within the size limit"])
CHECK.phase("random", one, 900, 30000)
CHECK.phase("damaged", damaged, 60, 2000)
