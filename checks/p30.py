"""P30: attached files are queued once for the right system; the listing tools report what is queued"""
import os, re, subprocess
from collections import Counter
from vlib import native
from vlib.harness import Check, chown_tree, popen
from vlib.spool import Spool
from vlib.pkt import N, Msg, Pkt, Node
from vlib.tossmodel import fts_date

FL = {"hold": "hlo", "normal": "flo", "direct": "dlo", "crash": "clo"}
ORDER = ["hlo", "flo", "dlo", "clo"]
SPELL = {"hold": ["Hold", "hold", "H", "h", "hlo"], "normal": ["Normal", "NORMAL", "N", "n", "flo"],
         "direct": ["Direct", "direct", "D", "dlo"], "crash": ["Crash", "crash", "C", "c", "clo"]}


class World:
    def __init__(self, case):
        self.case, self.rng = case, case.rng
        rng = case.rng
        self.aso = rng.random() < .2
        self.dos = rng.random() < .25
        self.deff = rng.choice([None, None, None, "Crash", "hold"])
        self.sp = sp = Spool(case, addrs=["2:5030/100"], conf=(["AmigaStyleOutbound"] if self.aso else []) + (["FAttachFlav %s" % self.deff] if self.deff else []))
        if self.dos:
            sp.conf.append("DosDrive c: %s" % sp.d)
        sp.write_conf()
        self.nodes = [N(x) for x in rng.sample(["2:5030/1", "2:5030/2", "2:5030/1.5", "1:1/1", "3:100/65535", "2:5030/1.65535", "2:65535/4660", "6:0/0", "2:5030/256", "2:1/5030"], rng.choice([2, 4, 6]))]
        # flow file -> bytes (by node)
        self.flo = {n: {} for n in self.nodes}
        self.files = []

    def base(self, n):
        if self.aso:
            return "bt/out/%d.%d.%d.%d." % n
        d = "bt/out" if n.zone == 2 else "bt/out.%03x" % n.zone
        if n.point:
            return "%s/%04x%04x.pnt/0000%04x." % (d, n.net, n.node, n.point)
        return "%s/%04x%04x." % (d, n.net, n.node)

    def current(self, n):
        for e in ORDER:
            if e in self.flo[n]:
                return e
        return None

    def stored(self, path):
        """how a path is written in the flow file; None: it can't be"""
        if not self.dos:
            return path
        if not path.startswith(self.sp.d):
            return None
        return "c:" + path[len(self.sp.d):].replace("/", "\\")

    def unix(self, name):
        if self.dos and name[:2].lower() == "c:":
            return self.sp.d + name[2:].replace("\\", "/")
        return name

    def verify(self, what):
        """the outbound is exactly what the model says"""
        case, sp = self.case, self.sp
        want = {self.base(n) + e: b for n in self.nodes for e, b in self.flo[n].items()}
        got = {}
        for d, _, fs in os.walk(sp.p("bt")):
            for f in fs:
                p = os.path.join(d, f)
                r = os.path.relpath(p, sp.d)
                if r.startswith(("bt/in/", "bt/pin/", "bt/files")):
                    continue
                got[r] = open(p, "rb").read()
        case.evals += 1
        for r in sorted(set(want) | set(got)):
            if r not in got:
                case.fail("flow-missing", "%s: %s is missing (should hold %r)" % (what, r, want[r][-200:]))
            elif r not in want:
                case.fail("flow-unexpected", "%s: %s appeared: %r" % (what, r, got[r][-200:]))
            else:
                case.check(got[r] == want[r], "flow-content", "%s: %s holds %r instead of %r" % (what, r, got[r][-300:], want[r][-300:]))
        # go on from what is there
        for n in self.nodes:
            self.flo[n] = {e: got[self.base(n) + e] for e in ORDER if self.base(n) + e in got}

    def entries(self, n):
        """(mode, name as stored) of what is still to be sent"""
        e = self.current(n)
        out = []
        if e:
            for l in self.flo[n][e].split(b"\n"):
                l = l.rstrip(b"\r").decode("latin1")
                if l and l[0] != "~":
                    m = l[0] if l[0] in "^#" else " "
                    out.append((m, l[1:] if m != " " else l))
        return out

    def new_name(self):
        rng = self.rng
        r = rng.random()
        if r < .35 and self.files:
            p = rng.choice(self.files)
            if rng.random() < .15 and p.startswith(self.sp.d):
                # another file, the name differs in its case only
                d, b = os.path.split(p)
                p = os.path.join(d, b.swapcase() if b.isascii() else b)
                if p not in self.files and "FAIL" not in p:
                    self.sp.put(os.path.relpath(p, self.sp.d), b"other case")
                    chown_tree(self.sp.p("bt/files"))
                    self.files.append(p)
                    self.case.seen("names_differing_in_case")
            return p
        k = len(self.files)
        b = rng.choice(["f%d.zip", "F%d.ZIP", "f %d x.lha", "-f%d", "~f%d", "#f%d", "^f%d", "ü%d", "f%d" + "x" * 200, "f%d.su0", "%%s%d", "f%d%%d", "a;b%d", "f%d.fail", "f%d.fail"]) % k
        p = self.sp.p("bt/files", b)
        if r < .42:
            p = "/nonexistent/" + b
        elif r < .46 and not self.dos:
            p = self.sp.p("bt/files", "y" * 240, "z" * 240, b)
        if p.startswith(self.sp.d) and rng.random() < .9:
            self.sp.put(os.path.relpath(p, self.sp.d), b"content of %d " % k * rng.choice([0, 1, 100]))
            chown_tree(self.sp.p("bt/files"))
        self.files.append(p)
        return p

    # ---- operations ----
    def attach(self):
        case, rng, sp = self.case, self.rng, self.sp
        n = rng.choice(self.nodes)
        fl = rng.choice(list(FL))
        args = []
        ok = True
        r = rng.random()
        if r < .7:
            args += ["-F", rng.choice(SPELL[fl])]
        elif r < .78:
            args += [rng.choice(["-F", "--flavor"]), "Weird"]
            fl = None
        else:
            fl = (self.deff or "normal").lower()
        names = [(rng.choice(["", "", "^", "#"]), self.new_name()) for _ in range(rng.choice([1, 1, 1, 2, 4]))]
        pre = {m: dict(v) for m, v in self.flo.items()}
        for m, p in names:
            s = self.stored(p)
            e = self.current(n) or (FL[fl] if fl else None)
            if s is None or e is None:
                ok = False
                break
            cur = self.flo[n].get(e)
            if cur is None:
                cur = b""
            lines = [l.rstrip(b"\r") for l in cur.split(b"\n")]
            sb = s.encode()
            known = any(l and l[:1] != b"~" and (l[1:] if l[:1] in b"^#" else l) == sb for l in lines)
            if not known:
                if cur and not cur.endswith(b"\n"):
                    cur += b"\n"
                    case.seen("unfinished_last_lines")
                cur += m.encode() + sb + (b"\r\n" if self.dos else b"\n")
                case.seen("attached")
            else:
                case.seen("already_attached")
            self.flo[n][e] = cur
        before = {p: (open(p, "rb").read() if os.path.exists(p) else None) for _, p in names}
        R = sp.run("util/ftnfattach", *args, n.s(), *[m + p for m, p in names])
        case.san(R)
        what = "ftnfattach %s %s %s" % (args, n.s(), [m + p.replace(sp.d, "") for m, p in names])
        case.check((R.rc == 0) == ok, "attach-exit", "%s: exit %s: %s" % (what, R.rc, R.err[-200:]))
        for p, b in before.items():
            case.check((open(p, "rb").read() if os.path.exists(p) else None) == b, "file-changed", "%s: %s changed" % (what, p))
        case.sig("attach|%s|%s|%s|%s|%s" % (fl, self.aso, self.dos, bool(pre[n]), ok))
        self.verify(what)

    def edit(self):
        """what mailers and people leave behind"""
        rng = self.rng
        n = rng.choice(self.nodes)
        e = self.current(n)
        r = rng.random()
        nl = b"\r\n" if rng.random() < .3 else b"\n"
        if e is None or r < .25:
            e2 = rng.choice(ORDER)
            if e2 in self.flo[n]:
                return
            L = [m.encode() + (self.stored(p) or p).encode() for m, p in [(rng.choice(["", "~", "^", "#", "~"]), self.new_name()) for _ in range(rng.choice([0, 1, 3]))]]
            self.flo[n][e2] = b"".join(l + nl for l in L)
        elif r < .5:
            b = self.flo[n][e]
            self.flo[n][e] = b[:-1] if b.endswith(b"\n") and not b.endswith(b"\r\n") else b
        elif r < .75:
            L = self.flo[n][e].split(b"\n")
            i = rng.randrange(len(L))
            if L[i] and L[i][:1] in b"^#/c":
                L[i] = b"~" + L[i][1:]
            self.flo[n][e] = b"\n".join(L)
        else:
            del self.flo[n][e]
        for e in ORDER:
            p = self.sp.p(self.base(n) + e)
            if e in self.flo[n]:
                self.sp.put(self.base(n) + e, self.flo[n][e])
            elif os.path.exists(p):
                os.unlink(p)
        chown_tree(self.sp.p("bt"))

    def list(self):
        case, rng, sp = self.case, self.rng, self.sp
        ns = rng.sample(self.nodes, rng.randrange(1, len(self.nodes) + 1))
        want = []
        for n in ns:
            for m, s in self.entries(n):
                p = self.unix(s)
                want.append("%10d    %s %s" % (os.stat(p.encode("latin1")).st_size if os.path.exists(p.encode("latin1")) else -1, m, p))
        a = rng.choice([["-l"], [], ["--list"]])
        R = sp.run("util/ftnflo", *a, *[n.s() for n in ns])
        case.san(R)
        what = "ftnflo %s %s" % (a, [n.s() for n in ns])
        got = R.out.decode("latin1").split("\n")[:-1] if isinstance(R.out, bytes) else R.out.split("\n")[:-1]
        case.check(R.rc == 0, "list-exit", "%s: exit %s %s" % (what, R.rc, R.err[-200:]))
        case.check(got == want, "listing", "%s listed %s instead of %s" % (what, [x for x in got if x not in want][:5] or len(got), [x for x in want if x not in got][:5] or len(want)))
        case.seen("listed_entries", len(want))
        case.sig("list|%s|%s|%d" % (self.aso, self.dos, min(9, len(want))))
        self.verify(what)

    def execute(self):
        """ftnflo -x: a command for each entry, then the file goes as the entry says"""
        case, rng, sp = self.case, self.rng, self.sp
        n = rng.choice(self.nodes)
        rec = sp.put("rec.sh", "#!/bin/sh\nprintf '%%s\\n' \"$1\" >> %s/rec.log\ncase \"$1\" in *fail*) exit 3;; esac\nexit 0\n" % sp.d)
        os.chmod(rec, 0o755)
        if os.path.exists(sp.p("rec.log")):
            os.unlink(sp.p("rec.log"))
        E = self.entries(n)
        dry = rng.random() < .25
        e = self.current(n)
        ran, files = [], {}
        for m, s in E:
            p = self.unix(s)
            pb = p.encode("latin1")
            files[p] = open(pb, "rb").read() if os.path.exists(pb) else None
        failed = False
        if not dry and e:
            L = self.flo[n][e].split(b"\n")
            for i, l in enumerate(L):
                l0 = l.rstrip(b"\r").decode("latin1")
                if not l0 or l0[0] == "~":
                    continue
                m = l0[0] if l0[0] in "^#" else " "
                p = self.unix(l0[1:] if m != " " else l0)
                ran.append(p)
                if "fail" in p:
                    failed = True
                    break
                if m == "^":
                    files[p] = None
                elif m == "#" and files[p] is not None:
                    files[p] = b""
                L[i] = b"~" + l[1:]
            if failed:
                self.flo[n][e] = b"\n".join(L)
            else:
                del self.flo[n][e]
        a = ["-x", "%s '%%s'" % rec] + (["-n"] if dry else [])
        R = sp.run("util/ftnflo", *a, n.s())
        case.san(R)
        what = "ftnflo %s %s" % (" ".join(a).replace(sp.d, ""), n.s())
        case.check((R.rc != 0) == failed, "exec-exit", "%s: exit %s %s" % (what, R.rc, R.err[-200:]))
        got = sp.get("rec.log").decode("latin1").split("\n")[:-1] if os.path.exists(sp.p("rec.log")) else []
        case.check(got == ran, "exec-commands", "%s ran for %s instead of %s" % (what, got, ran))
        for p, b in files.items():
            pb = p.encode("latin1")
            g = open(pb, "rb").read() if os.path.exists(pb) else None
            case.check(g == b, "exec-file", "%s: %s is %r instead of %r" % (what, p, g and g[:40], b and b[:40]))
        case.seen("executed_entries", len(ran))
        if dry:
            case.seen("dry_runs")
        case.sig("exec|%s|%s|%s|%s|%d" % (self.aso, self.dos, dry, failed, min(9, len(ran))))
        self.verify(what)


def queue(case):
    w = World(case)
    n = 0
    for _ in range(case.rng.choice([5, 10, 20])):
        r = case.rng.random()
        n += 1
        if r < .5:
            w.attach()
        elif r < .65:
            w.edit()
        elif r < .85:
            w.list()
        else:
            w.execute()
    case.sample = "%d operations on %d systems%s%s" % (n, len(w.nodes), ", Amiga style" if w.aso else "", ", DOS names" if w.dos else "")


def race(case):
    """files attached and flow files executed at the same time: every file goes exactly once"""
    rng = case.rng
    w = World(case)
    sp = w.sp
    nodes = w.nodes[:rng.choice([1, 1, 2])]
    rec = sp.put("rec.sh", "#!/bin/sh\nprintf '%%s\\n' \"$1\" >>%s/rec.log\n" % sp.d)
    os.chmod(rec, 0o755)
    env = dict(sp.env(), LD_PRELOAD=case.ctx["shim"], SHIM_DELAY=str(rng.choice([0, 200, 3000])),
               SHIM_PROB="50", SHIM_SLEEP="300")
    jobs, names = [], {}
    for i in range(rng.choice([6, 12, 20])):
        n = rng.choice(nodes)
        ps = []
        for j in range(rng.choice([1, 1, 3])):
            p = sp.put("bt/files/a%d.%d" % (i, j), "x%d.%d" % (i, j))
            names[p] = n
            ps.append(rng.choice("^# ").strip() + p)
        jobs.append(["util/ftnfattach", "-F", rng.choice(["Normal", "Normal", "Crash"]), n.s()] + ps)
    chown_tree(sp.d)
    ex = [["util/ftnflo", "-x", rec + " '%s'"] + [n.s() for n in nodes] for _ in range(rng.choice([3, 6, 10]))]
    jobs += ex
    rng.shuffle(jobs)
    running, width = [], rng.choice([2, 4, 8])

    def reap(k):
        while len(running) > k:
            j, p = running.pop(0)
            try:
                out, err = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                case.fail("race-hang", "%s doesn't end" % j)
                continue
            case.check(p.returncode == 0, "race-exit", lambda: "%s: exit %s %s" % (j[:3], p.returncode, err[-300:]))
    for i, j in enumerate(jobs):
        reap(width - 1)
        running.append((j, popen([os.path.join(case.ctx["src"]["plain"], j[0])] + j[1:], sp.d,
                                 dict(env, SHIM_SEED=str(case.index * 1000 + i)))))
    reap(0)
    for _ in range(4):
        R = sp.run(*ex[0])
        case.san(R)
    got = Counter(sp.get("rec.log").decode("latin1").split("\n")[:-1])
    case.check(set(got) == set(names), "race-lost", lambda: "%d attachers and %d executors: never sent %s, unknown %s" % (
        len(jobs) - len(ex), len(ex), sorted(set(names) - set(got))[:5], sorted(set(got) - set(names))[:5]))
    case.check(all(v == 1 for v in got.values()), "race-twice", lambda: "sent more than once: %s" % [
        k for k, v in got.items() if v > 1][:5])
    left = [f for f in sp.tree("bt") if f.endswith(".bsy") or f[-3:] in ORDER]
    case.check(not left, "race-left", lambda: "left in the outbound: %s" % left)
    case.seen("raced_files", len(names))
    case.sig("race", len(nodes), len(ex), width, len(names) // 8, w.aso)
    case.sample = "%d processes, %d files" % (len(jobs), len(names))


def listing(case):
    """pktdebug reports exactly the messages of packets"""
    rng = case.rng
    sp = Spool(case)
    sp.write_conf()
    files, want, short = [], [], []
    for k in range(rng.choice([1, 1, 2, 3])):
        o, d = N("2:5030/%d" % rng.choice([1, 7, 65000])), N("2:5030/100")
        ms = []
        nm = ne = 0
        exp = []
        for i in range(rng.choice([0, 1, 2, 5, 20])):
            frm, to, subj = (bytes(rng.choice(b"abcXYZ 019.,-_()") for _ in range(rng.randrange(1, m))).strip() or b"x" for m in (35, 35, 71))
            at = rng.choice([0, 1, 0x8001, 0xffff, 2])
            t = rng.randrange(315532800, 2 ** 31)
            body = b"text %d\r" % i + b"line\r" * rng.choice([0, 3, 200])
            pt = rng.choice([0, 0, 3])
            if rng.random() < .5:
                body = b"AREA:X.%d\r" % i + body + b"--- \r * Origin: x (2:5030/1)\rSEEN-BY: 5030/1\r\1PATH: 5030/1\r"
                ne += 1
                fa, ta = "%d/%d" % (o.net, o.node), "%d/%d" % (d.net, d.node)
            else:
                if pt:
                    body = b"\1FMPT %d\r\1TOPT 9\r" % pt + body
                body = b"\1INTL %s %s\r" % (d.s().encode(), o.s().encode()) + body
                nm += 1
                fa, ta = ["%d/%d" % (x.net, x.node) for x in (o, d)]
            ms.append(Msg(frm, to, subj, body, o, d, at, rng.choice([0, 7, 65535]), fts_date(t)))
            exp.append(("%-36s @ %s" % (frm.decode(), fa), "%-36s @ %s" % (to.decode(), ta), subj.decode(), "%04x" % at))
        p = sp.put("in/%08x.pkt" % k, Pkt(o, d, ms).raw())
        files.append(p)
        want += exp
        short.append("%s: %s -> %s, %d mail, %d echo" % (p, o.p4(), d.p4(), nm, ne))
    R = sp.run("util/pktdebug", "-m", *files)
    case.san(R)
    out = R.out.decode("latin1") if isinstance(R.out, bytes) else R.out
    got = [(m[1], m[2], m[3], m[5]) for m in re.finditer(r"FTN message header:\n    From: (.*)\n    To  : (.*)\n    Subj: (.*)\n    Date: (.*)\n    Attr: (.*)\n", out)]
    case.check(R.rc == 0, "debug-exit", "pktdebug exited with %s" % R.rc)
    case.check(got == want, "debug-listing", "pktdebug listed %s instead of %s" % ([x for x in got if x not in want][:3] or len(got), [x for x in want if x not in got][:3] or len(want)))
    case.check("ERROR" not in out and "WARNING" not in out, "debug-error", "pktdebug: %s" % re.findall("(?:ERROR|WARNING).*", out)[:3])
    case.check(len(re.findall("FTN packet header:", out)) == len(files), "debug-packets", "%d packet headers for %d packets" % (len(re.findall("FTN packet header:", out)), len(files)))
    R = sp.run("util/pktdebug", "-s", *files)
    case.san(R)
    out = R.out.decode("latin1") if isinstance(R.out, bytes) else R.out
    case.check(out.split("\n")[:-1] == short, "debug-short", "pktdebug -s: %r instead of %r" % (out, short))
    case.evals += 2
    case.seen("listed_messages", len(want))
    case.sig("pktdebug|%d|%d" % (len(files), min(30, len(want))))
    case.sample = "%d packets, %d messages" % (len(files), len(want))


CHECK = Check("P30", "exploration",
              "flow files and attached files after every attach, execution and edit equal a model's; ftnflo lists and executes exactly the unsent entries, pktdebug lists exactly the messages",
              ["an existing flow file of any flavour is used (design)", "names starting with ~^# only with a directory, no line ends in names"],
              variants=("asan", "plain"), prepare=lambda srcs: {"shim": native.shim(srcs["plain"])})
CHECK.phase("queue", queue, 150, 6000, 8)
CHECK.phase("race", race, 16, 600, 8)
CHECK.phase("pktdebug", listing, 100, 3000, 8)
