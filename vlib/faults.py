"""Kills and failing system calls at exact points of a run (strace injection
on our own children) and more message flows than vlib.flows has."""
import os, re, resource, signal, time
from collections import Counter
from .harness import run_cmd, chown_tree
from .pkt import N, Msg, Pkt, parse
from . import flows as F
from .flows import US, LINKS, ids

MUT = "open openat creat write writev pwrite64 rename renameat renameat2 unlink unlinkat link linkat mkdir " \
      "truncate ftruncate close chmod fchmod utimensat utime utimes fsync lseek fcntl".split()
CALLS = ",".join(MUT)


def cmdline(fl, prog, variant="plain"):
    return os.path.join(fl.case.ctx["src"][variant], prog)


def traced_run(fl, cmd, inject=None, env=None, timeout=120):
    """(R, [(syscall, path or '', ordinal)]) of the program itself"""
    prog, args, inp = cmd
    sp = fl.sp
    if not sp.done:
        sp.write_conf()
    out = sp.p("trace")
    if os.path.exists(out):
        os.unlink(out)
    e = dict(sp.env())
    e.update(env or {})
    a = ["strace", "-qq", "-s", "200", "-e", "trace=" + CALLS, "-e", "signal=none", "-o", out]
    if inject:
        a += ["-e", "inject=" + inject]
    r = run_cmd(a + [cmdline(fl, prog)] + list(args), sp.d, e, inp, timeout)
    calls, n, fds = [], Counter(), {}
    try:
        with open(out, errors="replace") as f:
            for l in f:
                m = re.match(r"(\w+)\((.*)", l)
                if not m:
                    continue
                c, a = m[1], m[2]
                n[c] += 1
                p = re.search(r'"([^"]*)"', a)
                q = ""
                if c in ("open", "openat", "creat"):
                    q = p[1] if p else ""
                    k = re.search(r"= (\d+)$", l)
                    if k:
                        fds[k[1]] = q
                    if re.search(r"O_(WRONLY|RDWR|CREAT)", a) is None:
                        q = "r:" + q
                elif c in ("write", "writev", "pwrite64", "close", "ftruncate", "fsync", "lseek", "fcntl", "fchmod"):
                    q = fds.get(re.match(r"(\d+)", a)[1] if re.match(r"(\d+)", a) else "", "")
                elif p:
                    q = p[1]
                calls.append((c, q, n[c]))
    except FileNotFoundError:
        pass
    return r, calls


def points(fl, calls):
    """The calls that touch files of the spool (not the loader's)"""
    d = fl.sp.d
    out = []
    for c, q, k in calls:
        p = q[2:] if q.startswith("r:") else q
        if not p or p.startswith(("/usr", "/lib", "/etc", "/proc")):
            continue
        out.append((c, q, k))
    return out


CLASS = [(r"/log/", "log"), (r"history", "history"), (r"/seq/", "seq"), (r"/lock/|\.bsy", "lock"), (r"areas", "areas"),
         (r"\.[a-z]lo$", "flo"), (r"\.tmp$", "tmp"), (r"\.pkt$", "pkt"), (r"\.[a-z]ut(\.tmp)?$", "out"), (r"\.rfc$", "rfc"),
         (r"trace$", "trace"), (r"/etc/|/proc", "etc")]


def base(fl):
    """where the paths of a dry run begin"""
    return os.path.join(os.path.dirname(os.path.dirname(fl.sp.d)), "dry", os.path.basename(fl.sp.d))


def chown(fl):
    chown_tree(fl.sp.d)


def klass(q):
    r = "r:" if q.startswith("r:") else ""
    for p, n in CLASS:
        if re.search(p, q):
            return r + n
    return r + "other"


# ----------------------------------------------------------------- flows
class Toss(F.Toss):
    """tosser with options that end transactions early"""
    def conf(self):
        c = F.Toss.conf(self)
        r = self.rng
        self.maxmsg = r.random() < .3
        if self.maxmsg:
            c.append("MaxMsg %d" % r.choice([1, 2, 3]))
        if r.random() < .2:
            c.append("SupportPing")
        return c

    def cmd(self, lock=True):
        p, a, i = F.Toss.cmd(self, lock)
        return p, a + getattr(self, "xopt", []), i


class Route(F.Route):
    def setup(self, sp):
        if self.rng.random() < .5:
            return F.Route.setup(self, sp)
        sp.put("etc/routing", "netmail\nroute normal 2:5030/1\nroute hold 2:5030/2 2:5030/3\n"
               "echomail\nsendmove normal 2:5030/1\nsendmove crash 2:5030/2\nroute crash 2:5030/3\n")


class Repack(F.Route):
    """ftnroute -p takes the outbound packets back and packs them again"""
    indir = "bt/out"

    def setup(self, sp):
        F.Route.setup(self, sp)
        for z in ("", ".001", ".003", ".004", ".005", ".006"):
            os.makedirs(sp.p("bt/out" + z), exist_ok=True)
        # ftnroute runs the packer itself when it is done
        sp.put("lib/ftnpack", "#!/bin/sh\nexit 0\n")
        os.chmod(sp.p("lib/ftnpack"), 0o755)
        sp.put("etc/packing", 'arc noarc ""\nnetmail\npack noarc 2:5030/*\nechomail\npack noarc 2:5030/*\n')

    def fill(self, n):
        r = self.rng
        nodes = list(LINKS)
        for to in nodes[:max(1, min(n, 3))]:
            ms = []
            for _ in range(r.choice([1, 2, 5])):
                i, m = self.netmail(to)
                self.need[i] = {to.s() if to.node != 3 else "2:5030/2"}
                ms.append(m)
            fl = r.choice("coh")
            self.put("bt/out/%04x%04x.%sut" % (5030, to.node, fl), US, to, ms)

    def cmd(self, lock=True):
        return self.prog, ["-p", "1"] + (["-l"] if lock else []), None

    def inputs(self):
        q = set()
        for d, pat in (("bt/out", "*.?ut"), ("spool/toss/route", "*.pkt")):
            for p in self.sp.ls(d, pat):
                q |= set(ids(open(p, "rb").read()))
        return q

    def taken(self):
        q = set()
        for p in self.sp.ls("spool/toss/route", "*.pkt"):
            q |= set(ids(open(p, "rb").read()))
        return q

    def quar(self):
        q = set()
        for p in self.sp.ls("bt/out", "*.bad") + self.sp.ls("spool/toss/route", "*.bad"):
            q |= set(ids(open(p, "rb").read()))
        return q

    def outputs(self, done, bad):
        self.pktout("spool/toss/route", bad, done)
        self.pktout("bt/out", bad, done, "*.?ut")


class Pack(F.Pack):
    """with an outbound that already has mail, and other output directories"""
    def setup(self, sp):
        F.Pack.setup(self, sp)
        r = self.rng
        for d in ("bt/out", "bt/out/13a60001.pnt"):
            os.makedirs(sp.p(d), exist_ok=True)
        if r.random() < .5:
            ms = []
            for _ in range(r.choice([1, 3, 40])):
                i, m = self.netmail(LINKS[0])
                self.need[i] = {LINKS[0].s()}
                ms.append(m)
            self.put("bt/out/%04x%04x.out" % (5030, 1), US, LINKS[0], ms)
        self.outdir = r.random() < .5
        if self.outdir:
            os.makedirs(sp.p("work"), exist_ok=True)

    def cmd(self, lock=True):
        p, a, i = F.Pack.cmd(self, lock)
        return p, a + (["-O", self.sp.p("work")] if self.outdir else []), i

    def outputs(self, done, bad):
        F.Pack.outputs(self, done, bad)


class Gate(F.Gate):
    def cmd(self, lock=True):
        p, a, i = F.Gate.cmd(self, lock)
        return p, a + getattr(self, "xopt", []), i


class Batch(F.OutGate):
    """rfc2ftn -b: several articles, the batch stays with the caller unless
    the exit status is 0"""
    def setup(self, sp):
        F.OutGate.setup(self, sp)
        self.batches = []

    def fill(self, n):
        r = self.rng
        out, need = b"", []
        for _ in range(max(2, n)):
            i = self.newid()
            h = b"From: John Doe <john@gate.example.org>\nDate: Sat, 20 Jan 2024 12:00:00 +0000\nSubject: t\n" \
                b"Newsgroups: %s\nMessage-ID: <%s@gate.example.org>\n\nID:%s;\n%s" % (
                    r.choice([b"fido.alpha", b"fido.beta"]), i.encode(), i.encode(), self.pad().replace(b"\r", b"\n"))
            out += b"#! rnews %d\n" % len(h) + h
            need.append(i)
            self.need[i] = {"2:5030/0"}
        self.batches.append((need, out))

    def cmd(self, lock=True):
        return self.prog, ["-b", "-n"] + self.xargs(), self.batches[0][1]

    def xargs(self):
        if not hasattr(self, "xa"):
            self.xa = self.rng.choice([[], ["-m", "1"], ["-m", "2"]])
        return self.xa


class ListGate(F.OutGate):
    """rfc2ftn -f: list of article files, removed when all are done"""
    indir = "spool/news"

    def setup(self, sp):
        F.OutGate.setup(self, sp)
        self.arts = []

    def fill(self, n):
        r = self.rng
        n = r.choice([2, 20, 60, 120])
        for _ in range(n):
            i = self.newid()
            h = b"From: John Doe <john@gate.example.org>\nDate: Sat, 20 Jan 2024 12:00:00 +0000\nSubject: t\n" \
                b"Newsgroups: %s\nMessage-ID: <%s@gate.example.org>\n\nID:%s;\n" % (
                    r.choice([b"fido.alpha", b"fido.beta"]), i.encode(), i.encode())
            self.sp.put("spool/news/%s" % i, h)
            self.arts.append(i)
            self.need[i] = {"2:5030/0"}
        self.sp.put("spool/list", "".join("%s\n" % self.sp.p("spool/news/" + i) for i in self.arts))

    def cmd(self, lock=True):
        if not hasattr(self, "xa"):
            self.xa = self.rng.choice([[], ["-m", "3"], ["-m", "70"]])
        return self.prog, ["-f", self.sp.p("spool/list"), "-n"] + self.xa, None

    def inputs(self):
        # what a further run still takes: after the stored position
        try:
            l = self.sp.get("spool/list")
        except FileNotFoundError:
            return set()
        pos = 0
        try:
            pos = max(0, int((self.sp.get("spool/list.pos").split() or [b"0"])[0]))
        except (FileNotFoundError, ValueError):
            pass
        return {x.rsplit(b"/", 1)[-1].decode() for x in l[pos:].split()}

    def finished(self):
        return not os.path.exists(self.sp.p("spool/list"))


ALL = {"toss": Toss, "route": Route, "pack": Pack, "gate": Gate, "repack": Repack, "list": ListGate}
