"""A complete private FIDOGATE installation (config + spool) in one directory."""
import os, glob, shutil
from .pkt import N, Node, parse, PktError
from .harness import chown_tree

DIRS = ["etc", "log", "var", "var/seq", "lock", "spool", "spool/outrfc/mail",
        "spool/outrfc/news", "spool/outpkt", "spool/outpkt/mail", "spool/outpkt/news",
        "spool/toss/toss", "spool/toss/route", "spool/toss/pack", "spool/toss/bad",
        "bt", "bt/tick", "bt/in", "bt/pin", "bt/netmail", "bt/fbox", "in", "lib"]


class Spool:
    def __init__(self, case, name="s", addrs=("2:5030/100",), uplink="2:5030/0",
                 conf=(), zones=(1, 2, 3, 4, 5, 6), defzone=2):
        self.case = case
        self.d = os.path.join(case.dir, name)
        for x in DIRS:
            os.makedirs(os.path.join(self.d, x), exist_ok=True)
        self.addrs = list(addrs)
        d = self.d
        L = ["CONFIGDIR %s/etc" % d, "BINDIR %s/bin" % d, "LIBEXECDIR %s/lib" % d,
             "LOGDIR %s/log" % d, "VARDIR %s/var" % d, "LOCKDIR %s/lock" % d,
             "SPOOLDIR %s/spool" % d, "BTBASEDIR %s/bt" % d, "NETMAILDIR %s/bt/netmail" % d,
             "INBOUND %B/in", "PINBOUND %B/pin", "ACL %C/acl", "ALIASES %C/aliases",
             "AREAS %C/areas", "HOSTS %C/hosts", "PASSWD %C/passwd", "PACKING %C/packing",
             "ROUTING %C/routing", "SPYES %C/spyes", "UPLINKS %C/uplinks",
             "FTNACL %C/ftnacl", "HISTORY %V/history", "TIC_HISTORY %V/tic_hist",
             "LOGFILE %G/log", "SEQ_MAIL %V/seq/mail", "SEQ_NEWS %V/seq/news",
             "SEQ_MSGID %V/seq/msgid", "SEQ_PKT %V/seq/pkt", "SEQ_SPLIT %V/seq/split",
             "SEQ_FF %V/seq/ff", "SEQ_TOSS %V/seq/toss", "SEQ_PACK %V/seq/pack",
             "SEQ_TICK %V/seq/tick", "OUTRFC_MAIL %S/outrfc/mail",
             "OUTRFC_NEWS %S/outrfc/news", "OUTPKT %S/outpkt", "OUTPKT_MAIL %S/outpkt/mail",
             "OUTPKT_NEWS %S/outpkt/news", "TOSS_TOSS %S/toss/toss",
             "TOSS_ROUTE %S/toss/route", "TOSS_PACK %S/toss/pack", "TOSS_BAD %S/toss/bad",
             "TICK_HOLD %B/tick", "AreasBBS %s/etc/areas.bbs" % d,
             "FAreasBBS %s/etc/fareas.bbs" % d, "SENDMAIL /bin/true", "INEWS /bin/true",
             "CHARSETMAP %L/charset.bin",
             "CONFIG_GATE %C/fidogate.conf"]
        self.base = L
        self.ident = ["Hostname gate", "Domain example.org"]
        for a in self.addrs:
            self.ident.append("Address %s" % a)
        if uplink:
            self.ident.append("Uplink %s" % uplink)
        self.ident.append("Zone default .fidonet.org fidonet out")
        for z in zones:
            self.ident.append("Zone %d .fidonet.org fidonet %s" %
                              (z, "out" if z == defzone else "out.%03x" % z))
        self.conf = list(conf)
        for f in ("acl", "aliases", "areas", "hosts", "ftnacl", "passwd", "packing",
                  "routing", "spyes", "uplinks", "areas.bbs", "fareas.bbs"):
            self.put("etc/" + f, "")
        self.done = False

    def p(self, *a):
        return os.path.join(self.d, *a)

    def put(self, rel, data, mtime=None):
        if isinstance(data, str):
            data = data.encode("latin1")
        path = self.p(rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
        if mtime:
            os.utime(path, (mtime, mtime))
        try:
            os.chown(path, 65534, 65534)
        except PermissionError:
            pass
        return path

    def get(self, rel):
        with open(self.p(rel), "rb") as f:
            return f.read()

    def write_conf(self):
        self.put("etc/fidogate.conf", "\n".join(self.base + self.ident + self.conf) + "\n")
        chown_tree(self.d)
        self.done = True

    def env(self):
        return {"FIDOGATE_CONFIGDIR": self.p("etc")}

    def drop(self):
        if not os.environ.get("FGV_KEEP"):
            shutil.rmtree(self.d, ignore_errors=True)

    def run(self, prog, *args, input=None, env=None, timeout=60, variant="asan", preexec=None):
        if not self.done:
            self.write_conf()
        e = self.env()
        if env:
            e.update(env)
        return self.case.run(prog, list(args), input=input, env=e, timeout=timeout,
                             variant=variant, cwd=self.d, preexec=preexec)

    def ls(self, rel, pat="*"):
        return sorted(glob.glob(self.p(rel, pat)))

    def tree(self, rel="."):
        """{relative path: bytes} of every regular file below rel"""
        out = {}
        base = self.p(rel)
        for r, ds, fs in os.walk(base):
            for f in fs:
                p = os.path.join(r, f)
                if os.path.islink(p):
                    out[os.path.relpath(p, base)] = b"->" + os.readlink(p).encode()
                else:
                    with open(p, "rb") as fh:
                        out[os.path.relpath(p, base)] = fh.read()
        return out

    def log(self):
        try:
            return self.get("log/log").decode("latin1")
        except FileNotFoundError:
            return ""

    def read_pkts(self, rel, pat="*.pkt"):
        """[(path, Pkt)]; an unparsable packet is reported as a violation."""
        out = []
        for p in self.ls(rel, pat):
            with open(p, "rb") as f:
                data = f.read()
            try:
                out.append((p, parse(data)))
                self.case.seen("packets_parsed")
            except PktError as e:
                self.case.fail("malformed-packet", "%s: %s" % (os.path.relpath(p, self.d), e))
            self.case.evals += 1
        return out
