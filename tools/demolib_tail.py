

class Box:
    def __init__(self, addrs=("2:5030/100",), uplink="2:5030/0", conf=(), zones=(1, 2, 3, 4, 5, 6)):
        self.d = d = tempfile.mkdtemp(prefix="fgdemo-")
        atexit.register(shutil.rmtree, d, True)
        for x in DIRS:
            os.makedirs(os.path.join(d, x), exist_ok=True)
        L = ["CONFIGDIR %s/etc" % d, "BINDIR %s/bin" % d, "LIBEXECDIR %s/lib" % d,
             "LOGDIR %s/log" % d, "VARDIR %s/var" % d, "LOCKDIR %s/lock" % d,
             "SPOOLDIR %s/spool" % d, "BTBASEDIR %s/bt" % d, "NETMAILDIR %s/bt/netmail" % d,
             "INBOUND %B/in", "PINBOUND %B/pin", "ACL %C/acl", "ALIASES %C/aliases",
             "AREAS %C/areas", "HOSTS %C/hosts", "PASSWD %C/passwd", "PACKING %C/packing",
             "ROUTING %C/routing", "SPYES %C/spyes", "UPLINKS %C/uplinks",
             "FTNACL %C/ftnacl", "HISTORY %V/history", "TIC_HISTORY %V/tic_hist",
             "LOGFILE %G/log", "SEQ_MAIL %V/seq/mail", "SEQ_NEWS %V/seq/news",
             "SEQ_MSGID %V/seq/msgid", "SEQ_PKT %V/seq/pkt", "SEQ_SPLIT %V/seq/split",
             "SEQ_FF %V/seq/ff", "SEQ_TOSS %V/seq/toss", "SEQ_PACK %V/seq/pack",
             "SEQ_TICK %V/seq/tick", "OUTRFC_MAIL %S/outrfc/mail",
             "OUTRFC_NEWS %S/outrfc/news", "OUTPKT %S/outpkt", "OUTPKT_MAIL %S/outpkt/mail",
             "OUTPKT_NEWS %S/outpkt/news", "TOSS_TOSS %S/toss/toss",
             "TOSS_ROUTE %S/toss/route", "TOSS_PACK %S/toss/pack", "TOSS_BAD %S/toss/bad",
             "TICK_HOLD %B/tick", "AreasBBS %s/etc/areas.bbs" % d,
             "FAreasBBS %s/etc/fareas.bbs" % d, "SENDMAIL /bin/true", "INEWS /bin/true",
             "CHARSETMAP %L/charset.bin", "CONFIG_GATE %C/fidogate.conf",
             "Hostname gate", "Domain example.org"]
        L += ["Address %s" % a for a in addrs]
        if uplink:
            L.append("Uplink %s" % uplink)
        L.append("Zone default .fidonet.org fidonet out")
        L += ["Zone %d .fidonet.org fidonet %s" % (z, "out" if z == 2 else "out.%03x" % z)
              for z in zones]
        self.put("etc/fidogate.conf", "\n".join(L + list(conf)) + "\n")
        for f in ("acl", "aliases", "areas", "hosts", "ftnacl", "passwd", "packing",
                  "routing", "spyes", "uplinks", "areas.bbs", "fareas.bbs"):
            self.put("etc/" + f, "")

    def p(self, *a):
        return os.path.join(self.d, *a)

    def put(self, rel, data, mtime=None):
        if isinstance(data, str):
            data = data.encode("latin1")
        os.makedirs(os.path.dirname(self.p(rel)), exist_ok=True)
        with open(self.p(rel), "wb") as f:
            f.write(data)
        if mtime:
            os.utime(self.p(rel), (mtime, mtime))

    def get(self, rel):
        with open(self.p(rel), "rb") as f:
            return f.read()

    def ls(self, rel, pat="*"):
        return sorted(glob.glob(self.p(rel, pat)))

    def run(self, prog, *args, input=None, env=None, timeout=60):
        e = dict(os.environ, LC_ALL="C", TZ="UTC0", FIDOGATE_CONFIGDIR=self.p("etc"), HOME=self.d,
                 LOGNAME="root", USER="root")
        e.update(env or {})
        r = subprocess.run([os.path.join(REPO, "src", prog)] + list(args), cwd=self.d, env=e,
                           input=input if input is not None else b"", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        self.err = r.stderr
        self.out = r.stdout
        return r.returncode

    def pkts(self, rel, pat="*.pkt"):
        r = []
        for p in self.ls(rel, pat):
            with open(p, "rb") as f:
                r.append(parse(f.read()))
        return r

    def msgs(self, rel, pat="*.pkt"):
        return [(p, m) for p in self.pkts(rel, pat) for m in p.msgs]


def need(cond, what):
    if not cond:
        print("FAILED: " + what)
        sys.exit(1)
