"""P29: dates and times survive conversion"""
import calendar, re, datetime as D
from zoneinfo import ZoneInfo
from vlib.harness import Check
from vlib.spool import Spool
from vlib import native
from vlib.pkt import N, Msg, Pkt
from vlib.ungate import batch, RfcError

MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
DAY = "Mon Tue Wed Thu Fri Sat Sun".split()
LMON = "January February March April May June July August September October November December".split()
LDAY = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
UTC = D.timezone.utc
US, LINKS = N("2:5030/100"), [N("2:5030/1"), N("2:5030/2")]
TZS = ["UTC0", "Europe/Berlin", "Europe/Berlin", "Europe/London", "America/New_York", "America/St_Johns", "Australia/Adelaide",
       "Australia/Lord_Howe", "Asia/Kolkata", "Asia/Kathmandu", "Pacific/Auckland", "Pacific/Kiritimati", "Pacific/Marquesas",
       "Europe/Moscow", "Europe/Moscow", "Europe/Dublin", "Africa/Casablanca", "America/Sao_Paulo", "Asia/Tehran", "Pacific/Apia",
       "Etc/GMT+12", "CET-1", "EST5", "XXX3:30", "YYY-5:45"]
FIXED = {"UTC0": 0, "CET-1": 60, "EST5": -300, "XXX3:30": -210, "YYY-5:45": 345}
NAMES = {"GMT": 0, "UT": 0, "UTC": 0, "Z": 0, "EST": -300, "EDT": -240, "CST": -360, "CDT": -300, "MST": -420, "MDT": -360,
         "PST": -480, "PDT": -420, "gmt": 0, "CET": 60, "CEST": 120, "MSK": 180, "GMT+0300": 180, "GMT-0130": -90}
BADDATE = [b"00 Jan 00  00:00:00", b"31 Feb 24  10:00:00", b"30 Feb 24  10:00:00", b"29 Feb 23  10:00:00", b"31 Apr 25  11:00:00",
           b"12 Jan 24  25:00:00", b"12 Jan 24  10:61:00", b"12 Jan 24  10:00:99", b"Hello, world 1", b"32 Jan 24  01:01:01", b"29 Feb 00 24:00:00",
           b"99 Dec 99  99:99:99", b"12/45/24 10:00", b"Mon 31 Jun 24 10:00"]
ODDDATE = [b"", b"-------------------",  b" ", b"\0" * 19, b"Now is the time", b"12 Jan 24  1a:0b:0c", b"Hello, world", b"-99999999 years", b"99999999 years", b"-3000 year", b"9999 years", b"-60 years", b"tomorrow", b"1 Jan 1 00:00 99999", b"-20000 months", b"01 Jan 70  00:00:00",
           b"-2000 year 1 Jan", b"(((((((((((((((((((", b"\xff\xfe\xfd", b"12:00 -9999", b"-99999999999999999", b"12:00 am pm am", b"0 0 0 0 0 0 0 0 0", b"1 Jan 99999", b"01-Jan-24 10:11:12",
           b"2400 24 Jan 24", b"\x80 Jan 24  10:00:00", b"1 jan 0 0:0", b"99999999 sec", b"-1 week -1 day", b"12 Jan"]
BADTZ = ["abc", "9999", "", "12", "0360", "-9999", "+-5-3", "--5-3", "-5", "+05300", "99999999999", "0 0", "1500x", "+", "-", "  0300", "0300 CET", "2400", "-2360", "4294967295"]


def zone(name):
    return D.timezone(D.timedelta(minutes=FIXED[name])) if name in FIXED else ZoneInfo(name)


def local(z, naive):
    """instants denoted by a local time (two at the change to winter; in the gap both readings)"""
    return {int(naive.replace(tzinfo=z, fold=f).timestamp()) for f in (0, 1)}


def rend(z, t):
    return D.datetime.fromtimestamp(t, z).replace(tzinfo=None)


def naive(rng, now, z, lim=None):
    """a date: anything from 1980 to 2069, with the days at which calendars and zones change"""
    r = rng.random()
    if r < .15:
        y = rng.choice([1980, 1984, 1992, 1996, 2000, 2004, 2012, 2016, 2020, 2024, 2028, 2032, 2036, 2040, 2044, 2048, 2068])
        d = D.datetime(y, *rng.choice([(2, 29), (2, 28), (3, 1), (12, 31), (1, 1)]))
    elif r < .3:
        d = D.datetime(rng.choice([1980, 1999, 2000, 2001, 2037, 2038, 2038, 2039, 2069]), *rng.choice([(1, 1), (12, 31), (1, 19), (1, 20), (3, 1), (2, 28)]))
    elif r < .5:
        d = rend(z, now).replace(hour=0, minute=0, second=0) + D.timedelta(days=rng.choice([0, 0, -1, 1, -2, 2, -180, -90, -365]))
    elif r < .7:
        # last Sundays: clocks change
        y = rng.choice([2005, 2010, 2011, 2014, 2015, 2023, 2024, 2024, 2025, 2025, 2026])
        d = D.datetime(y, rng.choice([3, 10, 4, 11, 9]), 1) + D.timedelta(days=rng.randrange(31))
        d = D.datetime(d.year, d.month, d.day)
        while d.weekday() != 6:
            d -= D.timedelta(days=1)
    else:
        d = D.datetime(1980, 1, 1) + D.timedelta(days=rng.randrange(90 * 365))
    h, m, s = rng.choice([(rng.randrange(24), rng.randrange(60), rng.randrange(60)), (0, 0, 0), (23, 59, 59), (rng.choice([1, 2, 3]), rng.choice([0, 15, 30, 59]), rng.randrange(60)), (12, 0, 0)])
    d += D.timedelta(hours=h, minutes=m, seconds=s)
    return d if d < D.datetime(2069, 12, 30) else d - D.timedelta(days=30)


def fts(rng, n):
    """(text of at most 20 characters, the date it denotes)"""
    mon = MON[n.month - 1]
    k = rng.random()
    y = n.year % 100
    if k < .7:
        return b"%02d %s %02d  %02d:%02d:%02d" % (n.day, mon.encode(), y, n.hour, n.minute, n.second), n, "fts"
    if k < .82:
        return b"%s %2d %s %02d %02d:%02d" % (DAY[n.weekday()].encode(), n.day, mon.encode(), y, n.hour, n.minute), n.replace(second=0), "seadog"
    if k < .87:
        return b"%2d %s %02d  %02d:%02d:%02d" % (n.day, mon.encode(), y, n.hour, n.minute, n.second), n, "blank-day"
    if k < .92:
        return b"%02d %s %02d %02d:%02d:%02d" % (n.day, mon.upper().encode(), y, n.hour, n.minute, n.second), n, "one-blank"
    if k < .96:
        return b"%02d %s %02d  %2d:%02d:%02d" % (n.day, mon.lower().encode(), y, n.hour, n.minute, n.second), n, "blank-hour"
    return b"%02d %s %02d  %02d:%02d:%02d" % (n.day, mon.encode(), y, n.hour, n.minute, n.second), n, "fts"


def tzutc(rng):
    """(kludge text, minutes)"""
    m = rng.choice([0, 60, 120, 180, -60, -300, 330, 345, -210, -570, 840, -720, 1, -1, -30, 30, -59, 765, rng.randrange(-720, 841)])
    s = "%02d%02d" % divmod(abs(m), 60)
    return ("-" if m < 0 else rng.choice(["", "", "+"])) + s, m


RDATE = re.compile(rb"(?:(Mon|Tue|Wed|Thu|Fri|Sat|Sun), )?(\d{1,2}) (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) (\d{4}) (\d\d):(\d\d):(\d\d) ([+-])(\d\d)([0-5]\d)(?: \([^()]*\))?")


def rdate(v):
    """(instant, displayed date) of an RFC 822 date; ValueError"""
    m = RDATE.fullmatch(v.strip())
    if not m:
        raise ValueError("not a date: %r" % v)
    d = D.datetime(int(m[4]), MON.index(m[3].decode()) + 1, int(m[2]), int(m[5]), int(m[6]), int(m[7]))
    if m[1] and DAY[d.weekday()] != m[1].decode():
        raise ValueError("wrong day of the week: %r" % v)
    off = (int(m[9]) * 60 + int(m[10])) * (-1 if m[8] == b"-" else 1)
    if abs(off) > 14 * 60:
        raise ValueError("zone of %r" % v)
    t = calendar.timegm(d.timetuple()) - off * 60
    if t < 0 or d.year > 2100:
        raise ValueError("year of %r" % v)
    return t, d


FDATE = re.compile(rb"(\d\d) (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) (\d\d)  (\d\d):(\d\d):(\d\d)")


def fdate(v):
    m = FDATE.fullmatch(v)
    if not m:
        raise ValueError("not a date: %r" % v)
    y = int(m[3])
    return D.datetime(y + (1900 if y >= 70 else 2000), MON.index(m[2].decode()) + 1, *(int(m[i]) for i in (1, 4, 5, 6)))


def secs(n):
    return calendar.timegm(n.timetuple())


class Run:
    def __init__(self, case):
        self.case, self.rng = case, case.rng
        rng = case.rng
        self.tzname = rng.choice(TZS)
        self.z = zone(self.tzname)
        base = rng.choice([D.datetime(2024, 1, 15), D.datetime(2024, 7, 15), D.datetime(2025, 3, 30), D.datetime(2024, 10, 27), D.datetime(2026, 11, 1), D.datetime(2024, 2, 29),
                           D.datetime(2038, 1, 19, 3, 14), D.datetime(2069, 12, 28), D.datetime(2069, 12, 28), D.datetime(2060, 6, 30)])
        self.now = secs(base) + rng.randrange(86400)
        self.kl = rng.random() < .8
        self.sp = Spool(case, addrs=[US.s(), "1:1/1"], uplink="2:5030/0", conf=["DefaultCharset cp866:cp866:utf-8:utf-8", "NoDBCHistory"] + (["UseTZUTCKludge"] if self.kl else []) +
                        (["SinglePKTs"] if rng.random() < .2 else []))
        sp = self.sp
        sp.put("etc/acl", "Netmail\n* *\nEchoMail\n* *\nftn2rfc\n* *\n")
        sp.put("etc/areas", "ALPHA fido.alpha -a 2:5030/100\n")
        sp.put("etc/areas.bbs", "# areas\n#- ALPHA %s\n" % " ".join(n.s() for n in LINKS))
        sp.put("etc/routing", "netmail\nroute normal *\nechomail\nroute normal *\n")
        for r in ("unknown", "local", "malformed", "insecure"):
            sp.put("etc/bounce." + r, "bounce %s\n" % r)
        sp.write_conf()

    def env(self, tz=None):
        e = {"TZ": tz or self.tzname, "FIXTIME": str(self.now)}
        if self.case.ctx.get("fixtime"):
            e["LD_PRELOAD"] = self.case.ctx["fixtime"]
        return e

    def go(self, prog, *a, tz=None, input=None):
        R = self.sp.run(prog, *a, env=self.env(tz), input=input, variant="plain")
        self.case.san(R)
        self.case.check(R.rc == 0, "exit", "%s %s exited with %s: %s %s" % (prog, a, R.rc, R.err[-200:], self.sp.log()[-300:]))
        return R

    # ---- generated dates ----
    def ftn_date(self, future=True):
        """dict(raw=, n= (None: unreadable), kind=, tz=text or None, off=minutes or None)"""
        rng = self.rng
        r = rng.random()
        if r < .1:
            e = dict(raw=rng.choice(BADDATE), n=None, kind="unreadable")
        elif r < .16:
            raw = rng.choice(ODDDATE) if rng.random() < .6 else bytes(rng.randrange(256) for _ in range(19))
            e = dict(raw=raw[:19], n=None, kind="odd")
        else:
            raw, n, kind = fts(rng, naive(rng, self.now, self.z))
            e = dict(raw=raw, n=n, kind=kind)
        e["tz"] = e["off"] = None
        r = rng.random()
        if r < .55:
            e["tz"], e["off"] = tzutc(rng)
        elif r < .65:
            e["tz"] = rng.choice(BADTZ)
        return e

    def msg(self, k, e, kind):
        frm = LINKS[0]
        kl = b"" if e["tz"] is None else b"\1TZUTC: %s\r" % e["tz"].encode()
        mid = b"\1MSGID: %s %08x\r" % (frm.s().encode(), 0x10000 + k)
        if kind == "net":
            b = b"\1INTL 2:5030/100 2:5030/1\r" + mid + kl + b"ID:%d;\r" % k
            return Msg(b"john", b"Op", b"mail", b, frm, US, 1, 0, e["raw"])
        if kind == "transit":
            b = b"\1INTL 2:5030/2 2:5030/1\r" + mid + kl + b"ID:%d;\r" % k
            return Msg(b"john", b"Op", b"mail", b, frm, LINKS[1], 1, 0, e["raw"])
        b = b"AREA:ALPHA\r" + mid + kl + b"ID:%d;\r--- x\r * Origin: o (2:5030/1)\rSEEN-BY: 5030/1\r\1PATH: 5030/1\r" % k
        return Msg(b"All", b"Op", b"echo", b, frm, US, 0, 0, e["raw"])

    def rfc_out(self):
        """{id: header dict}"""
        out = {}
        for kind in ("mail", "news"):
            for p in self.sp.ls("spool/outrfc/" + kind, "*.rfc"):
                d = open(p, "rb").read()
                try:
                    arts = batch(d) if kind == "news" else [d]
                except RfcError as x:
                    self.case.fail("batch", "%s: %s" % (p, x))
                    continue
                for a in arts:
                    m = re.search(rb"ID:(\d+);", a)
                    h, _, _ = a.partition(b"\n\n")
                    H = {}
                    for l in h.split(b"\n"):
                        n, c, v = l.partition(b": ")
                        if c and n[:1].strip():
                            H.setdefault(n.decode("latin1"), []).append(v)
                        elif l.startswith(b"\tid "):
                            H["id"] = [l.rpartition(b"; ")[2]]
                        elif l.startswith(b"From "):
                            H["From_"] = [l]
                    self.case.check(m, "no-id", "article without its text: %r" % a[:300])
                    if m:
                        self.case.check(int(m[1]) not in out, "twice", "message %s gated twice" % m[1])
                        out[int(m[1])] = (kind, H)
        return out

    def check_now(self, t, what, key="now"):
        self.case.check(t == self.now, key, "%s: %s, not the time of the run %s" % (what, D.datetime.fromtimestamp(t, UTC), D.datetime.fromtimestamp(self.now, UTC)))

    def one_date(self, H, name, what):
        v = H.get(name, [])
        if not self.case.check(len(v) == 1, "header", "%s: %d %s headers" % (what, len(v), name)):
            return None
        try:
            return rdate(v[0])
        except ValueError as x:
            self.case.fail("malformed", "%s: %s header: %s" % (what, name, x))
            return None

    def check_gated(self, k, e, kind, H, tz=None):
        """one message that went from FTN to RFC"""
        case, z = self.case, zone(tz or self.tzname)
        what = "%s %r TZUTC %r in zone %s at %s" % (kind, e["raw"], e["tz"], tz or self.tzname, D.datetime.fromtimestamp(self.now, UTC))
        case.evals += 1
        case.seen("ftn_to_rfc_" + ("unreadable" if e["n"] is None else "tzutc" if e["off"] is not None else "local"))
        case.sig("%s|%s|%s|%s" % (e["kind"], e["off"] is not None, tz or self.tzname, e["n"] and e["n"].year))
        if kind == "mail":
            r = self.one_date(H, "id", what)
            if r:
                self.check_now(r[0], what + " Received")
        orig = H.get("X-Original-Date")
        late = orig is not None
        got = self.one_date(H, "X-Original-Date" if late else "Date", what)
        dt = self.one_date(H, "Date", what)
        if not got or not dt:
            return
        if late:
            case.seen("from_the_future")
            self.check_now(dt[0], what + " (from the future) Date")
            case.check(got[0] > self.now + 86400, "not-future", "%s: X-Original-Date %s though it isn't in the future" % (what, orig))
        elif e["n"] is not None:
            case.check(got[0] <= self.now + 86400, "future", "%s: Date %s is in the future" % (what, H["Date"]))
        t, shown = got
        if e["n"] is None:
            if e["kind"] == "unreadable":
                self.check_now(t, what + ": " + repr(H["Date"]), "unreadable-now")
            return
        if e["off"] is not None:
            w = secs(e["n"]) - e["off"] * 60
            case.check(t == w, "instant", "%s: gated as %r, instant is off by %d s" % (what, (orig or H["Date"])[0], t - w))
            if not late:
                case.check(shown == e["n"], "shown", "%s: local time shown is %s" % (what, shown))
        else:
            w = local(z, e["n"])
            if e["tz"] is None:
                case.check(t in w, "local-instant", "%s: gated as %r, instant is off by %s s" % (what, (orig or H["Date"])[0], sorted(t - x for x in w)))
                gap = all(rend(z, x) != e["n"] for x in w)
                if gap:
                    case.seen("times_in_the_gap")
                else:
                    case.check(shown == e["n"], "local-shown", "%s: local time shown is %s" % (what, shown))
            else:
                case.seen("bad_tzutc")
                case.check(abs(t - secs(e["n"])) <= 27 * 3600, "bad-tzutc", "%s: gated as %r" % (what, (orig or H["Date"])[0]))

    # ---- RFC dates ----
    def rfc_date(self):
        """dict(text=, t=instant or None, shown=, kind)"""
        rng, case = self.rng, self.case
        if rng.random() < .12:
            return dict(text=rng.choice(["yesterday evening", "Mon, 31 Feb 2024 10:00:00 +0000", "Thu, 29 Feb 2023 10:00:00 +0100", "32 Jan 2024 10:00:00 -0500", "Mon, 01 Jan 2024 24:00:01 +0000",
                                         "Mon, 01 Jan 2024 10:60:00 +0000", "foo -7", "foo -9999", "x +05300", "Mon, 01 Jan 2024 10:00:00 +0260", 
                                         "x -0001", "junk (x) +4294967295", "Mon, 01 Jan 2024 10:00:00 +053000", "Mon, 00 Jan 2024 10:00:00 -0730", "+0930", "-0330",
                                         "Mon, 01 Jan 99999 10:00:00 +0300", "01 Jan 1950 10:00:00 -0500", "% %s %n"]), t=None, shown=None, kind="unreadable")
        if rng.random() < .05:
            return dict(text=rng.choice(["", "-99999999 years", "Mon, 01 Jan 2024 10:00:00 +9900", "99999 years +0300", "GMT is fine", "tomorrow", "?", "(", "Mon", "\t", "last week", "3 days ago", "1e9", "2024-01-05T10:00:00Z"]), t=None, shown=None, kind="odd")
        if rng.random() < .04:
            # relative to the present
            t = rend(self.z, self.now)
            w = rng.randrange(-1000, 2000)
            return rng.choice([dict(text="%02d:%02d" % (9, 30), t=local(self.z, t.replace(hour=9, minute=30, second=0)), shown=t.replace(hour=9, minute=30, second=0), kind="zoneless"),
                               dict(text="%d minutes" % w, t={self.now + 60 * w}, shown=None, kind="relative"),
                               dict(text="-1 month" if t.day < 29 and t.month > 1 else "-1 week", t=local(self.z, t.replace(month=t.month - 1)) if t.day < 29 and t.month > 1 else {self.now - 7 * 86400}, shown=None, kind="relative")])
        n = naive(rng, self.now, self.z)
        day = rng.choice([DAY[n.weekday()] + ", "] * 4 + ["", DAY[n.weekday()] + " "])
        sec = rng.random() < .95
        if not sec:
            n = n.replace(second=0)
        yr = "%02d" % (n.year % 100) if rng.random() < .08 else "%d" % n.year
        mon = MON[n.month - 1]
        if rng.random() < .08:
            mon = rng.choice([mon.upper(), mon.lower()])
        txt = "%s%s %s %s %s%s" % (day, ("%d" if rng.random() < .3 else "%02d") % n.day, mon, yr, "%02d:%02d" % (n.hour, n.minute), ":%02d" % n.second if sec else "")
        spelt = rng.random() < .15
        if spelt:
            # the other spellings parsedate(3) describes
            case.seen("other_spellings")
            dt = rng.choice(["%d/%d/%d" % (n.year, n.month, n.day), "%d/%d/%d" % (n.month, n.day, n.year), "%d/%d/%d" % (n.month, n.day, n.year), "%02d/%02d/%02d" % (n.month, n.day, n.year % 100),
                             "%s %d, %d" % (LMON[n.month - 1], n.day, n.year), "%s %d, %d" % (mon, n.day, n.year), "%d %s %d" % (n.day, LMON[n.month - 1], n.year),
                             "%s, %d %s %d" % (LDAY[n.weekday()], n.day, mon, n.year)])
            h12 = "%d" % (n.hour % 12 or 12)
            ap = rng.choice(["am", "AM"] if n.hour < 12 else ["pm", "PM"])
            tm = rng.choice(["%d:%02d:%02d" % (n.hour, n.minute, n.second), "%s:%02d:%02d %s" % (h12, n.minute, n.second, ap), "%s:%02d:%02d%s" % (h12, n.minute, n.second, ap)])
            txt = dt + " " + tm if rng.random() < .7 else tm + " " + dt
            if not txt.endswith(tm):
                spelt = "zoneless"
        r = .95 if spelt == "zoneless" else rng.random()
        if r < .7:
            _, m = tzutc(rng)
            txt += " %s%02d%02d" % ("-" if m < 0 or m == 0 and rng.random() < .2 else "+", *divmod(abs(m), 60))
            kind, sh = "numeric", None if spelt else n
            if rng.random() < .25:
                txt += rng.choice([" (PDT)", " (Central European Summer Time)", " (a (nested) one)", "  (CET)", " (GMT)", " (x \\( y)", " (+0900)", " (UTC -1200)", " (CET) ", " (MSK )"])
        elif r < .9:
            nm = rng.choice(list(NAMES))
            m = NAMES[nm]
            txt += " " + nm
            kind, sh = "named", None
        else:
            m, kind, sh = None, "zoneless", None
        if rng.random() < .1 and " " in txt:
            i = rng.choice([j for j, c in enumerate(txt) if c == " " and "(" not in txt[:j]])
            txt = txt[:i] + rng.choice(["  ", "\n ", "\n\t"]) + txt[i + 1:]
            if txt[i] == "\n" or "\t" in txt:
                sh = None
        if m is None:
            w = local(self.z, n)
            # (two readings of a doubled hour, none of an hour left out)
            return dict(text=txt, t=w, shown=n, kind=kind)
        return dict(text=txt, t={secs(n) - 60 * m}, shown=sh, kind=kind)

    def pkt_out(self):
        out = {}
        for p in self.sp.ls("spool/outpkt", "*.pkt") + self.sp.ls("spool/outpkt/news", "*.pkt") + self.sp.ls("spool/outpkt/mail", "*.pkt"):
            from vlib.pkt import parse
            for m in parse(open(p, "rb").read()).msgs:
                x = re.search(rb"ID:(\d+);", m.body)
                self.case.check(x, "no-id", "gated message without its text: %r" % m.body[:200])
                if x:
                    self.case.check(int(x[1]) not in out, "twice", "article %s gated twice" % x[1])
                    out[int(x[1])] = m
        return out

    def check_via(self, body, what, want=False):
        n = 0
        for v in re.findall(rb"\x01Via [^\r]*", body):
            if not re.match(rb"\x01Via 2:5030/100[ .@]", v):
                continue
            n += 1
            m = re.search(rb"@(\d{4})(\d\d)(\d\d)\.(\d\d)(\d\d)(\d\d)\.(-?)(\d\d)(\d\d)(?: |$)", v)
            if not self.case.check(m, "via", "%s: %r" % (what, v)):
                continue
            try:
                d = D.datetime(*(int(m[i]) for i in range(1, 7)))
            except ValueError:
                self.case.fail("via", "%s: %r" % (what, v))
                continue
            self.case.seen("via_lines")
            self.check_now(secs(d) - (int(m[8]) * 60 + int(m[9])) * 60 * (-1 if m[7] else 1), "%s: %r in zone %s" % (what, v, self.tzname), "via")
        if want:
            self.case.check(n, "no-via", "%s: no Via line: %r" % (what, body[:300]))

    def check_back(self, e, m, what):
        """one article that went from RFC to FTN; returns what it denotes"""
        case = self.case
        case.evals += 1
        case.sig("%s|%s|%s" % (e["kind"], self.tzname, self.kl))
        try:
            n = fdate(m.date.rstrip(b"\0") if isinstance(m.date, bytes) else m.date)
        except ValueError as x:
            case.fail("malformed-ftn", "%s: %s" % (what, x))
            return None
        tz = re.findall(rb"\x01TZUTC:? ?([^\r]*)", m.body)
        self.check_via(m.body, what)
        off = None
        if case.check(len(tz) == self.kl, "tzutc", "%s: TZUTC kludges %s" % (what, tz)) and tz:
            x = re.fullmatch(rb"(-?)(\d\d)([0-5]\d)", tz[0])
            if not case.check(x and int(x[2]) < 15, "tzutc-malformed", "%s: TZUTC %r" % (what, tz[0])):
                return None
            off = (int(x[2]) * 60 + int(x[3])) * (-1 if x[1] else 1)
        case.seen("rfc_to_ftn_" + e["kind"] + ("" if off is None else "_tzutc"))
        if e["kind"] == "odd":
            return n, off
        if e["t"] is None:
            if off is not None:
                # (a second message within the second is dated two seconds later)
                case.check(0 <= secs(n) - off * 60 - self.now <= 2, "unreadable-rfc", "%s: %s TZUTC %s, not the time of the run" % (what, m.date, tz))
            else:
                case.check(abs(secs(n) - self.now) <= 15 * 3600, "unreadable-rfc", "%s: %s, not the time of the run" % (what, m.date))
            return n, off
        if off is not None:
            t = secs(n) - off * 60
            case.check(t in e["t"], "instant-ftn", "%s: written as %r TZUTC %s, off by %s s" % (what, m.date, tz, [t - x for x in e["t"]]))
        if e["kind"] == "numeric":
            if e["shown"] is not None:
                case.check(n == e["shown"], "shown-ftn", "%s: written as %r" % (what, m.date))
        elif e["kind"] == "zoneless":
            if any(rend(self.z, x) == e["shown"] for x in e["t"]):
                case.check(n == e["shown"], "zoneless", "%s: written as %r" % (what, m.date))
        return n, off


def gate(case):
    """FTN -> RFC -> FTN -> RFC"""
    c = Run(case)
    rng, sp = case.rng, c.sp
    E = {}
    ms = []
    for k in range(rng.choice([20, 40, 60])):
        e = c.ftn_date()
        e["net"] = rng.random() < .4
        E[k] = e
        ms.append(c.msg(k, e, "net" if e["net"] else "echo"))
    sp.put("bt/pin/00000001.pkt", Pkt(LINKS[0], US, ms).raw())
    c.go("gate/ftn2rfc", "-i")
    out = c.rfc_out()
    case.check(set(out) == set(E), "lost", "messages %s not gated: %s" % (sorted(set(E) - set(out))[:5], sp.log()[-500:]))
    for k, (kind, H) in sorted(out.items()):
        c.check_gated(k, E[k], kind, H)

    # back, by a gateway in another zone; with dates of other programs among them
    c.tzname = rng.choice(TZS)
    c.z = zone(c.tzname)
    B, txt = {}, b""
    for k, (kind, H) in sorted(out.items()):
        if len(H.get("Date", [])) == 1 and rng.random() < .7:
            try:
                t, shown = rdate(H["Date"][0])
            except ValueError:
                continue
            if shown.year < 1980:
                continue
            B[k] = dict(text=H["Date"][0].decode(), t={t}, shown=shown, kind="numeric", src=E[k] if "X-Original-Date" not in H else None)
    for k in range(1000, 1000 + rng.choice([10, 30, 50])):
        B[k] = c.rfc_date()
    for k, e in B.items():
        a = "From: John Doe <john@gate.example.org>\nNewsgroups: fido.alpha\nSubject: s\nMessage-ID: <%d.%d@gate.example.org>\n%sID: x\n\nID:%d;\n" % (
            case.index, k, "Date: %s\n" % e["text"] if e["text"] or rng.random() < .5 else "", k)
        txt += b"#! rnews %d\n" % len(a.encode()) + a.encode()
    c.go("gate/rfc2ftn", "-b", "-n", input=txt)
    got = c.pkt_out()
    case.check(set(got) == set(B), "lost-rfc", "articles %s not gated: %s" % (sorted(set(B) - set(got))[:5], sp.log()[-500:]))
    again = {}
    for k, m in sorted(got.items()):
        e = B[k]
        what = "article %d, Date %r in zone %s at %s" % (k, e["text"], c.tzname, D.datetime.fromtimestamp(c.now, UTC))
        r = c.check_back(e, m, what)
        s = e.get("src")
        if r and s and s["off"] is not None and s["n"] is not None:
            case.check(r[0] == s["n"], "round-trip", "%r TZUTC %s came back as %r" % (s["raw"], s["tz"], m.date))
            if r[1] is not None:
                case.check(r[1] == s["off"], "round-trip-zone", "%r TZUTC %s came back with TZUTC %d min" % (s["raw"], s["tz"], r[1]))
            case.seen("round_trips")
        if r and r[1] is not None and r[0].year >= 1980:
            again[k] = dict(raw=m.date, n=r[0], kind="again", tz="%s%02d%02d" % ("-" if r[1] < 0 else "", *divmod(abs(r[1]), 60)), off=r[1])
    # and once more to RFC
    if not again:
        return
    for p in sp.ls("spool/outrfc/mail") + sp.ls("spool/outrfc/news"):
        sp.drop(p) if False else __import__("os").unlink(p)
    c.tzname = rng.choice(TZS)
    c.z = zone(c.tzname)
    sp.put("bt/pin/00000002.pkt", Pkt(LINKS[0], US, [c.msg(k, e, rng.choice(["net", "echo"])) for k, e in sorted(again.items())]).raw())
    c.go("gate/ftn2rfc", "-i")
    out = c.rfc_out()
    case.check(set(out) == set(again), "lost-again", "messages %s not gated: %s" % (sorted(set(again) - set(out))[:5], sp.log()[-500:]))
    for k, (kind, H) in sorted(out.items()):
        c.check_gated(k, again[k], kind, H)
    case.sample = "%d messages to RFC, %d articles to FTN, %d back; zone %s, now %s" % (len(E), len(B), len(again), c.tzname, D.datetime.fromtimestamp(c.now, UTC))


def pas(case):
    """messages passed on, mails gated one by one"""
    c = Run(case)
    rng, sp = case.rng, c.sp
    E, ms = {}, []
    for k in range(rng.choice([20, 40, 80])):
        e = E[k] = c.ftn_date()
        e["net"] = rng.random() < .3
        ms.append(c.msg(k, e, "transit" if e["net"] else "echo"))
    sp.put("bt/pin/00000001.pkt", Pkt(LINKS[0], US, ms).raw())
    c.go("toss/ftntoss")
    dirs = ["spool/toss/toss"]
    stage = "tossing"
    if rng.random() < .5:
        c.go("toss/ftnroute")
        dirs.append("spool/toss/route")
        stage = "tossing and routing"
    from vlib.pkt import parse
    seen = {}
    for d in dirs:
        for p in sp.ls(d, "*.pkt"):
            for m in parse(open(p, "rb").read()).msgs:
                x = re.search(rb"ID:(\d+);", m.body)
                if x:
                    seen.setdefault(int(x[1]), []).append(m)
    case.check(set(seen) == set(E), "lost-toss", "messages %s not sent: %s" % (sorted(set(E) - set(seen))[:5], sp.log()[-500:]))
    for k, L in sorted(seen.items()):
        e = E[k]
        what = "%r after %s in zone %s at %s" % (e["raw"], stage, c.tzname, D.datetime.fromtimestamp(c.now, UTC))
        for m in L:
            case.evals += 1
            case.sig("%s|%s|%s" % (e["kind"], c.tzname, e["n"] and e["n"].year))
            try:
                n = fdate(m.date)
            except ValueError as x:
                case.fail("malformed-toss", "%s: %s" % (what, x))
                continue
            if e["net"]:
                c.check_via(m.body, what, True)
            if e["n"] is None:
                case.seen("unreadable_passed_on")
                if e["kind"] == "unreadable":
                    case.check(min(abs(secs(n) - secs(rend(c.z, c.now)) - i) for i in range(3)) == 0, "unreadable-toss", "%s: %r, not the time of the run" % (what, m.date))
            else:
                case.seen("passed_on")
                case.check(n == e["n"], "toss", "%s: %r" % (what, m.date))
    # mails to FTN
    for k in range(2000, 2000 + rng.choice([3, 6])):
        e = c.rfc_date()
        for p in sp.ls("spool/outpkt/mail", "*.pkt") + sp.ls("spool/outpkt", "*.pkt"):
            __import__("os").unlink(p)
        c.go("gate/rfc2ftn", "-t", input=("From: John Doe <john@gate.example.org>\nTo: sysop@f2.n5030.z2.fidonet.org\nSubject: s\n%s\nID:%d;\n" % ("Date: %s\n" % e["text"] if e["text"] else "", k)).encode())
        got = c.pkt_out()
        if case.check(set(got) == {k}, "lost-mail", "mail dated %r: gated %s; %s" % (e["text"], set(got), sp.log()[-300:])):
            c.check_back(e, got[k], "mail, Date %r in zone %s at %s" % (e["text"], c.tzname, D.datetime.fromtimestamp(c.now, UTC)))
            case.seen("mails_to_ftn")
    case.sample = "%d messages passed on (%s); zone %s, now %s" % (len(E), stage, c.tzname, D.datetime.fromtimestamp(c.now, UTC))


CHECK = Check("P29", "exploration",
              "an FTN message gated to RFC, passed on or an RFC message gated to FTN denotes the same instant (the same local time without zone) by an independent calendar; unreadable dates give the time of the run in a well formed field",
              ["two-digit years are 1970-2069", "the clock of the programs is set by a preloaded library",
               "of a local time that exists twice either instant is accepted, of one that does not exist both readings (only where no zone is given)"],
              variants=("plain",), prepare=lambda srcs: {"fixtime": native.shim(srcs["plain"], "fixtime")})
CHECK.phase("gate", gate, 60, 1500, 8)
CHECK.phase("pass", pas, 40, 1000, 8)
