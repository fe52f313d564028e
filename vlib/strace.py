"""Runs a program under strace and yields its file operations."""
import os, re
from .harness import run_cmd

CALLS = ("open,openat,creat,unlink,unlinkat,rename,renameat,renameat2,link,linkat,truncate,"
         "symlink,symlinkat,mkdir,mkdirat,rmdir")
_line = re.compile(r"^(\d+)\s+(\w+)\((.*)\)\s+=\s+(-?\d+|\?)(.*)$")
_str = re.compile(r'"((?:[^"\\]|\\.)*)"')


def unq(s):
    return re.sub(r"\\(?:([0-7]{1,3})|x([0-9a-f]{2})|(.))", lambda m: chr(int(m[1], 8)) if m[1] else
                  chr(int(m[2], 16)) if m[2] else {"n": "\n", "t": "\t", "r": "\r"}.get(m[3], m[3]), s)


def traced(sp, prog, args, variant="asan", input=None, env=None, timeout=60):
    """(R, [(pid, op, path, path2, flags)]) -- only successful operations;
    op is one of read, write, create, unlink, rename, link, truncate, mkdir, rmdir, symlink"""
    if not sp.done:
        sp.write_conf()
    out = sp.p("trace")
    if os.path.exists(out):
        os.unlink(out)
    e = sp.env()
    if env:
        e.update(env)
    cmd = ["strace", "-f", "-qq", "-s", "5000", "-e", "trace=" + CALLS, "-e", "signal=none", "-o", out,
           os.path.join(sp.case.ctx["src"][variant], prog)] + list(args)
    sp.case.seen("traced_runs")
    r = run_cmd(cmd, sp.d, e, input, timeout)
    ops, pend = [], {}
    root = None
    with open(out, errors="replace") as f:
        for l in f:
            l = l.rstrip("\n")
            m = re.match(r"^(\d+)\s+(\w+)\((.*) <unfinished \.\.\.>$", l)
            if m:
                pend[m[1]] = (m[2], m[3])
                continue
            m = re.match(r"^(\d+)\s+<\.\.\. (\w+) resumed>(.*)\)\s+=\s+(-?\d+|\?)(.*)$", l)
            if m and m[1] in pend:
                n, a = pend.pop(m[1])
                l = "%s %s(%s%s) = %s%s" % (m[1], n, a, m[3], m[4], m[5])
            m = _line.match(l)
            if not m:
                continue
            pid, name, a, ret = m[1], m[2], m[3], m[4]
            root = root or pid
            if ret.startswith("-") or ret == "?":
                continue
            st = [unq(x) for x in _str.findall(a)]
            if not st:
                continue
            st = [os.path.normpath(os.path.join(sp.d, x)) for x in st]
            if name in ("open", "openat", "creat"):
                w = name == "creat" or "O_WRONLY" in a or "O_RDWR" in a
                op = "create" if name == "creat" or "O_CREAT" in a else "write" if w else "read"
                ops.append((pid, op, st[0], None, a))
            elif name.startswith("unlink"):
                ops.append((pid, "unlink", st[0], None, a))
            elif name.startswith("rename"):
                ops.append((pid, "rename", st[0], st[1], a))
            elif name.startswith("link"):
                ops.append((pid, "link", st[0], st[1], a))
            else:
                ops.append((pid, name.replace("at", "") if name != "truncate" else name, st[-1], None, a))
    sp.case.seen("file_operations", len(ops))
    return r, ops
