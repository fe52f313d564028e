#!/usr/bin/env python3
"""mkseed.py ID PROP: turns the edits of the scratch tree /tmp/seed/repo plus
/tmp/seed/demo.py (and extra files in /tmp/seed/files) into seeded/ID, after
confirming that the patched tree builds, passes the stable tests, and that
the demonstration passes without and fails with the patch.
usage: mkseed.py ID PROP NEEDS BREAKS"""
import os, sys, subprocess, json, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed"


def demolib():
    pk = open(V + "/vlib/pkt.py").read()
    pk = re.sub(r'^""".*?"""\n', "", pk, flags=re.S)
    pk = re.sub(r"^(import|from) .*\n", "", pk, flags=re.M)
    sp = open(V + "/vlib/spool.py").read()
    dirs = re.search(r"^DIRS = \[.*?\]\n", sp, re.S | re.M)[0]
    return (open(V + "/tools/demolib_head.py").read() + "\n" + pk + "\n\n" + dirs +
            open(V + "/tools/demolib_tail.py").read())


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def main():
    sid, prop, needs, breaks = sys.argv[1:5]
    d = os.path.join(V, "seeded", sid)
    diff = subprocess.run(["git", "-C", S + "/repo", "diff"], stdout=subprocess.PIPE).stdout
    if not diff.strip():
        sys.exit("no edits")
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demolib.py", "w").write(demolib())
    shutil.copy(S + "/demo.py", d + "/demo.py")
    open(d + "/demo.sh", "w").write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = verify(sid)
    if not ok:
        shutil.move(d, S + "/rejected-" + sid) if not os.path.exists(S + "/rejected-" + sid) else shutil.rmtree(d)
        sys.exit(1)


def verify(sid):
    """in /repo itself (build.sh is tied to it); restores the tree"""
    d = os.path.join(V, "seeded", sid)
    base = sh("git -C /repo status --porcelain -uno").stdout
    if base.strip():
        sys.exit("/repo not clean")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = sh("bash /opt/vp/build.sh")
    assert r.returncode == 0, r.stdout[-2000:]
    tmp = "/tmp/seed/demo-" + sid
    shutil.rmtree(tmp, True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r0 = sh("sh %s/demo.sh" % tmp, cwd="/repo")
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            print("does not apply", a.stdout)
            return False
        t = sh("bash /opt/vp/test.sh /tmp/seed/out.json")
        o = json.load(open("/tmp/seed/out.json"))
        miss = stable - set(o["passed"])
        r1 = sh("sh %s/demo.sh" % tmp, cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
        shutil.rmtree(tmp, True)
    good = r0.returncode == 0 and r1.returncode != 0 and not miss and t.returncode in (0, 1)
    print(sid, "OK" if good else "BAD", "demo clean rc=%d patched rc=%d" % (r0.returncode, r1.returncode),
          "tests missing:", sorted(miss)[:3], r1.stdout.decode("latin1").strip()[-150:])
    if not good:
        print(r0.stdout.decode("latin1")[-800:], r1.stdout.decode("latin1")[-800:], t.stdout[-500:] if miss else "")
    return good


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--verify":
        for s in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
            verify(s)
    else:
        main()
