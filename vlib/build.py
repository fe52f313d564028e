"""Build the working tree of /repo in a private scratch directory.

The whole source tree is copied (tracked and generated files, no object
files) and compiled with the repository's own Makefile, so that the check
sees whatever sources and build rules the tree has.
"""
import os, shutil, subprocess, sys, tempfile, glob, hashlib

REPO = os.environ.get("FGV_REPO", "/repo")

FLAGS = {
    # name: (CC, CFLAGS, LDFLAGS)
    "asan": ("gcc", "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
             "-fno-sanitize-recover=undefined", "-fsanitize=address,undefined"),
    "plain": ("gcc", "-g -O1", ""),
    "msan": ("clang", "-g -O1 -fno-omit-frame-pointer -fsanitize=memory "
             "-fsanitize-memory-track-origins=1", "-fsanitize=memory"),
}

class BuildError(Exception):
    pass


def _scratch_root():
    return os.environ.get("FGV_TMP", "/tmp")


def _touch(paths, t):
    for p in paths:
        if os.path.exists(p):
            os.utime(p, (t, t))


def copy_tree(dst):
    os.makedirs(dst, exist_ok=True)
    p1 = subprocess.Popen(
        ["tar", "-C", REPO, "--exclude=./.git", "--exclude=*.o", "--exclude=*.a",
         "--exclude=./tests/*/test_*", "--exclude=./autom4te.cache",
         "-cf", "-", "."], stdout=subprocess.PIPE)
    p2 = subprocess.Popen(["tar", "-C", dst, "-xf", "-"], stdin=p1.stdout)
    p1.stdout.close()
    if p2.wait() or p1.wait():
        raise BuildError("copying the tree failed")


def build(variant="asan", keep=None):
    """Returns the src/ directory of a fresh build."""
    cc, cflags, ldflags = FLAGS[variant]
    cache = os.environ.get("FGV_BUILD_CACHE")   # development only
    if cache:
        root = os.path.join(cache, variant)
        if os.path.isdir(os.path.join(root, "src")) and not os.environ.get("FGV_REBUILD"):
            return os.path.join(root, "src")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
    else:
        root = tempfile.mkdtemp(prefix="fgv-build-", dir=_scratch_root())
    os.chmod(root, 0o755)
    copy_tree(root)
    env = {k: v for k, v in os.environ.items()
           if k not in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS")}
    env.update(CC=cc, PERL="/usr/bin/perl", LC_ALL="C.UTF-8")
    src = os.path.join(root, "src")
    need = [os.path.join(root, "config.h"), os.path.join(root, "config.status"),
            os.path.join(src, "Makefile"), os.path.join(src, "include/paths.h"),
            os.path.join(src, "include/cf_funcs.h"),
            os.path.join(src, "common/cf_funcs.c")]
    if not all(os.path.exists(p) for p in need):
        e2 = dict(env, CC="gcc")
        for cmd in (["sh", "./autogen.sh"],
                    ["./configure", "--without-news",
                     "--with-sendmail=/usr/sbin/sendmail", "--disable-extraversion"]):
            r = subprocess.run(cmd, cwd=root, env=e2, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError(r.stdout.decode("latin1")[-4000:])
    else:
        # keep automake's "regenerate me" rules quiet: fix the time order
        t = 1000000000
        for group in (["configure.ac"] , glob.glob(root + "/m4/*"),
                      ["Makefile.am", "src/Makefile.am", "tests/Makefile.am",
                       "autogen.sh", "config.pl", "build/config.make.in",
                       "build/rules.make", "build/subst.pl"],
                      ["aclocal.m4"], ["configure", "config.h.in"],
                      ["Makefile.in", "src/Makefile.in", "tests/Makefile.in"],
                      ["config.status"], ["stamp-h1"],
                      ["config.h", "build/config.make", "Makefile",
                       "src/Makefile", "tests/Makefile"],
                      ["src/include/paths.mak", "src/include/cf_funcs.mak",
                       "src/common/cf_funcs.mak", "src/common/cf_abbrev.mak",
                       "src/common/cf_env.mak"],
                      ["src/include/paths.h", "src/include/cf_funcs.h",
                       "src/common/cf_funcs.c", "src/common/cf_abbrev.c",
                       "src/common/cf_env.c"]):
            t += 100
            _touch([p if p.startswith("/") else os.path.join(root, p) for p in group], t)
    # the date parser is generated: always regenerate it from the tree
    for f in ("parsedate.c", "parsedate.h"):
        p = os.path.join(src, "common", f)
        if os.path.exists(p):
            os.unlink(p)
    for d, _, files in os.walk(src):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                if fh.read(4) == b"\x7fELF":
                    os.unlink(p)
    jobs = str(os.cpu_count() or 4)
    r = subprocess.run(["make", "-C", src, "-j" + jobs, "CC=" + cc,
                        "CFLAGS=" + cflags, "LDFLAGS=" + ldflags, "all"],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode("latin1")[-6000:])
        raise BuildError("build failed")
    return src


def cleanup(src):
    if os.environ.get("FGV_BUILD_CACHE"):
        return
    root = os.path.dirname(src)
    if os.path.basename(root).startswith("fgv-build-"):
        shutil.rmtree(root, ignore_errors=True)
