"""Builds the small C helpers against a fresh build of the library."""
import os, subprocess
from .build import BuildError, FLAGS

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native")


def helper(src, name, variant="plain"):
    """program linked with libfidogate; returns its path"""
    root = os.path.dirname(src)
    out = os.path.join(root, "fgv-" + name)
    cc, cflags, ldflags = FLAGS[variant]
    r = subprocess.run([cc] + cflags.split() + ["-w", "-DHAVE_CONFIG_H", "-I", root, "-I", os.path.join(src, "include"),
                        os.path.join(HERE, name + ".c"), os.path.join(src, "common/libfidogate.a"), "-o", out] +
                       ldflags.split() + ["-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode("latin1")[-3000:])
    os.chmod(out, 0o755)
    return out


def shim(src, name="shim"):
    root = os.path.dirname(src)
    out = os.path.join(root, "fgv-%s.so" % name)
    r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", os.path.join(HERE, name + ".c"), "-o", out, "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode("latin1")[-3000:])
    os.chmod(out, 0o755)
    return out
