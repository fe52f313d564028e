"""P26: verification of announcements and containment of names"""
from vlib.harness import Check
from vlib import tickrun


def one(case):
    tickrun.go(case, "P26")


CHECK = Check("P26", "exploration",
    "hostile file announcements (wrong password, sender, size, checksum, area; names with separators, parent "
    "directories, shell characters in every field) against installations with canary files; every file of the "
    "installation is compared with a model before and after",
    ["runs as an unprivileged user inside a scratch directory",
     "the checksum is judged if its test is compiled in (configure option, default)"],
    variants=("asan",))
CHECK.phase("hostile", one, 500, 6000)
