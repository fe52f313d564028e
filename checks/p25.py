"""P25: distribution of announced files"""
from vlib.harness import Check
from vlib import tickrun


def one(case):
    tickrun.go(case, "P25")


CHECK = Check("P25", "exploration",
    "generated file announcements in several runs (right and wrong ones, repeated, renamed, replacing, waiting for "
    "their file) against random file areas; every file of the installation is compared with a model before and after, "
    "every description file written is read back by an independent reader",
    ["file areas are fed top-down: the nodes counted by -u are uplinks and are not sent to (documented)"],
    variants=("asan",))
CHECK.phase("ticker", one, 500, 6000)
CHECK.phase("hatch", tickrun.go_hatch, 200, 2000)
