"""P23: who may change what through the area manager"""
from vlib.harness import Check
from vlib import afrun


def one(case):
    afrun.go(case, "P23")


CHECK = Check("P23", "exploration",
    "generated requests (right, wrong, foreign, empty and other programs' passwords; points, other zones, switching "
    "with PASSWD) from listed and unlisted nodes against random area lists, levels, keys and zones; the area list is "
    "compared before and after, answers and requests to uplinks are read back from the packets written",
    ["the answer to a subscribe or unsubscribe command may name the area asked for",
     "packets are trusted as to the sender address of a message (FTN has no proof of origin)"],
    variants=("asan", "plain"))
CHECK.phase("requests", one, 900, 9000)


def mailed(case):
    """requests that came as Internet mail, one run of ftnaf each"""
    afrun.go(case, "P23", mail=True)


CHECK.phase("mail", mailed, 250, 4000)


def files(case):
    """the same for the file areas"""
    afrun.go(case, "P23", mode="ff")


CHECK.phase("files", files, 250, 4000)
