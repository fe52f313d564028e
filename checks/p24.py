"""P24: subscription commands against a model of the area list"""
from vlib.harness import Check
from vlib import afrun


def one(case):
    afrun.go(case, "P24")


CHECK = Check("P24", "exploration",
    "generated request messages are applied to a model of the area list; the written areas.bbs is parsed by an "
    "independent reader and compared area by area, option by option and in order, lists in answers and requests to "
    "uplinks are compared with the model; several rounds feed each written list back to the program",
    ["the first line of the file is its only comment", "the node list behind the uplinks is written sorted"],
    variants=("asan", "plain"))
CHECK.phase("commands", one, 900, 9000)


def long(case):
    afrun.go(case, "P24", True)


CHECK.phase("long-answers", long, 60, 800)


def mailed(case):
    """requests that came as Internet mail, one run of ftnaf each"""
    afrun.go(case, "P24", mail=True)


CHECK.phase("mail", mailed, 250, 4000)


def operator(case):
    """commands given on the command line of ftnaf"""
    afrun.go(case, "P24", mail="cmd")


CHECK.phase("operator", operator, 250, 4000)


def files(case):
    """the same for the file areas"""
    afrun.go(case, "P24", mode="ff")


CHECK.phase("files", files, 250, 4000)
