"""P20: FTN echomail -> news"""
from vlib.harness import Check
from vlib.spool import Spool
from vlib import ungate

def one(case):
    ungate.run_case(case, ["echo"], Spool)

def mixed(case):
    ungate.run_case(case, ["echo", "echo", "net"], Spool, 30)

CHECK = Check("P20", "exploration",
              "each echomail message of a configured area is exactly one article of the byte-exact batch (or of its own file) with the modelled newsgroup, path, author, subject, date, addressee, origin and text, decoded by an independent MIME reader",
              ["text lines of up to some ten thousand characters; characters the output charset does not have may be replaced"], variants=("asan", "plain"))
CHECK.phase("echomail", one, 260, 6000)
CHECK.phase("mixed", mixed, 100, 2500)
