"""P19: FTN netmail -> Internet mail"""
from vlib.harness import Check
from vlib.spool import Spool
from vlib import ungate

def one(case):
    ungate.run_case(case, ["net"], Spool)

def mixed(case):
    ungate.run_case(case, ["net", "net", "echo"], Spool)

CHECK = Check("P19", "exploration",
              "each netmail of the packets becomes exactly one mail with the modelled envelope, recipients, sender, subject, date, identity and text (decoded by an independent MIME reader in the declared charset), or the modelled bounce",
              ["text lines of up to some ten thousand characters; characters the output charset does not have may be replaced"], variants=("asan", "plain"))
CHECK.phase("netmail", one, 260, 6000)
CHECK.phase("mixed", mixed, 100, 2500)
