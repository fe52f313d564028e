from vlib.harness import Check
from vlib import tosscheck as tc

W = {"linked": 0.5, "pw": 0.6, "badpw": 0.4, "tous": 0.75, "unknown": 0.2, "kill": 0.15, "repeat": 0.03, "state": 0.0}


def one(case):
    for s, pkts, exp, got in tc.rounds(case, W, case.rng.choice([1, 2, 2, 3])):
        tc.note(case, s, pkts, exp)
        tc.quarantine(case, s, pkts, exp, got)


CHECK = Check("P04", "exploration",
              "distinct (expected outcome list, configuration) combinations of whole tosser runs; "
              "every message copy found in the output, bad and inbound directories is identified by "
              "a unique line and compared with an independent model of the tosser",
              ["the tosser is run alone on its spool (concurrency and faults: P09-P12)",
               "clock fixed to UTC; link addresses differ in net/node/point, not only in zone"])
CHECK.phase("random", one, 1100, 30000)
