from vlib.harness import Check
from vlib import tosscheck as tc

W = {"addto": 0.3, "repeat": 0.02, "dupecheck": 0.3, "linked": 0.95, "tous": 1.0, "unknown": 0.0, "badpw": 0.0, "state": 0.0, "sb_link": 0.4}


def one(case):
    for s, pkts, exp, got in tc.rounds(case, W, case.rng.choice([1, 2, 2, 3])):
        tc.note(case, s, pkts, exp)
        tc.seenpath(case, s, pkts, exp, got)


CHECK = Check("P03", "exploration",
              "distinct (expected outcome list, configuration) combinations of whole tosser runs; "
              "every message copy found in the output, bad and inbound directories is identified by "
              "a unique line and compared with an independent model of the tosser",
              ["the tosser is run alone on its spool (concurrency and faults: P09-P12)",
               "clock fixed to UTC; link addresses differ in net/node/point, not only in zone"])
CHECK.phase("random", one, 1100, 30000)
