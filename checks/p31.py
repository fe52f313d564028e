"""P31: maintenance of the area list, areas created by incoming mail"""
from vlib.harness import Check
from vlib import afutil

CHECK = Check("P31", "exploration",
    "ftnafutil's commands run on generated area and file area lists; the written list is parsed by an independent "
    "reader and compared with a model, requests to uplinks, notifications and listings are read back; mail for "
    "unknown areas is tossed and announced from systems with and without the right to create them",
    ["days are counted in whole 24 hours; ages are kept half a day off the limits"],
    variants=("asan", "plain"))
CHECK.phase("maintenance", afutil.maint, 500, 6000)
CHECK.phase("created-by-mail", afutil.mailed, 500, 6000)
