#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: one check per property of tools/properties.py."""
import json, os, sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from properties import P

BFS = "explicit-state exploration of operation histories against a reference model"
TREE = "explicit-state exploration of growing series against a reference recurrence"
ENUM = "exhaustive enumeration of bounded inputs against a reference model"
T = {
    "C01": BFS, "C02": BFS, "C03": BFS, "C04": BFS, "C05": ENUM, "C06": BFS, "C07": BFS, "C08": BFS, "C09": ENUM, "C10": ENUM,
    "C11": ENUM, "C12": ENUM, "C13": TREE, "C14": "exhaustive save/load histories over real files",
    "C15": "exhaustive crash points, failing writes and single-byte damage over real files",
    "C16": TREE, "C17": TREE, "C18": TREE, "C19": TREE, "C20": TREE, "C21": TREE,
    "C22": "explicit-state exploration with a check on every append transition",
    "C23": BFS, "C24": ENUM, "C25": ENUM, "C26": ENUM, "C27": ENUM,
    "C28": "preemption-bounded exploration of all schedules of the instrumented code, plus race detector runs",
    "C29": ENUM, "C30": ENUM, "C31": ENUM,
    "C32": "explicit-state exploration of operation histories with a restoration at every point, original and restored run in lock step",
    "C33": "explicit-state exploration of commuting diamonds and repeated transitions",
    "C34": "exhaustive enumeration of bounded inputs against the composition of calls",
    "C35": "explicit-state exploration of growing series against algebraic laws", "C36": ENUM, "C37": ENUM,
    "C38": "explicit-state exploration of operation histories of two mirrored instances in lock step",
}
NOTE = ("Holds for every case within the bounds listed in the evidence file, run on the real code of the working tree through its "
        "exported API; trusts the reference model in /verif/harness, the Go toolchain and that behaviour beyond the bounds repeats "
        "what happens within them.")
EXTRA = {
    "C15": " The kernel's file-size limit and /dev/full stand for all causes of a failing write.",
    "C28": " Preemption is between statements of the library, at most 2 (two callers) or 1 (three callers) per schedule in the quick tier; races inside a statement are left to the race detector, which runs the same callers freely.",
    "C26": " The quote currencies and asset names in the harness were taken from the original code and checked by hand.",
}
m = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="./check.sh " + p["id"] + " thorough",
                 technique=T[p["id"]], level="model_checking", level_note=NOTE + EXTRA.get(p["id"], "")) for p in P],
    not_applicable=[],
    notes="No hooks are compiled into /repo: the schedule points of C28 live in a build overlay generated at check time. "
          "Repaired defects are in known-findings.txt.",
)
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
