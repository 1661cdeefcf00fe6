#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
CLAIMED = "S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11 L01 L02 L03 U01 K01 O01 O02 O03 T01 I01 I02 G01 W01".split()
PURE = {
 "B01": "pure arithmetic over an in-memory book: no concurrency, time, I/O or second party for a simulator to control; the outcome is a function of the input alone, so a schedule or fault search adds nothing over input generation",
 "B02": "pure function from a book and an operation list to a book; no nondeterminism, I/O or time (the date-dependent part is T01, the hash-order part O02)",
 "P01": "pure function from price list and date to a price; no nondeterminism, I/O or time (hash-order effects are decided by O02)",
 "D01": "pure calendar arithmetic; no nondeterminism, I/O or time (which day is 'today' is T01)",
 "X01": "pure numerical iteration over a cash flow; nothing for a scheduler or fault injector to vary",
 "R01": "pure running sum over a loaded book; nothing for a scheduler or fault injector to vary",
 "F01": "pure number formatting; nothing for a scheduler or fault injector to vary",
 "E01": "pure print/parse round trip; nothing for a scheduler or fault injector to vary (the import round trip through the ledger file is I01)",
 "C01": "pure data conversion; the I/O side (short reads, read errors) is I02, the rest does not depend on schedules or faults",
}
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
          "technique": "deterministic simulation of the real program (simulated kernel, disk, clock, network, banks) with seeded schedules and fault injection",
          "level": "exploration",
          "level_note": "seeded search over simulated histories, schedules and faults; not exhaustive; see DESIGN.md for the bounds and the modelled environment"})
    elif i in PURE:
        na.append({"property": i, "reason": PURE[i]})
    else:
        na.append({"property": i, "reason": "the check is not finished yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
