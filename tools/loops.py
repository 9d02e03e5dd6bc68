#!/usr/bin/env python3
"""Writes specx/loops.json: the loops (and stateful list operations) of the extracted code the contracts were written for.
A rejected obligation that depends on a loop that is not among them is undecided: nobody has given that loop an invariant.
Run by hand after the contracts have been brought up to date with the code; no check runs it. Needs build/<ID>/gen.rs of a run on the unchanged tree."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = set()
for f in glob.glob(f"{V}/build/C*/gen.rs"): names |= set(re.findall(r"\b(\w+__loop\d+(?:_ok)?)\(", open(f).read()))
json.dump(sorted(names), open(f"{V}/specx/loops.json", "w"), indent=0)
print(len(names))
