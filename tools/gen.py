#!/usr/bin/env python3
"""Regenerates properties.jsonl, contracts/meta.json and MANIFEST.json from tools/props.py (development aid; no check runs it)."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
PN = ("Proved part: every obligation of contracts/{id}.rs is discharged by Verus (Z3) for all inputs, over mathematical integers and sequences, on text extracted mechanically from the code that runs, on every run. "
      "Trusted: specr-transpile, the extractor and its listed droppings, the shim's definitions of libspecr operations, Verus/Z3. ")
BN = "Bounded stand-in, never counted as proved: {what}"
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"],
                                why_tests_cant=p["why"], anchors=p["anchors"])) + "\n")
meta, checks, na = {}, [], []
for p in PROPS:
    i = p["id"]
    if p.get("na"): na.append(dict(property=i, reason=p["na"])); continue
    con, e2e, har = os.path.isfile(f"{V}/contracts/{i}.rs"), os.path.isfile(f"{V}/e2e/{i}.py"), bool(glob.glob(f"{V}/replay/{i}_*.rs"))
    if not (con or e2e or har): na.append(dict(property=i, reason="not built yet")); continue
    b = []
    if har: b.append("native harness on the transpiled crate" + (": " + p["harness"] if p.get("harness") else ""))
    if e2e: b.append("sampled Rust programs run through minimize and compared with rustc's native execution or a hand-written expectation")
    meta[i] = dict(harness=p.get("harness", ""), assumptions=p.get("assumptions", []), trusted=p.get("trusted", []),
        rule=p.get("rule", "cases are enumerated or drawn from VERIF_SEED and compared with an oracle written independently of the code; a case counts once per distinct description (inputs and configuration)"))
    tech = ("contract-based deductive verification: postconditions on mechanically extracted functions, discharged by Verus (Z3)" if con else "no contract in reach yet: labelled bounded check")
    if con and b: tech += "; labelled bounded stand-in for what is out of its reach: " + "; ".join(b)
    elif b: tech += ": " + "; ".join(b)
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough", technique=tech,
        level="proof" if con else "exploration",
        level_note=((PN.format(id=i) if con else "") + (BN.format(what="; ".join(b)) + ". " if b else "") + p["note"]).strip()))
json.dump(meta, open(f"{V}/contracts/meta.json", "w"), indent=1)
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
   notes="No hooks in /repo are needed: the checks transpile /repo/spec into their own build directory, and the harness modules are appended to that copy."), open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")

import re
with open(f"{V}/OBLIGATIONS.md", "w") as o:
    o.write("# Obligations (generated by tools/gen.py)\n")
    for p in PROPS:
        f = f"{V}/contracts/{p['id']}.rs"
        if not os.path.isfile(f): continue
        L = open(f).read().split("\n"); o.write(f"\n## {p['id']} {p['title']}\n\n")
        for n, l in enumerate(L):
            if g := re.match(r"pub proof fn (\w+)", l):
                d, j = [], n - 1
                while j >= 0 and L[j].startswith("//"): d.insert(0, L[j].lstrip("/ ")); j -= 1
                o.write(f"- `{g[1]}`" + (": " + re.sub(r"^-{5,} *", "", " ".join(d)) if d else "") + "\n")
