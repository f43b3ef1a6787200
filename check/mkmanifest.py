#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    titles[d["id"]] = d["title"]
NA = {
}
checks = []
for p in sorted(PROPS):
    checks.append(dict(
        property=p,
        quick_cmd="VERIF_TIER=quick python3 check/check.py %s" % p,
        thorough_cmd="VERIF_TIER=thorough python3 check/check.py %s" % p,
        technique="contract-based deductive verification: Verus contracts woven into code extracted mechanically from /repo/src on every run",
        level="proof",
        level_note=PROPS[p].get("note") or "Every obligation Verus generates for the functions under contract is discharged, for all inputs and without bounds; trusted: the contracts assumed for std and the async libraries (contracts/prelude.rs), the extraction (vx) and Verus/Z3. If the code no longer matches the contracts' anchors the check falls back to a bounded concrete search and says so in its evidence."))
na = [dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in PROPS]
for p in sorted(titles):
    if p not in PROPS and p not in NA:
        na.append(dict(property=p, reason="not claimed yet: its contracts are still being written"))
m = dict(version=1, setup_cmd="python3 check/setup.py",
         hooks=dict(guard="--cfg ruq_verif", enable="RUSTFLAGS='--cfg ruq_verif' (only for the concrete search in /verif/harness; the proofs read the plain source)", source_commits=["720d373"]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
