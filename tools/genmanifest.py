#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
src = open(here + "/orch/evidence.go").read()
claimed = set(re.findall(r'\bdef\("(C\d\d)"', src))
na = {
 "C22": "pure function of its argument: no schedule, clock, I/O or second party can influence it, so simulation with faults adds nothing to plain input generation",
 "C23": "pure function of a string: there is no nondeterminism or fault for a simulation to control",
 "C24": "pure arithmetic on two ids: there is no nondeterminism or fault for a simulation to control",
 "C25": "pure conversions: there is no nondeterminism or fault for a simulation to control",
}
m = {"version": 1, "setup_cmd": "./run.sh build",
 "checks": [], "not_applicable": [],
 "notes": "see DESIGN.md; /repo carries no hooks: the checks instrument copies of its sources through go build -overlay; VERIF_SEED selects the seed, a replay file is run with './run.sh replay FILE'"}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh check {i}",
         "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {i}",
         "technique": "deterministic simulation with fault injection (seeded search over schedules, network behaviour and faults)",
         "level": "exploration",
         "level_note": "the real code runs under a simulated scheduler, clock and network; every run is checked while it proceeds and over its history; what was not drawn is not covered. Trusts the simulated network's TCP model, the harness's own codec and oracles, and that interleaving at statement boundaries and blocking operations is fine enough"})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check yet")})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed")
