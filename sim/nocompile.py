#!/usr/bin/env python3
"""Reports that the code generated from the corpus does not compile any more."""
import json, os, re, sys, time
mode, pid, log = sys.argv[1:4]
text = open(log, errors="replace").read()
errors = re.findall(r"^error[^\n]*(?:\n[^\n]+){0,6}", text, re.M)[:5]
V = os.environ["VERIF_DIR"]
if mode == "replay":
    f = sys.argv[4]
else:
    f = f"{V}/replays/{pid}-nocompile.json"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    json.dump({"property": pid, "class": "generated_code_does_not_compile", "detail": errors, "scenario": None}, open(f, "w"), indent=1)
    json.dump({"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": seed, "level": "exploration",
               "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": "the code generated from the corpus did not compile, so no run took place", "samples": errors},
               "wall_s": 0.0, "violations": 1}, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
print("class: generated_code_does_not_compile")
for e in errors:
    print(e)
print(f"VIOLATION property={pid} replay={f}")
sys.exit(1)
