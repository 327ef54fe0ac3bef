"""Writes /verif/MANIFEST.json from rv/props.json and properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
meta = json.load(open(os.path.join(R, "rv/props.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in meta:
        m = meta[i]
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                           evidence_file=f"evidence/{i}.json", technique=m["technique"], level=m.get("level", "exploration"), level_note=m["note"]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
out = dict(version=1, setup_cmd="sh tools/setup.sh", hooks=dict(guard="ASYNCZ_RV", enable="no hooks are needed: the checks observe the unmodified code through its public interfaces"),
           checks=checks, not_applicable=na,
           notes="Every check runs real asyncz code from /repo's working tree in worker processes under a harness-owned clock; see DESIGN.md.")
del out["hooks"]
json.dump(out, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "unclaimed")
