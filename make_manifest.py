"""Writes MANIFEST.json from properties.jsonl and the check modules present in mc/."""
import json, glob, os, ast
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    fs = glob.glob(os.path.join(here, "mc", i.lower() + "_*.py"))
    if not fs:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
        continue
    g = {}
    for n in ast.parse(open(fs[0]).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECHNIQUE", "LEVEL_NOTE", "ASSUMPTIONS", "RULE", "LEVEL"):
            try:
                g[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append(dict(
        property=i, quick_cmd="bash run.sh " + i, thorough_cmd="VERIF_TIER=thorough bash run.sh " + i,
        evidence_file="evidence/%s.json" % i, level=g["LEVEL"],
        technique=g.get("TECHNIQUE", "stateless model checking of the real code: exhaustive enumeration of all random "
                        "decisions of each ray over a grid of configurations, each path compared with an independent reference"),
        level_note=g.get("LEVEL_NOTE", "Exhaustive within the stated bounds: " + g["RULE"] + ". Assumes: " +
                         "; ".join(g["ASSUMPTIONS"]))))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks are added to /repo: the checks control randomness, file writes and solver calls from outside."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
