"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json, os
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
REASONS = json.load(open("tools/not_applicable.json")) if os.path.exists("tools/not_applicable.json") else {}
for p in props:
    f = "checks/%s.py" % p["id"]
    if not os.path.exists(f) or p["id"] in REASONS:
        na.append(dict(property=p["id"], reason=REASONS.get(p["id"], "the monitor for this property is not built yet")))
        continue
    tree = ast.parse(open(f).read())
    v = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "TECHNIQUE", "NOTE", "LEVEL"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p["id"], quick_cmd="bash run.sh %s" % p["id"], thorough_cmd="bash run.sh %s --tier thorough" % p["id"],
                       technique=v.get("TECHNIQUE", "runtime monitoring: online oracles over randomised executions of the real code"),
                       level=v.get("LEVEL", "exploration"),
                       level_note=v.get("NOTE", "Holds on every execution observed: " + v["RULE"] + ". Trusts the oracle implementation in /verif, NumPy and the installed dependencies.")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="Every check runs the real code of /repo's working tree (imported through PYTHONPATH, nothing is cached) under randomised workloads while monitors judge what they observe; see DESIGN.md. No hooks in /repo are needed."),
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
