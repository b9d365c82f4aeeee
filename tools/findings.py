"""Adds a 'fixed' entry to known_findings.json for each fix: commit of /repo (run by hand while developing; checks never write that file)."""
import json, subprocess
PROP = {"f41049a": "P01", "d714b1c": "P03", "1240950": "P03", "3d1e22a": "P04", "ff0c0c8": "P05", "f9b473b": "P06", "43c8ddd": "P16", "8d2c572": "P07", "83eaa19": "P07",
        "e133ee9": "P07", "89a3394": "P09", "28ea0fa": "P23", "d9878de": "P09", "edcbb0c": "P13", "1e24bec": "P13", "590e45c": "P13", "6bdf3d2": "P13", "1584a15": "P18",
        "cd14fed": "P13", "f680145": "P13", "9be4fe8": "P13", "afa4353": "P12", "c9c1f28": "P15"}
PROP.update(json.load(open("tools/fix_props.json")))
d = json.load(open("known_findings.json"))
known = [f for f in d["findings"] if f["status"] == "known"]
fixed = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        fixed.append(dict(property=PROP[h], status="fixed", commit=h, what="fixed: property=%s %s %s" % (PROP[h], h, s[5:])))
json.dump(dict(findings=known + fixed), open("known_findings.json", "w"), indent=1)
print(len(known), "known", len(fixed), "fixed")
