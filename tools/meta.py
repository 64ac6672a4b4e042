#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, HOOK_COMMITS
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in PROPS:
    if "technique" not in p:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check " + p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "hooks": {
        "guard": "zokrates_pbt",
        "enable": "RUSTFLAGS='--cfg zokrates_pbt' (set by /verif/env.sh for every harness build)",
        "source_commits": HOOK_COMMITS,
    },
    "checks": checks,
    "not_applicable": NOT_APPLICABLE,
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(root + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
    print("valid")
except ImportError:
    print("not validated")

# DESIGN.md
import glob
from design import D, BUGS
t = open(here + "/design.tmpl.md").read()
out = []
for p in PROPS:
    g, o, b = D[p["id"]]
    out.append("### %s %s\n\n*Generated.* %s\n\n*Oracle.* %s\n\n*Bounds and cost.* %s\n\n*Beyond the tests.* %s\n" % (p["id"], p["title"], g, o, b, p["why_tests_cant"]))
for n in NOT_APPLICABLE:
    out.append("### %s (not applicable)\n\n%s\n" % (n["property"], n["reason"]))
bugs = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); b = f.split("/")[-2]
    bugs.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], BUGS.get(b, m["property"])))
k = json.load(open(root + "/known_findings.json"))
fs = ["Recorded (each identified by its signature; anything else is still reported):", ""]
fs += ["- %s `%s`: %s" % (x["property"], x["sig"], x["what"]) for x in k["findings"]]
fs += ["", "Repaired:", ""] + ["- " + x[7:] for x in k["fixed"]]
t = t.replace("@@PROPS@@", "## Properties\n\n" + "\n".join(out)).replace("@@BUGS@@", "\n".join(bugs)).replace("@@FINDINGS@@", "\n".join(fs))
open(root + "/DESIGN.md", "w").write(t)
