#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness's list of properties."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
TECH = {
}
src = open(os.path.join(ROOT, "harness/src/props/mod.rs")).read()
have = set(x.upper() for x in re.findall(r"\b(c\d\d)::prop\(\)", src))
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in have:
        t = open(os.path.join(ROOT, "harness/src/props/%s.rs" % i.lower())).read()
        tech = re.search(r"//! technique: (.*)", t).group(1)
        checks.append({
            "property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "./check.py %s --tier thorough" % i,
            "technique": tech, "level": "exploration",
            "level_note": "Generated-input search in two builds (with and without debug assertions and overflow checks) against an explicit oracle: " + tech +
                          ". Finds counterexamples within the generated sizes, never proves absence; trusts the independent model in harness/src and the installed rustc.",
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Replays: ./check.py --replay FILE."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
