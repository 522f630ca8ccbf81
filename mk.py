#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list of properties in props/*.json5-like python files."""
import json, os, runpy
here = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
for f in sorted(os.listdir(os.path.join(here, "props"))):
    if f.endswith(".py"):
        g = runpy.run_path(os.path.join(here, "props", f))
        P += g.get("PROPS", [])
        NA += g.get("NOT_APPLICABLE", [])
P.sort(key=lambda p: p["id"])
def prop(p):
    return {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in sorted(P + NA, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(prop(p)) + "\n")
NOTE = ("Static: every obligation is decided from the type-checked SSA form of the current source on all paths of the analysed "
        "functions (path conditions, call summaries, may-writes). Assumes that external packages behave as documented, that the "
        "analyser's aliasing rules (writes to the same field of any object may alias) are adequate, and decides the structural "
        "conditions named in the technique, not numerical results. ")
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "technique": p["technique"], "level": "other",
                 "level_note": NOTE + p.get("note", "")} for p in P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "One analyser (tool/) decides all properties; there is no sampling, so quick and thorough coincide."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md: design/head.md, the rules as the analyser states them, design/tail.md
import re, glob
rules = {}
for f in glob.glob(os.path.join(here, "tool", "rules_*.go")):
    for m in re.finditer(r'register\(&Check\{(.*?)Run:', open(f).read(), re.S):
        b = m.group(1)
        t = re.search(r'Rule:\s*((?:"(?:[^"\\\\]|\\\\.)*"[\s+]*)+)', b).group(1)
        rules[re.search(r'ID:\s*"(\w+)"', b).group(1)] = "".join(json.loads(x) for x in re.findall(r'"(?:[^"\\\\]|\\\\.)*"', t))
out = open(os.path.join(here, "design", "head.md")).read() + "## Properties: what is decided, and how\n\n"
for p in P:
    out += "**%s %s.** %s *(%s)*\n\nRule: %s\n\n" % (p["id"], p["title"], p.get("note", ""), p["technique"], rules[p["id"]])
out += "Why the tests cannot settle them is stated per property in properties.jsonl. Cost: about 10 s and 1.5 GB per property on one core, mostly loading.\n\n## Seeded changes\n\n"
out += "Written from the statements alone and kept in `seeded/`; 'caught by' as found by running the check of the property.\n\n| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
caught = json.load(open(os.path.join(here, "design", "caught.json")))
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out += "| %s | %s | %s | %s | %s |\n" % (n, m["property"], m["what_it_breaks"], m["needs"], caught.get(n, "?"))
out += open(os.path.join(here, "design", "tail.md")).read()
open(os.path.join(here, "DESIGN.md"), "w").write(out)
