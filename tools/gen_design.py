#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: per-property sections from tools/design.json, the table of planted changes."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = json.load(open(H + "/tools/design.json"))
T = json.load(open(H + "/tools/techniques.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
out = ["## Properties", ""]
for p in props:
    out += ["### %s %s" % (p["id"], p["title"]), "", D["props"].get(p["id"], "(monitor not built yet)"), ""]
seed = ["| change | property | needs | noticed by |", "|---|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    seed.append("| `%s` | %s | %s | %s |" % (i, m["property"], m["needs"], D["caught"].get(i, "not run yet")))
s = open(H + "/DESIGN.md").read()


def fill(s, tag, body):
    blk = "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, body, tag)
    if "@@%s@@" % tag in s:
        return s.replace("@@%s@@" % tag, blk)
    return re.sub(r"<!-- %s -->.*<!-- /%s -->" % (tag, tag), lambda m: blk, s, flags=re.S)


s = fill(s, "PROPS", "\n".join(out))
s = fill(s, "SEEDED", "\n".join(seed))
open(H + "/DESIGN.md", "w").write(s)
