#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib")
sys.dont_write_bytecode = True
import checks
T = json.load(open(HERE + "/tools/techniques.json"))
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = dict(
    version=1, setup_cmd="python3 /verif/tools/setup.py",
    hooks=dict(guard="DISTRIBUTIONS_VERIF", enable="no hooks were needed: every monitor observes through the public interface "
               "and builds /repo's sources as they are", source_commits=[]),
    checks=[dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
                 evidence_file="evidence/%s.json" % p, level="exploration", **T[p]) for p in props if p in checks.CHECKS],
    not_applicable=[dict(property=p, reason=T.get("na:" + p, "monitor not built yet")) for p in props if p not in checks.CHECKS])
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
