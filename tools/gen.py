"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, SIMNOTE
from checks import CHECKS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        a = dict(files=p["files"], mechanism=p["mech"])
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]:
        assert p["id"] not in CHECKS
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    if p["id"] not in CHECKS:
        raise SystemExit("no check for " + p["id"])
    checks.append(dict(property=p["id"],
                       quick_cmd="python3 tools/check.py %s" % p["id"],
                       thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique="deterministic simulation with fault injection (seeded schedule, fault and workload search)",
                       level="exploration", level_note=SIMNOTE + (p["note"] or "")))
m = dict(version=1, setup_cmd="g++ --version",
         hooks=dict(guard="NEBULA_SIM", enable="No hook is needed: every seam is below the sources (link-time interposition, instrumentation, trapped rdtsc), so the guard guards nothing and the sources are built as shipped.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="See DESIGN.md. Genuine defects found are repaired by fix: commits in /repo and listed in known_findings.json.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
