"""Write properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
HERE = props.HERE
NA = getattr(props, "NOT_APPLICABLE", [])
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in props.P:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                                       hook_needed=None))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        fh.write(json.dumps(d) + "\n")
checks = []
for p in props.P:
    if p["id"] in [n["property"] for n in NA]:
        continue
    assert os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")), p["id"]
    checks.append(dict(property=p["id"], quick_cmd="./run_check.sh %s quick" % p["id"],
                       thorough_cmd="./run_check.sh %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                       technique="property-based testing (Hypothesis) against " + (p["note"] or "an independent reference model"),
                       level="exploration",
                       level_note="Generated-input search with shrinking; holds on every case generated, no proof beyond them. Trusts numpy/scipy, Hypothesis and the oracle in checks/%s.py." % p["id"].lower()))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA,
         notes="No hooks in /repo. All commits in /repo are fix: commits for genuine defects, listed in known_findings.txt.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks")
