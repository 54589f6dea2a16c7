"""Writes properties.jsonl and MANIFEST.json from one table: python3 gen_manifest.py."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
TRUST = ("Static verdict over every path of the analysed functions (libclang syntax trees, value numbering, loop bodies analysed for a generic "
         "iteration). Trusted: the tables of standard-library semantics in analysis/engine.py and unbounded-integer arithmetic. A construct the "
         "rule does not recognise is listed as undecided in the evidence and is not reported as a violation. ")

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
                      technique=technique, note=note, na=na))


exec(open(os.path.join(H, "property_table.py")).read())

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 analysis/check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 analysis/check.py %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": TRUST + p["note"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: analysis/export.cc (libclang) exports the type-checked program from /repo's current sources, "
                    "analysis/engine.py summarises every path, analysis/rules/*.py decide. Nothing of /repo is executed. No hooks."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
