#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing; both are committed)."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
L = "crates/mirror-mirror/src/"
M = "crates/mirror-mirror-macros/src/derive_reflect/"
TECH = "path-sensitive abstract interpretation of compiler MIR (provenance domain, trace partitioning)"
NOTE = ("Every abstract path of each obligation is enumerated; sequences, maps and dynamic values are bounded in length and depth "
        "(see evidence 'bounds'), the derive macro through a covering family of types. std items are transfer functions.")
PROPS = []
NA = []


def prop(id, title, statement, over, text, tests, files, mech, state=None, observe=None, claim=True, technique=TECH, note=NOTE, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    PROPS.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a}, claim, technique, note, na))


exec(open(os.path.join(ROOT, "meta_props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, *_ in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p, claim, technique, note, why in PROPS:
    if claim:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                       "technique": technique, "level": "other", "level_note": note})
    else:
        na.append({"property": p["id"], "reason": why})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the analysis reads the compiler's MIR of the library and of the client crate in witness/. Repairs are the fix: commits; see known-findings.txt and DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
