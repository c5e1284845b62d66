"""Writes properties.jsonl and MANIFEST.json from prop_text.py and props.py."""
import json, os
from props import PROPS
from prop_text import TEXT, NOT_APPLICABLE
HERE = os.path.dirname(os.path.abspath(__file__))
with open(HERE + "/properties.jsonl", "w") as f:
    for t in sorted(TEXT, key=lambda t: t["id"]):
        d = {k: t[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for t in sorted(TEXT, key=lambda t: t["id"]):
    p = t["id"]
    if p not in PROPS:
        assert p in NOT_APPLICABLE, p
        continue
    checks.append(dict(property=p, quick_cmd="python3-vt check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s" % p, evidence_file="evidence/%s.json" % p,
                       technique=PROPS[p].get("technique", "contract-based deductive verification of the C++ source (VC generation from clang's typed AST, z3/cvc5); bounded replay harness"),
                       level=PROPS[p].get("level", "proof"), level_note=t["note"]))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3; print(z3.get_version_string())'", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())],
               notes="No hooks in /repo are needed: the verifier reads the sources as they are; the replay harnesses compile them with -fno-access-control."),
          open(HERE + "/MANIFEST.json", "w"), indent=1)
