#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and the rule registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "hooqlint"))
from registry import PROPS  # noqa: E402

sys.path.insert(0, os.path.join(HERE, 'tools'))
from properties_src import PROPERTIES, NOT_APPLICABLE  # noqa: E402


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    ids = {p["id"] for p in PROPERTIES}
    assert set(PROPS) <= ids, set(PROPS) - ids
    na = [{"property": k, "reason": r} for k, r in NOT_APPLICABLE.items()]
    for i in ids - set(PROPS) - set(NOT_APPLICABLE):
        na.append({"property": i, "reason": "no check yet"})
    checks = []
    for i in sorted(PROPS):
        checks.append({
            "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": PROPS[i].get("technique", "abstract interpretation of MIR (provenance terms, trace partitioning, decision-diagram guards)"),
            "level": "other",
            "level_note": PROPS[i].get("note", "Every obligation is decided over all paths of the functions named in the evidence, for all inputs, on the MIR of the current tree. ") + " Trusts the MIR dump of nightly rustc, the summaries of library functions in hooqlint/models.py and the reading of syn's type graph; nothing is executed.",
        })
    json.dump({"version": 1, "setup_cmd": "python3 hooqlint/build.py default consume", "checks": checks, "not_applicable": sorted(na, key=lambda x: x["property"]),
               "notes": "Static analysis only: a rustc driver dumps the MIR of /repo's crates, hooqlint interprets it abstractly and checks each property's rules on the result. No hooks in /repo."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
