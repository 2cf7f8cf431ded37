#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check

NOTES = json.load(open(os.path.join(ROOT, "mc", "notes.json")))


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in check.CHECKS:
            n = NOTES.get(i, {})
            checks.append(dict(
                property=i,
                quick_cmd="./check.py " + i,
                thorough_cmd="VERIF_TIER=thorough ./check.py " + i,
                technique=n.get("technique", "stateless model checking: exhaustive enumeration of all choice sequences of a bounded driver over the real code, compared step by step with a reference model"),
                level="model_checking",
                level_note=n["note"],
            ))
        else:
            na.append(dict(property=i, reason="not built yet"))
    m = dict(version=1, setup_cmd="./check.py setup", checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
