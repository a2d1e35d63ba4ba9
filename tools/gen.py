#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from props.py and the checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, REASONS   # noqa

TECH = ("symbolic execution of the /repo Python sources, obligations decided "
        "by z3, counterexamples replayed on the real code")
NOTE = ("Holds for every value within the stated bounds (sizes, numbers of "
        "lines/points/coefficients, value ranges in the harness and in the "
        "evidence); real arithmetic stands for float rounding; numpy, scipy "
        "and OpenCV primitives are modelled and the models are compared with "
        "the real libraries by replaying a witness of every path class.")


def main():
    out, checks = [], []
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["id"]
        out.append(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[
                dict(name=m, where=p["files"][0]) for m in p["mech"]])))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for o in out:
            f.write(json.dumps(o) + "\n")
    na = [dict(property=p["id"], reason=REASONS[p["id"]])
          for p in NOT_APPLICABLE]
    for p in PROPS:
        if os.path.exists(os.path.join(ROOT, "checks",
                                       p["id"].lower() + ".py")):
            checks.append(dict(
                property=p["id"], quick_cmd="./check.sh %s quick" % p["id"],
                thorough_cmd="./check.sh %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique=TECH, level="model_checking", level_note=NOTE))
        else:
            na.append(dict(property=p["id"], reason="not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
             not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "not applicable")


main()
