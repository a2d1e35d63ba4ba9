#!/usr/bin/env python3
"""DESIGN.md from docs/head.md, the catalogue, the checks and docs/tail.md.
Run with /opt/venv/bin/python."""
import glob
import importlib
import json
import os
import sys
import textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
from props import PROPS   # noqa


def wrap(s, first="", rest=""):
    return textwrap.fill(" ".join(s.split()), 79, initial_indent=first,
                         subsequent_indent=rest, break_long_words=False)


def read(n):
    with open(os.path.join(ROOT, n)) as f:
        return f.read().rstrip() + "\n"


def main():
    seeds = {}
    for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        with open(m) as f:
            d = json.load(f)
        sid = os.path.basename(os.path.dirname(m))
        seeds.setdefault(d["property"], []).append((sid, d))
    out = [read("docs/head.md"), "\n## The properties\n",
           wrap("For each property: the oracle is the statement in "
                "properties.jsonl, written in `checks/cNN.py` as assertions "
                "over symbolic inputs and the outputs of the executed code; "
                "listed are the functions it goes through, and the harnesses "
                "with their bounds (quick tier; thorough uses larger ones). "
                "A quick check takes 1-70 s.") + "\n"]
    for p in PROPS:
        m = importlib.import_module("checks." + p["id"].lower())
        out.append("\n### %s %s\n" % (p["id"], p["title"]))
        out.append(wrap("Functions: " + ", ".join(
            "`%s`" % x for x in p["mech"]) + "."))
        out.append(wrap("Why tests cannot settle it: " + p["why"] + "."))
        for h in m.HARNESSES:
            doc = (h.fn.__doc__ or "").strip()
            s = "* `%s`" % h.name
            if doc:
                s += ": " + doc
            if h.bounds:
                s += ". Bounds: " + h.bounds
            s += " (%d quick runs)." % len(h.quick)
            out.append(wrap(s, "", "  "))
        a = getattr(m, "ASSUMPTIONS", None)
        if a:
            out.append(wrap("Assumed: " + "; ".join(a) + "."))
        if p["id"] in seeds:
            out.append(wrap("Planted bugs: " + "; ".join(
                "%s (%s)" % (s, d["what_it_breaks"])
                for s, d in seeds[p["id"]]) + "."))
    out.append("\n" + read("docs/tail.md"))
    out.append("\n## Planted bugs and the checks that catch them\n")
    out.append("| id | property | needs | caught by |\n|---|---|---|---|")
    for pid in sorted(seeds):
        for s, d in seeds[pid]:
            out.append("| %s | %s | %s | %s |" % (
                s, pid, d["needs"], d.get("caught_by", "`check.sh %s`" % pid)))
    out.append("\n## Genuine defects found (all repaired)\n")
    for f in json.loads(read("known_findings.json"))["fixed"]:
        out.append(wrap("* " + f, "", "  "))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out).rstrip() + "\n")


main()
