#!/usr/bin/env python3
"""Development tool: fills the tables of DESIGN.md from evidence/ (quick runs)
and from the output of "plant.py check" given as arguments."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = HERE + "/DESIGN.md"
text = open(path, encoding="utf-8").read()


def fill(name, lines):
    global text
    text = re.sub("(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m[1] + "\n".join(lines) + "\n" + m[2], text, flags=re.S)


def cell(s):
    return s.replace("|", "\\|").replace("\n", " ")


out = []
for f in sorted(glob.glob(HERE + "/evidence/C*.json")):
    d = json.load(open(f))
    cov = d["coverage"]
    assert d["tier"] == "quick", f
    out += ["### %s" % d["property"], "", "%d states, %d transitions, %d executions compared; %.0f CPU seconds." % (
        cov["states"], cov["transitions"], cov["traces_validated_against_impl"], sum(s["cpu_s"] for s in cov["scopes"])), "",
        "| scope | bound | states |", "|--|--|--|"]
    out += ["| %s | %s | %d |" % (s["name"], cell(s["bound"]), s["states"]) for s in cov["scopes"]] + [""]
fill("scopes", out)

caught = {}
for f in sys.argv[1:]:
    for line in open(f, encoding="utf-8"):
        m = re.match(r"(CAUGHT|MISSED) (\S+) by (\S+) rc=\d+ +(?:counterexample \(([^)]*)\))?", line)
        if m:
            caught.setdefault(m[2], {})[m[3]] = (m[1], m[4])
if caught:
    out = ["| planted bug | needs | caught by |", "|--|--|--|"]
    for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
        i = d.split("/")[-2]
        by = ", ".join("%s %s" % (c, s) if r == "CAUGHT" else "missed by " + c for c, (r, s) in sorted(caught.get(i, {}).items())) or json.load(open(d))["property"] + ", when planted"
        out.append("| %s | %s | %s |" % (i, cell(json.load(open(d))["needs"]), by))
    fill("plants", out)
open(path, "w", encoding="utf-8").write(text)
