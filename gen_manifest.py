#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, the rules and not_applicable.json."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "checker"), os.path.join(V, "checker", "rules")]
sys.dont_write_bytecode = True
checks = []
na = json.load(open(os.path.join(V, "not_applicable.json")))
skip = {x["property"] for x in na}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    if p["id"] in skip:
        continue
    m = importlib.import_module(p["id"].lower())
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": getattr(m, "TECHNIQUE", "abstract interpretation of compiler MIR: path-sensitive trace rules"),
        "level": getattr(m, "LEVEL", "other"),
        "level_note": "Static decision over all abstract paths of the MIR of the current source, loops widened so one "
                      "abstract iteration stands for all. " + m.RULE + " Trusts the MIR extraction and the transfer "
                      "functions for std and dependency calls; constructs it does not recognise are reported as "
                      "undecided in the evidence.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 checker/build.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "One engine (driver/ extracts MIR facts with a rustc driver; checker/ interprets them abstractly), one rule "
             "file per property in checker/rules. Recorded findings: known_findings.txt. See DESIGN.md.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")


def design():
    import re
    path = os.path.join(V, "DESIGN.md")
    s = open(path).read()
    props = []
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        props.append("### %s %s\n" % (p["id"], p["title"]))
        props.append(p["statement"] + "\n")
        if p["id"] in skip:
            props.append("Not applicable, see below.\n")
            continue
        m = importlib.import_module(p["id"].lower())
        props.append("*Decided by* (%s): %s\n" % (getattr(m, "TECHNIQUE", "path-sensitive trace rules over MIR"), m.RULE))
        props.append("*Why tests cannot settle it*: %s Ranges over: %s.\n" % (p["why_tests_cant"], p["quantifier"]["text"]))
        if getattr(m, "LIMITS", None):
            props.append("*Limits*: %s\n" % m.LIMITS)
    cat = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    cj = os.path.join(V, "catches.json")
    caught = json.load(open(cj)) if os.path.exists(cj) else {}
    sd = os.path.join(V, "seeded")
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        cat.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(caught.get(i, [])) or "missed"))
    fnd = ["* " + l.strip() for l in open(os.path.join(V, "known_findings.txt")) if l.strip() and not l.startswith("#")]
    nas = ["* %s: %s" % (x["property"], x["reason"]) for x in na] or ["none"]
    for name, body in (("properties", props), ("catches", cat), ("findings", fnd), ("na", nas)):
        a, b = "<!-- begin generated: %s -->" % name, "<!-- end generated: %s -->" % name
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + "\n" + "\n".join(body) + "\n" + s[j:]
    open(path, "w").write(s)


design()
