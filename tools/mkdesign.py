#!/usr/bin/env python3
"""Writes DESIGN.md from the property table, the notes below and the meta.json of the planted bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
import mkdocs
notes = json.load(open(os.path.join(V, "tools", "design_notes.json")))
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
out = HEAD
for p in mkdocs.P:
    n = notes[p["id"]]
    out += "\n### %s %s\n\n" % (p["id"], p["title"])
    out += "*Specified.* %s\n\n" % p["statement"]
    out += "*Enumerated.* %s.\n\n" % p["note"]
    out += "*Oracle and monitor.* %s\n\n" % n["oracle"]
    out += "*Cost (8 cores).* quick %s, thorough %s. *Why beyond the tests.* %s\n" % (n["quick"], n["thorough"], p["why"])
    if n.get("limits"):
        out += "\n*Limits.* %s\n" % n["limits"]
out += TAIL
out += "\n| planted change | breaks | needs | caught by |\n|---|---|---|---|\n"
sd = os.path.join(V, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    out += "| %s | %s: %s | %s | %s |\n" % (s, m["property"], m["what_it_breaks"], m["needs"], ", ".join(caught.get(s, [m["property"]])))
open(os.path.join(V, "DESIGN.md"), "w").write(out)
