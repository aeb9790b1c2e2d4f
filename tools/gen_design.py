#!/usr/bin/env python3
"""Writes DESIGN.md: the handwritten text below, with each property's title and bounds taken from properties.jsonl and the registry."""
import json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "checks"))
import registry as R
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
TEXT = {}
cur = None
for l in open(os.path.join(V, "tools", "design_props.md")):
    m = re.match(r"^@(C\d+)\s*$", l)
    if m: cur = m[1]; TEXT[cur] = ""
    elif cur: TEXT[cur] += l
o = HEAD + "\n"
for p in props:
    i = p["id"]; o += "### %s %s\n\n" % (i, p["title"])
    if i in R.CHECKS:
        c = R.CHECKS[i]; srcs = sorted({h["src"] for h in c["harnesses"]})
        assert i in TEXT, "no design text for " + i
        o += TEXT[i].strip() + "\n\n"
        o += "* *Sources*: " + ", ".join("`checks/%s`" % s for s in srcs) + " (%d harness%s); headers: %s\n" % (len(c["harnesses"]), "es" if len(c["harnesses"]) > 1 else "", ", ".join("`%s`" % h for h in c["headers"]))
        o += "* *Bounds, quick*: " + c["bounds"]["quick"] + "\n* *Bounds, thorough*: " + c["bounds"]["thorough"] + "\n\n"
    else: o += "Not claimed: " + dict((x["property"], x["reason"]) for x in R.NOT_APPLICABLE).get(i, "") + "\n\n"
import glob
rows = "| planted bug | property = check that catches it | needs |\n|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); rows += "| %s: %s | %s | %s |\n" % (f.split("/")[-2], m["what_it_breaks"].replace("|", "\\|"), m["property"] + (" (missed)" if m.get("missed") else ""), m["needs"].replace("|", "\\|"))
o += TAIL.replace("SEEDTABLE\n", rows)
open(os.path.join(V, "DESIGN.md"), "w").write(o)
print(len(o))
