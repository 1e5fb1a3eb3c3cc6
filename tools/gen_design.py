#!/usr/bin/env python3
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, R + "/tools")
from checks import CHECKS
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
o = open(R + "/doc/head.md").read()
o += "## Properties\n\n"
for d in props:
    i = d["id"]; o += "### %s %s\n\n%s\n\n" % (i, d["title"], d["statement"])
    if i not in CHECKS: o += "Not applicable, see MANIFEST.json.\n\n"; continue
    c = CHECKS[i]; o += "*Decided:* " + c["note"] + "\n\n*Outside:* " + c["outside"] + "\n\n*Entries:* "
    es = []
    for e in c["entries"]:
        s = "`%s`" % e["e"]
        b = [k + "=" + str(v) for k, v in (e.get("params") or {}).items()] + (["preempt %d" % e["preempt"]] if e.get("preempt") else []) + (["race"] if e.get("race") else []) + (["thorough only"] if e.get("thorough_only") else [])
        t = [k + "=" + str(v) for k, v in (e.get("params_thorough") or {}).items()] + [k + " " + str(v) for k, v in (e.get("thorough") or {}).items()]
        es.append("%s/%s%s%s" % (e["h"], s, " (" + ", ".join(b) + ")" if b else "", " [thorough " + ", ".join(t) + "]" if t else ""))
    o += "; ".join(es) + "\n\n"
o += "## Defects of librf found by the checks\n\nRepaired (`fix:` commits in /repo; each check fails again if the repair is undone):\n\n"
for l in open(R + "/known_findings.jsonl"):
    d = json.loads(l)
    if d["status"] == "fixed": o += "* " + d["what"][len("fixed: "):] + "\n"
o += "\nRecorded (KNOWN-FINDING lines, exit 0):\n\n"
for l in open(R + "/known_findings.jsonl"):
    d = json.loads(l)
    if d["status"] != "fixed": o += "* property=%s %s: %s\n" % (d["property"], d["id"], d["what"])
o += "\n## Planted bugs (seeded/)\n\nEach builds, passes the stable tests and is caught by the check of its property unless the last column says otherwise.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for s in sorted(os.listdir(R + "/seeded")) if os.path.isdir(R + "/seeded") else []:
    m = json.load(open(R + "/seeded/%s/meta.json" % s)); o += "| %s | %s | %s | %s | %s |\n" % (s, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught_by", m["property"]))
t = R + "/doc/tail.md"
if os.path.exists(t): o += "\n" + open(t).read()
open(R + "/DESIGN.md", "w").write(o)
