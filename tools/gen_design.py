#!/usr/bin/env python3
"""Generates DESIGN.md from design_head.md, checks.py, properties.jsonl, gen_manifest.py, KNOWN_FINDINGS and seeded/*/meta.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
from design_text import TEXT, INITIALLY_MISSED, TAIL
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = dict(re.findall(r'"(C\d+)": "([^"]*)"', re.search(r"NA = \{(.*?)\n\}", open(V + "/tools/gen_manifest.py").read(), re.S).group(1)))
known = [l.rstrip("\n") for l in open(V + "/KNOWN_FINDINGS") if re.match(r"(known|fixed): ", l)]
out = [open(V + "/tools/design_head.md").read().rstrip("\n"), "", "## Properties", ""]
for p in props:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    if i in na:
        out += ["Not applicable. " + na[i], ""]
        continue
    oracle, why, cost = TEXT[i]
    out.append("* **Enumerated:** %s." % CHECKS[i]["bounds"].rstrip("."))
    out.append("* **Oracle:** %s" % oracle)
    out.append("* **Out of the reach of tests:** %s" % why)
    fixed = [re.match(r"fixed: property=\S+ (\S+) (.*)", l).groups() for l in known if l.startswith("fixed: property=%s " % i)]
    if fixed:
        out.append("* **Found and repaired:** " + "; ".join("%s (%s)" % (t, h[:7]) for h, t in fixed) + ".")
    kn = [l.split(" -- ", 1)[1] for l in known if l.startswith("known: property=%s " % i)]
    if kn:
        out.append("* **Known finding:** " + "; ".join(kn) + ".")
    bugs = sorted(b for b in os.listdir(V + "/seeded") if json.load(open(V + "/seeded/%s/meta.json" % b))["property"] == i)
    out.append("* **Planted bugs caught:** " + (", ".join(b + (" (missed at first)" if b in INITIALLY_MISSED else "") for b in bugs) or "none planted") + ".")
    out.append("* **Cost:** " + cost)
    out.append("")
out += ["## Planted bugs", "", "Each is in `seeded/`, with a demonstration. All of them are caught by the check of their property (quick tier).", "",
        "| bug | what it breaks | needs | |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % b))
    out.append("| %s | %s | %s | %s |" % (b, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), "missed at first: " + INITIALLY_MISSED[b] if b in INITIALLY_MISSED else ""))
out += ["", TAIL.strip().replace("@FIXED@", str(sum(l.startswith("fixed") for l in known))), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
