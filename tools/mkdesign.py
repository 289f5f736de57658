#!/usr/bin/env python3
"""Regenerates /verif/DESIGN.md from the handwritten text below, the check registry, properties.jsonl, known-findings.txt and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib", V + "/tools"]
import registry, designtext as T
na = {x["property"]: x["reason"] for x in json.load(open(V + "/MANIFEST.json"))["not_applicable"]}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
fixes = {}
for l in open(V + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixes.setdefault(m[1], []).append((m[2], m[3]))
known = [l.strip() for l in open(V + "/known-findings.txt") if l.startswith("known:")]
seeds = {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json")); seeds.setdefault(m["property"], []).append((d, m))
o = [T.HEAD.strip(), ""]
o += ["## Properties and how each is decided", "",
      "`technique`, bounds and assumptions below come from the registry (`checks_def.py`) that also generates MANIFEST.json; the exact",
      "alphabets are at the top of each harness.  Costs are wall seconds of the quick check on 8 cores.", ""]
for p in props:
    i = p["id"]; o.append("### %s %s" % (i, p["title"])); o.append("")
    if i in na: o += ["*Not applicable.* " + na[i], ""]; continue
    c = registry.CHECKS[i]
    src = []
    for q in c.parts:
        for s in ([q.script] if hasattr(q, "script") else [s for s in q.sources if s.startswith("@harness")]):
            s = s.lstrip("@")
            if s not in src: src.append(s)
    o.append("- **Decided by** " + c.technique + " (level `%s`; %s)." % (c.level, ", ".join("`%s`" % s for s in src)))
    w = T.WHY.get(i)
    if w: o.append("- **Specified, and against what oracle:** " + w[0])
    o.append("- **Enumerated, within bounds:** " + c.note)
    if w: o.append("- **Why tests cannot settle it:** " + w[1])
    if c.assumptions: o.append("- **Assumed:** " + "; ".join(c.assumptions) + ".")
    if i in T.COST: o.append("- **Cost:** about %s s." % T.COST[i])
    if i in fixes: o.append("- **Defects found and repaired:** " + "; ".join("%s (`%s`)" % (b, a) for a, b in fixes[i]) + ".")
    if i in seeds: o.append("- **Planted bugs:** " + "; ".join("`%s` (%s)" % (d, m["what_it_breaks"]) for d, m in seeds[i]) + ".")
    o.append("")
o += ["## Known findings", "", "\n".join(known) if known else "None is recorded as unrepaired: each genuine defect the checks found was small enough to repair (see `known-findings.txt` and `git log` in /repo, commits starting `fix:`).", ""]
o += [T.TAIL.strip(), "", "## Planted bugs", "",
      "Each was confirmed with `tools/seed.py`: it applies to HEAD, builds, passes the stable tests, its demonstration passes without and fails with it.", "",
      "| bug | property | needs | caught by |", "|---|---|---|---|"]
for p in props:
    for d, m in seeds.get(p["id"], []): o.append("| %s | %s | %s | %s |" % (d, p["id"], m["needs"], T.CAUGHT.get(d, p["id"])))
o += ["", T.MUT.strip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(o))
print(len(o), "lines; no text for", [p["id"] for p in props if p["id"] not in na and p["id"] not in T.WHY])
