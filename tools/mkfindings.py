#!/usr/bin/env python3
"""Development tool: rewrites the `known:` lines of known-findings.txt from the finding classes of known-cases.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DO = ("C40", "C41", "C42", "C43")
kc = json.load(open(V + "/known-cases.json")); p = V + "/known-findings.txt"
l = [x for x in open(p).read().splitlines() if not x.startswith("known: property=C4")]
for c in DO:
    for n, s in sorted(kc.get(c, {}).get("finding", {}).items()):
        l.append("known: property=%s key=finding: %s | %s (%d cases, listed by digest in known-cases.json)" % (c, n, n, len(s) // 10))
open(p, "w").write("\n".join(l) + "\n")
