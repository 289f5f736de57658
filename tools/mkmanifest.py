#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the check registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib"]
import registry
NA = {
 "C43": "An explorer exists (harness/opchain.py: all pairs of graph steps, rewrite patterns and option sets through the real compiler), but its deviations on the unchanged tree are not all judged yet, so it is not registered as a check.",
 "C44": "An explorer exists (harness/importer.py: model files through the real importer), but its deviations on the unchanged tree are not all judged yet, so it is not registered as a check.",
 "C46": "No check was built: the Java binding of the models is a JNI library around generated code.",
 "C45": "The accelerator paths (NNPA) emit IBM Z instructions and call the zDNN library; neither the hardware, an emulator nor zDNN is present, so no execution can be enumerated.",
}
DEFAULT = "no check built yet"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if c:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": c.technique, "level": c.level, "level_note": c.note})
    else: na.append({"property": p["id"], "reason": NA.get(p["id"], DEFAULT)})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "ONNX_MLIR_VERIF", "enable": "no hook was needed: the checks compile /repo's sources as they are, with link-time interposition (-Wl,--wrap), include-path stubs and -D names from /verif", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Replay a violation with: python3 check.py --replay <property> <replay file>."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
