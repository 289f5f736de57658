#!/usr/bin/env python3
"""check.py ID [quick|thorough] | check.py --replay ID FILE | check.py --setup
Builds the machinery of one property from /repo's current tree, explores, writes evidence/<ID>.json,
prints VIOLATION / KNOWN-FINDING lines.  Exit 0: held; 1: violated; 2: the check itself failed."""
import json, os, sys, time, subprocess, tempfile, shutil, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib")); sys.path.insert(0, VERIF)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1"); sys.dont_write_bytecode = True
import vbuild, registry

def known():
    """known-findings.txt: lines 'property=<id> key=<key prefix> | description'; 'fixed:' lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith("known: "): continue
            head, _, desc = l[7:].partition(" | ")
            f = dict(x.split("=", 1) for x in head.split(" ", 1))
            out.setdefault(f["property"], {})[f["key"].strip()] = desc
    return out

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return registry.setup()
    if a[0] == "--replay":
        c = registry.CHECKS[a[1]]; return c.replay(os.path.abspath(a[2]))
    pid = a[0]; tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = registry.CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vc_%s_" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    os.chmod(scratch, 0o755)
    evdir = os.path.join(VERIF, "evidence"); os.makedirs(evdir, exist_ok=True)
    try:
        try:
            r = c.run(tier, scratch, seed)
        except vbuild.BuildError as e:
            print("build failed:\n" + str(e)); return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kn = known().get(pid, {}); hit = {}; bad = {}
    for v in r["violations"]:
        k = v["key"]
        if k in kn: hit[k] = v
        else: bad.setdefault(k, v)
    exe = r["executions"]
    cov = {"states": r["states"], "transitions": r["steps"], "traces_validated_against_impl": exe,
           "evaluations": exe, "distinct_nontrivial": r["nontrivial"], "rule": r["rule"],
           "samples": r["samples"][:6], "exhaustive": r["exhaustive"], "known_findings_seen": sorted(hit)}
    for k in r.get("extra", {}): cov[k] = r["extra"][k]
    if c.level in ("exploration", "fault_enumeration"):
        cov.pop("traces_validated_against_impl")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c.level, "coverage": cov, "assumptions": c.assumptions,
          "wall_s": round(time.time() - t0, 1), "violations": len(bad)}
    with open(os.path.join(evdir, pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: executions=%d states=%d transitions=%d nontrivial=%d exhaustive=%s wall=%.1fs" %
          (pid, tier, exe, r["states"], r["steps"], r["nontrivial"], r["exhaustive"], time.time() - t0))
    for k, v in hit.items(): print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kn[k]))
    n = 0
    for k, v in bad.items():
        rp = os.path.join(evdir, "%s.replay%d.txt" % (pid, n)); n += 1
        with open(rp, "w") as f:
            f.write("property %s\npart: %s\nkey: %s\nseq: %s\n\n%s\n\n%s\n\nreplay: python3 %s/check.py --replay %s %s\n" %
                    (pid, v.get("part", ""), k, ",".join(map(str, v.get("seq", []))), v["msg"], v.get("note", ""), VERIF, pid, rp))
        if n <= 12:
            print("  %s: %s" % (k, v["msg"][:600].replace("\n", "\n    ")))
            for l in v.get("note", "").splitlines()[-12:]: print("      | " + l[:300])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
    sys.stdout.flush()
    if bad: return 1
    if r.get("internal_error"): print("internal error of the check: " + str(r.get("internal_msg", ""))); return 2
    if exe == 0: print("nothing explored"); return 2
    return 0
if __name__ == "__main__":
    try: rc = main()
    except Exception: traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc or 0)
