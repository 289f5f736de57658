#!/usr/bin/env python3
"""Helper to plant, confirm and record a bug in /verif/seeded (used by hand; no check uses it).
   A seed is a dict: id, property, edits=[(file, old, new)], files={name: text} (with demo.sh), needs, what_it_breaks."""
import json, os, subprocess, sys
R, S = "/repo", "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def apply(edits):
    for f, a, b in edits:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(a) != 1: raise SystemExit("edit matches %d times in %s: %r" % (s.count(a), f, a))
        open(p, "w").write(s.replace(a, b))
def undo(): sh("git -C /repo checkout -- .")
def notoriginal():
    "lines the patch removes that a commit of ours added (a bug must change lines of the original)"
    bad, f, orig = [], None, []
    for l in sh("git -C /repo diff -U0").stdout.split("\n"):
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"):
            a = l.split()[1][1:].split(","); a, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if n:
                b = sh("git -C /repo blame -s -L %d,+%d HEAD -- %s" % (a, n, f)).stdout.strip().split("\n"); (orig if any(x.startswith("^1ec9b60") or x.startswith("1ec9b60") for x in b) else bad).append((f, a))
    return [] if orig else bad or ["no removed line"]
def plant(seeds, test=True, check=True):
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty repo"
    summary = []
    for s in seeds:
        d = os.path.join(S, s["id"]); os.makedirs(d, exist_ok=True)
        try:
            for n, t in s["files"].items(): open(os.path.join(d, n), "w").write(t); os.chmod(os.path.join(d, n), 0o755)
            clean = sh("bash %s/demo.sh" % d, cwd=R)
            apply(s["edits"]); mine = notoriginal(); open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
            b = sh("bash /opt/vp/build.sh") if test else None
            t = sh("bash /opt/vp/test.sh /tmp/seedtest.json") if test and b.returncode == 0 else None
            tests = json.load(open("/tmp/seedtest.json")) if t else {}
            demo = sh("bash %s/demo.sh" % d, cwd=R)
            c = sh("python3 /verif/check.py %s" % s["property"], env=dict(os.environ, VERIF_TIER="quick")) if check else None
            ok = not mine and clean.returncode == 0 and demo.returncode != 0 and (not test or (b.returncode == 0 and not tests.get("failed")))
            line = "%s [%s] demo clean=%d bug=%d build=%s testsfailed=%s caught=%s %s" % (s["id"], s["property"], clean.returncode, demo.returncode, b and b.returncode, tests.get("failed"), c and c.returncode == 1, "" if ok else "*** NOT COUNTING")
            print(line, flush=True)
            if mine: print("   not lines of the original:", mine)
            if not ok: print(clean.stdout[-1500:], demo.stdout[-1500:], b and b.returncode and b.stdout[-2500:])
            if c and c.returncode != 1: print("   check said:", c.returncode, c.stdout[-600:])
            summary.append(line)
        finally: undo()
    if test: sh("bash /opt/vp/build.sh")
    return summary
