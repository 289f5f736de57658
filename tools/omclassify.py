#!/usr/bin/env python3
"""Makes known-cases.json from survey files (OM_SURVEY, see harness/omscope.py).  A deviating case enters the list only through a rule
below; a rule is added by hand after the cause has been looked at.  Cases no rule covers are printed and stay violations."""
import sys, os, re, json, glob, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/harness")
import omscope, omrules
def main(files, show=3):
    out = collections.defaultdict(lambda: {"refused": collections.defaultdict(set), "unsupported": collections.defaultdict(set), "finding": collections.defaultdict(set)}); left = collections.OrderedDict(); tot = collections.Counter()
    for f in files:
        for l in open(f):
            cid, label, ident, r = json.loads(l); tot[cid] += 1
            name = omrules.always(cid, label, ident)
            if name: out[cid]["finding"][name].add(omscope.digest(ident))
            if not r or name: continue
            k = omrules.rule(cid, label, ident, r)
            if k is None: left.setdefault((cid, label, r[0]), []).append((ident, r[1])); continue
            out[cid][k[0]][k[1]].add(omscope.digest(ident))
    old = json.load(open(V + "/known-cases.json")) if os.path.exists(V + "/known-cases.json") else {}
    for cid in out: old[cid] = {c: {n: "".join(sorted(s)) for n, s in sorted(out[cid][c].items())} for c in ("refused", "unsupported", "finding")}
    json.dump(old, open(V + "/known-cases.json", "w"), indent=0, sort_keys=True); open(V + "/known-cases.json", "a").write("\n")
    for cid in sorted(out):
        for c in ("refused", "unsupported", "finding"):
            for n, s in sorted(out[cid][c].items()): print(cid, c, len(s), n)
    print("=== not covered")
    for (cid, label, kind), l in sorted(left.items()):
        print(cid, label, kind, len(l))
        for i, m in l[::max(1, len(l) // show)][:show]: print("    ", i[:260], "\n         ", (m[-200:] if "crash" in kind or kind in ("compile", "import") else m[:200]).replace("\n", " "))
if __name__ == "__main__": main([f for a in sys.argv[1:] for f in glob.glob(a)])
