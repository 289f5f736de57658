"""What the compiler checks do with a deviation.  known-cases.json lists, by digest, the individual cases (operator, attributes, shapes,
types, how the inputs are given) that the unchanged compiler refuses to compile (not in the supported set, nothing to check), those the documentation calls unsupported and on which it ends in an assertion, and those
of each recorded finding (known-findings.txt).  Every other deviation, a new refusal included, is a violation.
With OM_SURVEY set the cases and their outcomes are written out instead (tools/omclassify.py makes the list from them)."""
import os, json, hashlib
SURVEY = os.environ.get("OM_SURVEY"); _t = {}; _f = []
def digest(s): return hashlib.blake2b(s.encode(), digest_size=5).hexdigest()
def table(cid):
    if cid not in _t:
        p = os.path.join(os.environ.get("VERIF_HOME", "/verif"), "known-cases.json"); d = {}
        if os.path.exists(p):
            for cat in ("refused", "unsupported", "finding"):
                for name, s in json.load(open(p)).get(cid, {}).get(cat, {}).items():
                    for i in range(0, len(s), 10): d[s[i:i + 10]] = (cat, name)
        _t[cid] = d
    return _t[cid]
def refusal(kind): return kind in ("compile", "import")
def verdict(v, cid, label, ident, r):
    "label: short name of the operator or pattern; ident: the whole case; r: None or (kind, message)"
    if SURVEY:
        if not _f: _f.append(open("%s.%d" % (SURVEY, os.getpid()), "a"))
        _f[0].write(json.dumps((cid, label, ident, r)) + "\n"); _f[0].flush(); return
    if not r: return
    k = table(cid).get(digest(ident))
    if k:
        if k[0] == "finding": v.fail("finding: " + k[1], r[1])
        if refusal(r[0]) or (k[0] == "unsupported" and r[0].endswith((":compile", ":import"))): v.note("(refused)"); return
    v.fail("%s %s" % (label, "refused" if refusal(r[0]) else r[0]), r[1])
def decide(v, case, mode, r, cid=None): verdict(v, cid or os.environ["OM_CID"], "%s%s %s" % (case.op, case.label, mode), case.describe() + " | " + mode, r)
