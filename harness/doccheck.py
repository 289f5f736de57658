# C32: the documentation checker accepts exactly the consistent documents.
import os, sys, io, shutil, logging, contextlib
import vcpy
sys.path.insert(0, os.path.join(os.environ["VERIF_REPO"], "docs/doc_check"))
import check
logging.getLogger("doc-check").setLevel(logging.CRITICAL)
def put(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="", encoding="utf-8") as f: f.write(t)
def init(v): os.chdir(v.home); v.refs = os.path.join(v.home, "refs"); [put(os.path.join(v.refs, k), t) for k, t in REFS.items()]
def root(v):
    r = os.path.join(v.home, "r"); shutil.rmtree(r, ignore_errors=True); os.makedirs(r); return r
def run(r, excl=()):
    with contextlib.redirect_stdout(io.StringIO()):
        try: check.main(r, list(excl)); return None
        except Exception as e: return e
REFS = {"r0": "", "r1": "a", "r2": "a\nb\n", "r3": "a\n\n", "r4": "```\na\n", "r5": "\na\n", "d/r6": "b\na\nb", "r7": " a\n", "r8": "[same-as-file]: <> (r1)\n"}
def rlines(n): return REFS[n].splitlines()
# directive text -> (reference, skip-doc, skip-ref) or "bad" (to be reported) or None (ordinary text)
DIR = {"[same-as-file]: <> (r2)": ("r2", 0, 0), "[same-as-file]: <> (r1)": ("r1", 0, 0), '[same-as-file]: <> ({"ref": "r2", "skip-doc": 1, "skip-ref": 1})': ("r2", 1, 1), "[same-as-file]: <> (r4)": ("r4", 0, 0),
  "[same-as-file]: <> (r3)": ("r3", 0, 0), "[same-as-file]: <> (r0)": ("r0", 0, 0), "[same-as-file]: <> ({'ref': 'd/r6'})": ("d/r6", 0, 0), "x [same-as-file]: <> (r5)": ("r5", 0, 0), '[same-as-file]: <> ({"skip-ref": 2, "ref": "r2"})': ("r2", 0, 2), '[same-as-file]: <> ({"ref": "r1", "skip-doc": 2})': ("r1", 2, 0), "[same-as-file]: <> (r7)": ("r7", 0, 0), '[same-as-file]: <> ({"ref": "r2", "skip-ref": 5})': ("r2", 0, 5), "[same-as-file]: <> (r8)": ("r8", 0, 0),
  "[same-as-file]: <> ()": "bad", "[same-as-file]: <> (none)": "bad", '[same-as-file]: <> ({"skip-doc": 1})': "bad", '[same-as-file]: <> ({"ref": )': "bad", "[same-as-file]: <> (r1) [same-as-file]: <> (r1)": "bad", "[file-same-as-stdout]: <> ({'file': 'r1'})": "bad", "[file-same-as-stdout]: <> (r1)": "bad",
  "[file-same-as-stdout]: <> ({'file': 'r1', 'cmd': ['printf', 'a']})": "run-ok", "[file-same-as-stdout]: <> ({'file': 'r1', 'cmd': ['printf', 'b']})": "run-differs", "same-as-file (r2)": None, "[same-as-file] (r2)": None}
def judge(lines):
    """True: consistent, False: not, None: depends on whether blank lines before the closing mark count."""
    i = 0; n = len(lines); unsure = False
    while i < n:
        d = DIR.get(lines[i].strip()); i += 1
        if d is None or d == "run-ok": continue
        if d in ("bad", "run-differs"): return False if not unsure else None
        ref, sd, sr = d; no = None if unsure else False
        while i < n and not lines[i].strip(): i += 1
        if i == n or not lines[i].strip().startswith("```"): return no
        i += 1 + sd
        for want in rlines(ref)[sr:]:
            if i >= n or lines[i] != want: return no
            i += 1
        if i < n and not lines[i].strip(): unsure = True
        while i < n and not lines[i].strip(): i += 1
        if i >= n or not lines[i].strip().startswith("```"): return no if not unsure else False
        i += 1
    return True if not unsure else None
def verdict(v, r, key, want, what, excl=()):
    e = run(r, excl); v.step()
    if want is None: return
    if want: v.check(e is None, key + ":rejected", lambda: "a consistent %s is rejected: %s: %s" % (what, type(e).__name__, str(e)[:300]))
    else: v.check(e is not None, key + ":accepted", "an inconsistent %s is accepted" % what)
    if want and "directive" in what: v.nontrivial()
TEXT = ["a", "b", "", "```", "```cpp"]
def single(v):
    """one document around one directive: every text to a length"""
    ds = list(DIR); dline = v.pick(ds); d = DIR[dline]; before = v.pick([[], ["a", ""], ["```", "a", "```"]]); n = v.choose(8 if v.thorough else 6); lines = [v.pick(TEXT) for _ in range(n)]
    if not isinstance(d, tuple) and n > 3: v.prune()
    doc = before + [dline] + lines; r = v.refs
    end = "\n" if n % 2 else ""; crlf = n == 3; text = "\n".join(doc) + end
    put(os.path.join(r, "x.md"), text.replace("\n", "\r\n") if crlf else text); v.note(repr(text)); verdict(v, r, "single", judge(doc), "document (directive %s)" % dline); v.state(text)
SECT = {k: ["```cpp"] + ["skipped"] * d[1] + rlines(d[0])[d[2]:] + ["```"] for k, d in DIR.items() if isinstance(d, tuple)}
def several(v):
    """several sections, each right or with one line changed, dropped or added"""
    n = 1 + v.choose(3 if v.thorough else 2); doc = []; names = list(SECT) + [k for k, d in DIR.items() if not isinstance(d, tuple)]
    for i in range(n):
        k = v.pick(names); s = list(SECT.get(k, ["a"])); gap = v.choose(2) if i else 0
        if k in SECT:
            m = v.choose(1 + 4 * len(s)) if i + 1 == n or v.thorough else v.choose(3)
            if m:
                at = (m - 1) // 4; how = (m - 1) % 4
                if how == 0: s[at] = "changed"
                elif how == 1: del s[at]
                elif how == 2: s.insert(at, "added")
                else: s[at] = s[at] + " "
        doc += [""] * gap + [k] + s
    tail = v.pick([[], [""], ["end", "", ""]]); doc += tail; r = v.refs
    put(os.path.join(r, "x.md"), "\n".join(doc)); v.note("\n".join(doc)); verdict(v, r, "several", judge(doc), "document (directives)"); v.state("\n".join(doc))
def tree(v):
    """documents in a tree, some excluded: rejected exactly if one that counts is wrong"""
    places = ["a.md", "d/b.md", "d/e/c.md", "d2/f.md", "d/e2/x.dc", ".h/g.md", "d/t.txt"]; r = root(v); bad = []
    for p in places:
        if v.choose(2): bad.append(p)
    excl = v.pick([[], ["d"], ["d/e"], ["d/"], ["./d/../d2"], ["d", "d2"], ["d/e", ".h"], ["nothere"], ["d/e2", "d2"]]); REFDIR = v.pick(["", "d"])
    put(os.path.join(r, "ref"), "one\ntwo\n")
    for p in places:
        w = p in bad
        if p.endswith(".dc"): t = 'file-same-as-stdout({"file": "ref", "cmd": ["printf", "one\\\\ntwo%s\\\\n"]})' % ("!" if w else "")
        else: t = "# T\n\n[same-as-file]: <> (ref)\n```\none\n%stwo\n```\n" % ("x" if w else "")
        put(os.path.join(r, p), t)
    import pathlib
    ex = [os.path.normpath(e) for e in excl]; counts = [p for p in bad if not p.endswith(".txt") and not any(str(q) in ex for q in pathlib.PurePath(p).parents)]
    v.note("wrong: %s, excluded: %s" % (bad, excl)); cwd = os.getcwd()
    if REFDIR: os.chdir(v.home); verdict(v, "./r", "tree", not counts, "tree", excl)
    else: verdict(v, r, "tree", not counts, "tree", excl)
    v.state((tuple(bad), tuple(excl)))
OUT = ["", "a", "a\n", "a\n\n", "\na\n", "b\n", "a\nb\n", "a \n", "a\nb", "\u00e9\n", "a\u2028b\n", "\n"]
def stdout_(v):
    content = v.pick(OUT); out = v.pick(OUT); form = v.choose(5); r = root(v); put(os.path.join(r, "sub/f"), content); put(os.path.join(r, "o ut"), out); put(os.path.join(r, "good"), "g")
    cmd = v.pick(['["cat", "o ut"]', "['cat', './o ut', '/dev/null']"]); want = content == out
    good = "file-same-as-stdout({'file': 'good', 'cmd': ['printf', 'g']})"; d = "file-same-as-stdout({\"file\": \"sub/f\", \"cmd\": %s})" % cmd
    if form == 0: t = d
    elif form == 1: t = "\n" + good + "\n\n" + d + "\n"
    elif form == 2: t = d + "\n" + good + "\n"
    elif form == 3: t = "text " + d + " text\n"
    else: t = d + "\nfile-same-as-stdout(%s)\n" % v.pick(["", "good", "{'file': 'good'}", "{'cmd': ['printf', 'g']}", "{'file': 'none', 'cmd': ['true']}", "{'file': 'good', 'cmd': ['./nothere']}", "['good']", "{'file': 'good', "]); want = False
    put(os.path.join(r, "x.dc"), t); v.note("%r against %r: %s" % (content, out, t)); verdict(v, r, "stdout", want, ".dc file (directive)"); v.state((content, out, t))
BODIES = [single, several, tree, stdout_]
def body(v): BODIES[v.choose(len(BODIES))](v)
vcpy.main(body, split=4, init=init, rule="every text of up to 5 (7) lines over 5 lines after each of 24 directives; all pairs (triples) of sections with each line changed, dropped, added or padded; trees of 7 files x every set of wrong ones x 9 exclusions; 12x12 contents and outputs x 5 forms, 8 malformed directives")
