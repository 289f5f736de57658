# C36: result comparison flags exactly the outputs outside tolerance.
import os, sys, io, ast, contextlib, importlib.util, math, itertools, warnings
from fractions import Fraction
import numpy as np, ml_dtypes
import vcpy
R = os.environ["VERIF_REPO"]; warnings.simplefilter("ignore")
spec = importlib.util.spec_from_file_location("omutils", os.path.join(R, "src/Runtime/python/om_pyrt/src/om_pyrt/utils.py")); ou = importlib.util.module_from_spec(spec); spec.loader.exec_module(ou)
# RunONNXModel.py is a script: its definitions are taken without running it
class Args: verbose = False
def script(path):
    keep = []
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): keep.append(n)
        elif isinstance(n, (ast.Import, ast.ImportFrom)): keep.append(ast.Try(body=[n], handlers=[ast.ExceptHandler(type=ast.Name(id="ImportError", ctx=ast.Load()), name=None, body=[ast.Pass()])], orelse=[], finalbody=[]))
        elif isinstance(n, ast.Assign) and not any(isinstance(x, ast.Call) for x in ast.walk(n.value)): keep.append(ast.Try(body=[n], handlers=[ast.ExceptHandler(type=ast.Name(id="NameError", ctx=ast.Load()), name=None, body=[ast.Pass()])], orelse=[], finalbody=[]))
    g = {"args": Args(), "__name__": "x"}; exec(compile(ast.fix_missing_locations(ast.Module(body=keep, type_ignores=[])), path, "exec"), g); return g
ro = script(os.path.join(R, "utils/RunONNXModel.py"))
INF, NAN = math.inf, math.nan
F = [0.0, -0.0, 1.0, 1.0625, 1.125, -1.0, 2.0, 100.0, 108.0, 3.0e4, 6.0e4, -6.0e4, 1e-3, INF, -INF, NAN]
VAL = {"float32": F, "float64": F + [1e300, -1e300, 1e-300], "float16": F, "bfloat16": F, "float8_e4m3fn": [0.0, 1.0, 1.125, -1.0, 448.0, -448.0, NAN], "float8_e5m2": [0.0, 1.0, 1.25, 57344.0, INF, -INF, NAN],
  "complex64": [0j, 1 + 0j, 1 + 1j, 1.0625 + 1j, complex(INF, 0), complex(NAN, 0), -1j], "complex128": [0j, 1 + 0j, 1.0625 + 0j, complex(-INF, 1), complex(0, NAN)],
  "bool": [False, True], "object": ["", "a", "b"], "U2": ["", "a", "ab"]}
for n in (8, 16, 32, 64): VAL["int%d" % n] = [0, 1, 2, -1, 100, 104, 2 ** (n - 1) - 1, -2 ** (n - 1)]; VAL["uint%d" % n] = [0, 1, 2, 100, 104, 2 ** n - 1, 2 ** n - 3, 2 ** (n - 1)]
DT = list(VAL)
def dtype(n): return np.dtype(getattr(ml_dtypes, n)) if hasattr(ml_dtypes, n) else np.dtype(n)
TOL = [(0.0, 0.0), (1e-8, 1e-5), (0.1, 0.05), (2.0, 0.0), (0.0, 0.5), (0.0625, 0.0), (0, 1)]
def parts(x): x = complex(x); return (x.real, x.imag)
def within(a, r, atol, rtol, exact):
    """True, False, or None where rounding of the bound decides"""
    if isinstance(a, (str, bool)) or exact and isinstance(a, int): return a == r
    if isinstance(a, int): d, m = Fraction(abs(a - r)), Fraction(abs(r))
    else:
        pa, pr = parts(a), parts(r); na, nr = any(map(math.isnan, pa)), any(map(math.isnan, pr))
        if na or nr: return na and nr
        if any(map(math.isinf, pa)) or any(map(math.isinf, pr)): return pa == pr if isinstance(a, complex) or isinstance(r, complex) else a == r
        if pa[1] == pr[1] == 0: d, m = abs(Fraction(pa[0]) - Fraction(pr[0])), abs(Fraction(pr[0]))
        else: d, m = Fraction(abs(complex(a) - complex(r))), Fraction(abs(complex(r)))
    t = Fraction(float(atol)) + Fraction(float(rtol)) * m
    if a == r: return True
    if d == t and Fraction(float(atol) + float(rtol) * float(m)) == t: return True   # the bound is exact
    if d and abs(d - t) <= t * Fraction(1, 10 ** 12): return None
    return d <= t
def py(x): return x if isinstance(x, str) else str(x) if isinstance(x, np.str_) else x.item()
def run(v, act, ref, tol, debug=0):
    with contextlib.redirect_stdout(io.StringIO()):
        try: r = ou.compare_result(act, ref, tol[0], tol[1], debug)
        except Exception as e: v.fail("compare:raises", "compare_result raises %s: %s" % (type(e).__name__, e))
    v.step(); v.check(isinstance(r, (bool, np.bool_)), "compare:verdict", "compare_result gives %r" % (r,)); return bool(r)
def runv(v, a, r, tol):
    with contextlib.redirect_stdout(io.StringIO()):
        try: ro["verify_outs"](a, r, str(tol[0]), str(tol[1])); v.step(); return True
        except AssertionError: return False
        except Exception as e: v.fail("verify:raises", "verify_outs raises %s: %s" % (type(e).__name__, e))
def judge(pairs, tol, exact):
    js = [within(a, r, tol[0], tol[1], exact) for a, r in pairs]
    return False if False in js else None if None in js else True
def values(v):
    """every pair of values of every type, at every position of small arrays"""
    n = v.pick(DT); t = dtype(n); vals = np.array(VAL[n], dtype=t).tolist() if n not in ("object", "U2") else VAL[n]
    a, r = v.pick(vals), v.pick(vals); tol = v.pick(TOL); shape = v.pick([(), (1,), (3,), (2, 2), (1, 3, 1)]); size = int(np.prod(shape)); pos = v.choose(size); base = vals[1]; debug = v.choose(2)
    A = np.full(shape, base, dtype=t); B = np.full(shape, base, dtype=t); A[np.unravel_index(pos, shape) if shape else ()] = a; B[np.unravel_index(pos, shape) if shape else ()] = r
    v.note("%s %s: %r against %r, atol %s rtol %s at %d" % (n, shape, a, r, tol[0], tol[1], pos)); v.ctx(n)
    want = judge([(a, r)], tol, True); got = run(v, [A], [B], tol, debug)
    if want is not None: v.check(got == want, "compare:%s" % ("accepts" if got else "rejects"), lambda: "compare_result reports %s" % ("agreement" if got else "a mismatch"))
    if not debug:
        want = judge([(a, r)], tol, False); got = runv(v, A, B, tol)
        if want is not None: v.check(got == want, "verify:%s" % ("accepts" if got else "rejects"), lambda: "verify_outs reports %s" % ("agreement" if got else "a mismatch"))
    if a != r and want: v.nontrivial()
    v.state((n, repr(a), repr(r), tol, shape, pos))
def full(v):
    """every content of two arrays of up to 3 elements"""
    n = v.pick(["float32", "float16", "uint8", "bool", "int64"]); t = dtype(n); al = {"float32": [0.0, 1.0, 1.0625, INF, NAN], "float16": [0.0, 1.0, 1.0625, -INF, NAN], "uint8": [0, 1, 255], "bool": [False, True], "int64": [0, 1, -2 ** 63]}[n]
    k = v.choose(4 if v.thorough else 3); tol = v.pick(TOL[:4]); a = [v.pick(al) for _ in range(k)]; r = [v.pick(al) for _ in range(k)]
    A, B = np.array(a, dtype=t), np.array(r, dtype=t); v.note("%s %s against %s, %s" % (n, a, r, tol)); pairs = list(zip(a, r))
    want = judge(pairs, tol, True); got = run(v, [A], [B], tol); v.check(want is None or got == want, "compare:array", lambda: "compare_result reports %s" % got)
    want = judge(pairs, tol, False); got = runv(v, A, B, tol); v.check(want is None or got == want, "verify:array", lambda: "verify_outs reports %s" % got); v.state((n, a.__repr__(), r.__repr__(), tol))
SH = [(), (0,), (1,), (2,), (1, 1), (2, 1), (1, 2), (0, 2), (4,), (2, 2)]
def lists(v):
    """lists of outputs: lengths, shapes, types, and which of them differ"""
    na, nr = v.choose(4), v.choose(4); tol = TOL[1]; A, B = [], []; same = True; what = []
    for i in range(max(na, nr)):
        k = v.choose(5) if i < min(na, nr) else 0; what.append(k); x = np.full((2, 1), 3, dtype="float32"); y = x.copy()
        if k == 1: x[1, 0] = 4
        if k == 2: y = np.full((2, 1), 3, dtype="float64")
        if k == 3: y = np.full((1, 2), 3, dtype="float32")
        if k == 4: x = np.zeros((0,), "int32"); y = x.copy()
        A.append(x); B.append(y); same &= k in (0, 4)
    A, B = A[:na], B[:nr]; v.note("%d against %d outputs %s" % (na, nr, what)); got = run(v, A, B, tol); v.check(got == (same and na == nr), "compare:lists", lambda: "compare_result reports %s" % got); v.state((na, nr, tuple(what)))
    if na and nr: v.nontrivial()
def shapes(v):
    s, t = v.pick(SH), v.pick(SH); d, e = v.pick(DT), v.pick(DT)
    if d != e and s != t: v.prune()
    A = np.full(s, VAL[d][1], dtype=dtype(d)); B = np.full(t, VAL[e][1], dtype=dtype(e)); v.note("%s%s against %s%s" % (d, s, e, t)); got = run(v, [A], [B], (1e-8, 1e-5)); v.check(got == (s == t and d == e), "compare:shape", lambda: "compare_result reports %s" % got)
    if d == e: got = runv(v, A, B, (1e-8, 1e-5)); v.check(got == (s == t), "verify:shape", lambda: "verify_outs reports %s" % got)
    v.state((s, t, d, e))
BODIES = [values, full, lists, shapes]
def body(v): BODIES[v.choose(len(BODIES))](v)
vcpy.main(body, split=3, rule="every pair of values of 19 types x 7 tolerances x every position of 5 shapes; every content of two arrays of up to 2 (3) elements; every combination of 5 kinds of output in lists of up to 3; every pair of 10 shapes and of 19 types")
