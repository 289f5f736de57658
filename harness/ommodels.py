"""Small models for the compiler checks: per operator a generator that takes every attribute combination, shape, type and value set
of its bounded table through the explorer's choices.  The oracle is ONNX's own reference evaluator (or a definition written here)."""
import numpy as np, itertools, onnx
from onnx import helper, numpy_helper, TensorProto as TP
from onnx.reference import ReferenceEvaluator
f32, f64, i8, u8, i16, u16, i32, u32, i64, u64, b1 = np.float32, np.float64, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.bool_
def V(shape, t=f32, k=0, lo=None, hi=None):
    "a deterministic filling with pairwise different neighbours, exactly representable"
    n = int(np.prod(shape)) if len(shape) else 1; i = np.arange(n)
    if t == b1: return (((i * 5 + k) % 3) > 0).reshape(shape) if k % 2 == 0 else (((i * 3 + k) % 4) > 1).reshape(shape)
    if np.dtype(t).kind == "f":
        v = (((i * 7 + 3 * k) % 23) - 11) * 0.25 if k % 3 != 2 else (((i * 5 + k) % 29) - 14) * 0.125
        if lo is not None: v = lo + (np.abs(v) * 1.25 % 1.0) * (hi - lo)
        return v.astype(t).reshape(shape)
    a, b = (0, 19) if np.dtype(t).kind == "u" else (-9, 10)
    if lo is not None: a, b = lo, hi
    return (a + (i * 7 + 3 * k + 2) % (b - a)).astype(t).reshape(shape)
class In:
    "an input: its values over the runs; kind: 'x' data, 'p' parameter (constant or run-time), 'c' must be a constant, None = absent"
    def __init__(self, runs, kind="x", shape=None): self.runs = [np.asarray(r) for r in runs]; self.kind = kind
def X(shape, t=f32, kind="x", **k): return In([V(shape, t, j, **k) for j in (0, 1, 2)], kind)
def P(a, t=i64, kind="p"): a = np.array(a, dtype=t); return In([a, a, a], kind)
class Case:
    def __init__(self, op, ins, attrs=None, nout=1, tol=2e-5, oracle=None, opset=22, label="", exact=False, domain="", build=None, post=None):
        self.op, self.ins, self.attrs, self.nout, self.tol, self.oracle, self.opset, self.label, self.exact, self.domain, self.build, self.post = op, ins, attrs or {}, nout, tol, oracle, opset, label, exact, domain, build, post
    def graph(self, consts=(), dynamic=(), infer_types=None):
        "ModelProto; consts: indices of inputs stored as initializers (value of run 0); dynamic: indices whose dims are all symbolic"
        names = ["x%d" % i if x is not None else "" for i, x in enumerate(self.ins)]; gi, init = [], []
        for i, x in enumerate(self.ins):
            if x is None: continue
            a = x.runs[0]; t = helper.np_dtype_to_tensor_dtype(a.dtype)
            if i in consts: init.append(numpy_helper.from_array(np.ascontiguousarray(a).reshape(a.shape), names[i]))
            else: gi.append(helper.make_tensor_value_info(names[i], t, [None] * a.ndim if i in dynamic else list(a.shape)))
        while names and names[-1] == "": names.pop()
        outs = ["y%d" % i for i in range(self.nout)]
        nodes = self.build(names, outs) if self.build else [helper.make_node(self.op, names, outs, domain=self.domain, **self.attrs)]
        g = helper.make_graph(nodes, "g", gi, [helper.make_tensor_value_info(o, TP.FLOAT, None) for o in outs], init)
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.opset)] + ([helper.make_opsetid("ai.onnx.ml", 3)] if self.domain else []), ir_version=10)
        return m
    def feeds(self, r, consts=()): return {"x%d" % i: x.runs[0 if i in consts else r] for i, x in enumerate(self.ins) if x is not None}
    def expected(self, r, consts=()):
        ins = [None if x is None else x.runs[0 if i in consts else r] for i, x in enumerate(self.ins)]
        if self.oracle:
            y = self.oracle(*ins, **self.attrs) if not self.build else self.oracle(*ins)
            return [np.asarray(a) for a in (y if isinstance(y, (list, tuple)) else [y])]
        m = self.graph(); ref = ReferenceEvaluator(m)
        return [np.asarray(a) for a in ref.run(None, self.feeds(r, consts))]
    def finish(self, consts, dynamic, exp):
        m = self.graph(consts, dynamic)
        for o, e in zip(m.graph.output, exp): o.type.tensor_type.elem_type = helper.np_dtype_to_tensor_dtype(e.dtype)
        return m
    def describe(self): return "%s%s(%s) %s" % (self.op, self.label, ", ".join("-" if x is None else "%s%s" % (x.runs[0].dtype, list(x.runs[0].shape)) + (" =" + str(x.runs[0].tolist()) if x.kind != "x" else "") for x in self.ins), self.attrs)
G = {}
def gen(*names):
    def d(f):
        for n in names: G[n] = (lambda v, n=n: f(v, n)) if f.__code__.co_argcount > 1 else f
        return f
    return d
# ------------------------------------------------------------------ element-wise
SH1 = [(5,), (), (2, 3), (1, 4, 1), (2, 2, 2, 2)]
UNF = {"Abs": None, "Acos": (-1, 1), "Acosh": (1, 5), "Asin": (-1, 1), "Asinh": None, "Atan": None, "Atanh": (-0.9, 0.9), "Ceil": None, "Cos": None, "Cosh": None, "Erf": None, "Exp": None, "Floor": None, "Log": (0.1, 9), "Neg": None, "Reciprocal": (0.5, 4), "Relu": None, "Round": None, "Sigmoid": None, "Sign": None, "Sin": None, "Sinh": None, "Softplus": None, "Softsign": None, "Sqrt": (0, 9), "Tan": (-1, 1), "Tanh": None, "Mish": None, "HardSwish": None}
@gen(*UNF)
def unary(v, op):
    t = v.pick([f32, f64] if op not in ("Abs", "Neg", "Sign") else [f32, f64, i32, i64, i8]); s = v.pick(SH1); r = UNF[op]
    runs = [V(s, t, 0, *(r or (None, None))), V(s, t, 1, *(r or (None, None))), V(s, t, 2, *(r or (None, None)))]
    if op == "Round": runs[1] = (np.floor(runs[1]) + np.where(np.arange(runs[1].size).reshape(s) % 2, 0.5, 0.25)).astype(t)
    return Case(op, [In(runs)], oracle=(lambda x: (x / (1 + np.abs(x))).astype(x.dtype)) if op == "Softsign" else None)
UNA = {"Elu": [{}, {"alpha": 2.0}], "Celu": [{}, {"alpha": 2.0}], "HardSigmoid": [{}, {"alpha": 0.5, "beta": 0.25}], "LeakyRelu": [{}, {"alpha": 0.5}], "Selu": [{}, {"alpha": 2.0, "gamma": 0.5}], "ThresholdedRelu": [{}, {"alpha": 0.75}], "Shrink": [{}, {"lambd": 1.0}, {"lambd": 0.5, "bias": 0.25}], "Gelu": [{}, {"approximate": "tanh"}], "Swish": []}
UNA.pop("Swish")
@gen(*UNA)
def unarya(v, op): a = v.pick(UNA[op]); t = v.pick([f32, f64]) if op not in ("Celu",) else f32; return Case(op, [X(v.pick(SH1[:3]), t)], a)
@gen("Not")
def not_(v): return Case("Not", [X(v.pick(SH1), b1)])
@gen("BitwiseNot")
def bnot(v): return Case("BitwiseNot", [X(v.pick(SH1[:3]), v.pick([i8, u8, i16, u16, i32, u32, i64, u64]))])
@gen("IsNaN")
def isnan(v): t = v.pick([f32, f64]); s = v.pick([(6,), (2, 3)]); a = np.array([1, np.nan, np.inf, -np.inf, 0, -0.0], t).reshape(s); return Case("IsNaN", [In([a, a[::-1].copy(), a])])
@gen("IsInf")
def isinf(v): t = v.pick([f32, f64]); a = np.array([1, np.nan, np.inf, -np.inf, 0, -3], t); at = v.pick([{}, {"detect_negative": 0}, {"detect_positive": 0}, {"detect_negative": 0, "detect_positive": 0}]); return Case("IsInf", [In([a, a[::-1].copy(), a])], at)
BC = [((2, 3), (2, 3)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 1), (1, 3)), ((2, 3), ()), ((), ()), ((2, 1, 3), (4, 1)), ((1,), (3,)), ((4, 2, 3), (1, 2, 1)), ((17,), (1,))]
BT = {"Add": [f32, f64, i32, i64, u32, u64], "Sub": [f32, f64, i32, i64], "Mul": [f32, f64, i32, i64, u32, u64], "Div": [f32, f64, i32, i64, u32, u64], "And": [b1], "Or": [b1], "Xor": [b1], "BitwiseAnd": [i8, u8, i32, u32, i64], "BitwiseOr": [i8, u8, i32, u32, i64], "BitwiseXor": [i8, u8, i32, u32, i64],
      "Equal": [f32, f64, i32, i64, b1, u8, i8], "Greater": [f32, f64, i32, i64, u32, u64, u8, i8], "GreaterOrEqual": [f32, i32, i64, u32, u8], "Less": [f32, f64, i32, i64, u32, u64, u8, i8], "LessOrEqual": [f32, i32, i64, u32, u8], "PRelu": [f32, f64]}
def big(t, s, k):
    "values whose top bit is set, so that a signed operation on an unsigned type shows"
    a = V(s, t, k); return np.where(np.arange(a.size).reshape(s) % 3 == k % 3, np.array(np.iinfo(t).max, t) - a, a).astype(t)
@gen(*BT)
def binary(v, op):
    t = v.pick(BT[op]); sa, sb = v.pick([p for p in BC if op != "PRelu" or np.broadcast_shapes(*p) == p[0]])
    a, b = [V(sa, t, k) for k in range(3)], [V(sb, t, k + 1) for k in range(3)]
    if np.dtype(t).kind == "u": a, b = [big(t, sa, k) for k in range(3)], [big(t, sb, k + 1) for k in range(3)]
    if op == "Div": b = [np.where(x == 0, np.array(3, t), x) for x in b]
    if np.dtype(t).kind == "i" and op == "Div": orc = lambda p, q: np.trunc(p.astype(f64) / q.astype(f64)).astype(p.dtype)
    elif np.dtype(t).kind == "u" and op == "Div": orc = lambda p, q: p // q
    else: orc = None
    return Case(op, [In(a), In(b)], oracle=orc)
@gen("Mod")
def mod(v):
    t, fm = v.pick([(f32, 1), (f64, 1), (i32, 0), (i32, 1), (i64, 0), (i64, 1), (u32, 0), (u64, 0)]); sa, sb = v.pick(BC[:5])
    a, b = [V(sa, t, k) for k in range(3)], [V(sb, t, k + 1) for k in range(3)]
    if np.dtype(t).kind == "u": a, b = [big(t, sa, k) for k in range(3)], [big(t, sb, k + 1) for k in range(3)]
    b = [np.where(x == 0, np.array(3, t), x) for x in b]
    return Case("Mod", [In(a), In(b)], {"fmod": fm}, oracle=lambda p, q, fmod: np.fmod(p, q) if fmod else np.mod(p, q))
@gen("Pow")
def pow_(v):
    t, e = v.pick([(f32, f32), (f64, f64), (f32, i32), (f32, i64)]); sa, sb = v.pick(BC[:6]); k = v.pick(["x", "2", "3", "-1", "0.5", "0"])
    if k == "x": a, b = [V(sa, t, j, 0.5, 3) for j in range(3)], [V(sb, e, j) for j in range(3)]
    else: a, b = [V(sa, t, j, 0.5, 3) if k in ("-1", "0.5") else V(sa, t, j) for j in range(3)], [np.full(sb, float(k), e)] * 3
    if k == "0.5" and np.dtype(e).kind != "f": v.prune()
    return Case("Pow", [In(a), In(b, "x" if k == "x" else "p")], oracle=lambda p, q: np.power(p, q).astype(p.dtype), tol=1e-4)
@gen("BitShift")
def bitshift(v): t = v.pick([u8, u16, u32, u64]); s = v.pick(BC[:4]); return Case("BitShift", [In([big(t, s[0], k) for k in range(3)]), In([V(s[1], t, k, 0, 5) for k in range(3)])], {"direction": v.pick(["LEFT", "RIGHT"])})
@gen("Max", "Min", "Sum", "Mean")
def variadic(v, op):
    t = v.pick([f32, f64, i32, i64] if op in ("Max", "Min") else [f32, f64]); ss = v.pick([[(2, 3)], [(2, 3), (3,)], [(3,), (2, 3)], [(2, 1), (1, 3), ()], [(2, 3), (2, 3), (2, 3)], [(1,), (4,)], [(), ()]])
    ins = [In([V(s, t, k + 2 * j) for k in range(3)]) for j, s in enumerate(ss)]
    fn = {"Max": lambda *a: np.broadcast_arrays(__import__("functools").reduce(np.maximum, a), a[0])[0], "Min": lambda *a: __import__("functools").reduce(np.minimum, a), "Sum": lambda *a: sum(a[1:], a[0]), "Mean": lambda *a: (sum(a[1:], a[0]) / len(a)).astype(a[0].dtype)}[op]
    return Case(op, ins, oracle=fn)
@gen("Where")
def where(v): t = v.pick([f32, f64, i32, i64, b1, u8]); sc, sa, sb = v.pick([((2, 3), (2, 3), (2, 3)), ((3,), (2, 3), ()), ((2, 1), (3,), (1, 3)), ((), (2,), (2,)), ((2, 3), (1,), (2, 1))]); return Case("Where", [X(sc, b1), X(sa, t), In([V(sb, t, k + 1) for k in range(3)])])
@gen("Clip")
def clip(v):
    t = v.pick([f32, f64, i32, i64, u32, u64]); lo, hi = v.flip(), v.flip(); s = v.pick(SH1[:3]); kind = v.pick(["p", "x"])
    a, b = (2, 7) if np.dtype(t).kind == "u" else (-1, 2)
    if v.flip(): a, b = b, a     # min > max: every value becomes max
    return Case("Clip", [X(s, t), In([np.array(a, t), np.array(a, t), np.array(a - 1, t)], kind) if lo else None, In([np.array(b, t), np.array(b, t), np.array(b + 1, t)], kind) if hi else None], oracle=lambda x, mn=None, mx=None: (lambda y: y if mx is None else np.minimum(y, mx))(x if mn is None else np.maximum(x, mn)).astype(x.dtype))
def cast_exp(x, t):
    if t == b1: return x != 0
    if x.dtype.kind == "f" and np.dtype(t).kind in "iu": return np.trunc(x).astype(t)
    return x.astype(t)
@gen("Cast")
def cast(v):
    T = [f32, f64, i8, u8, i16, u16, i32, u32, i64, u64, b1]; a, b = v.pick(T), v.pick(T); s = v.pick([(5,)] + ([(), (2, 3)] if v.thorough else []))
    runs = [V(s, a, k) for k in range(3)]
    if np.dtype(a).kind == "f" and np.dtype(b).kind == "u": runs = [np.abs(x) for x in runs]
    if np.dtype(a).kind in "iu" and a != b1 and np.dtype(b).kind in "iuf": runs[1] = (np.where(np.arange(runs[1].size).reshape(s) % 2, np.iinfo(a).max - V(s, a, 1, 0, 5), np.iinfo(a).min + V(s, a, 0, 0, 5))).astype(a)
    return Case("Cast", [In(runs)], {"to": int(helper.np_dtype_to_tensor_dtype(np.dtype(b)))}, oracle=lambda x, to: cast_exp(x, b))
@gen("CastLike")
def castlike(v): a, b = v.pick([(f32, f64), (f64, f32), (f32, i32), (i64, f32), (i32, i64), (f32, b1)]); return Case("CastLike", [X((2, 3), a), X((1,), b)], oracle=lambda x, y: cast_exp(x, b))
# ------------------------------------------------------------------ reductions
RED = ["ReduceSum", "ReduceMean", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceLogSumExp", "ReduceSumSquare"]
def red(op, x, ax, keep):
    ax = None if ax is None else tuple(ax); k = dict(axis=ax, keepdims=bool(keep)); xf = x
    r = {"ReduceSum": lambda: np.sum(x, **k), "ReduceMean": lambda: np.mean(x, **k) if x.dtype.kind == "f" else np.trunc(np.sum(x, **k) / (x.size // max(1, np.sum(x, **k).size))), "ReduceMax": lambda: np.max(x, **k), "ReduceMin": lambda: np.min(x, **k), "ReduceProd": lambda: np.prod(x, **k), "ReduceL1": lambda: np.sum(np.abs(x), **k), "ReduceL2": lambda: np.sqrt(np.sum(x.astype(f64) ** 2, **k)), "ReduceLogSum": lambda: np.log(np.sum(x, **k)), "ReduceLogSumExp": lambda: np.log(np.sum(np.exp(x.astype(f64)), **k)), "ReduceSumSquare": lambda: np.sum(x * x, **k)}[op]()
    return np.asarray(r).astype(x.dtype)
@gen(*RED)
def reduce_(v, op):
    s = v.pick([(2, 3, 4), (5,), (2, 3, 17)] + ([(3, 2), (1, 3, 1, 2)] if v.thorough else [])); r = len(s); keep = v.choose(2); t = v.pick(([f32, f64] if v.thorough else [f32]) + (([i32, i64] if v.thorough else [i64]) if op in ("ReduceSum", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceSumSquare") else []))
    axs = [None, []] + [[a] for a in range(-r, r)] + ([[0, 1], [-1, 0]] + ([[1, -1]] if r > 2 else []) if r > 1 else []) + ([list(range(r))] if r > 2 else [])
    ax = v.pick(axs); noop = v.choose(2) if not ax else 0; lo = (0.5, 3) if op == "ReduceLogSum" else (None, None)
    x = X(s, t) if lo[0] is None else X(s, t, lo=lo[0], hi=lo[1])
    if op == "ReduceProd": x = In([np.where(np.abs(a) > 2, np.array(1, t), a).astype(t) for a in x.runs])
    def orc(a, axes=None, **at):
        if noop and not ax:
            return {"ReduceL1": np.abs, "ReduceL2": np.abs, "ReduceLogSum": np.log, "ReduceSumSquare": lambda z: z * z}.get(op, lambda z: z)(a).astype(a.dtype) if True else a
        return red(op, a, ax if ax else None, keep)
    return Case(op, [x, None if ax is None else P(ax)], {"keepdims": keep, "noop_with_empty_axes": noop}, oracle=orc, tol=1e-4)
@gen("ArgMax", "ArgMin")
def arg(v, op):
    s = v.pick([(2, 3, 4), (5,), (3, 4)]); r = len(s); ax = v.choose(2 * r) - r; t = v.pick([f32, f64, i32, i64] if v.thorough else [f32, i64])
    runs = [V(s, t, k) for k in range(2)] + [np.round(V(s, t, 2) % 2).astype(t)]  # ties
    return Case(op, [In(runs)], {"axis": ax, "keepdims": v.choose(2), "select_last_index": v.choose(2)})
@gen("CumSum")
def cumsum(v): s = v.pick([(4,), (2, 3), (2, 3, 2)]); r = len(s); return Case("CumSum", [X(s, v.pick([f32, f64, i32, i64] if v.thorough else [f32, i64])), P(v.choose(2 * r) - r, v.pick([i64, i32] if v.thorough else [i64]), v.pick(["p"]))], {"exclusive": v.choose(2), "reverse": v.choose(2)})
# ------------------------------------------------------------------ shape operators
@gen("Transpose")
def transpose(v):
    s = v.pick([(2, 3), (2, 3, 4), (3,), (2, 1, 3, 2), (1, 1, 2), (2, 3, 2, 3)]); p = v.pick([None] + list(itertools.permutations(range(len(s))))); return Case("Transpose", [X(s, v.pick([f32, i64, b1] if v.thorough else [f32]))], {} if p is None else {"perm": list(p)})
@gen("Reshape")
def reshape(v):
    s, ns, az = v.pick([((2, 3, 4), [6, 4], 0), ((2, 3, 4), [-1], 0), ((2, 3, 4), [0, -1], 0), ((2, 3, 4), [4, 0, -1], 0), ((2, 3, 4), [2, 0, 4], 0), ((6,), [1, -1, 1, 2], 0), ((1,), [], 0), ((), [1, 1], 0), ((2, 3), [-1, 0], 0), ((2, 3), [3, 2], 1), ((2, 1, 3), [0, 3], 0), ((2, 3, 4), [0, 0, 0], 0)]); return Case("Reshape", [X(s, v.pick([f32, i64])), P(ns)], {"allowzero": az} if az else {})
@gen("Squeeze")
def squeeze(v): s, ax = v.pick([((1, 3, 1), None), ((1, 3, 1), [0]), ((1, 3, 1), [-1]), ((1, 3, 1), [0, 2]), ((1, 3, 1), [-1, 0]), ((2, 1), [1]), ((1,), [0]), ((1, 1), None), ((2, 1, 3, 1), [1, -1])]); return Case("Squeeze", [X(s), None if ax is None else P(ax)])
@gen("Unsqueeze")
def unsqueeze(v): s, ax = v.pick([((3,), [0]), ((3,), [-1]), ((3,), [0, 2]), ((2, 3), [1]), ((2, 3), [-1, 0]), ((2, 3), [3, 0]), ((), [0]), ((), [0, 1]), ((2,), [2, 1]), ((2, 3), [-2])]); return Case("Unsqueeze", [X(s), P(ax)])
@gen("Flatten")
def flatten(v): s = v.pick([(2, 3, 4), (5,), (2, 3), (2, 1, 3, 2)]); r = len(s); return Case("Flatten", [X(s)], v.pick([{}] + [{"axis": a} for a in range(-r, r + 1)]))
@gen("Expand")
def expand(v): s, t = v.pick([((3, 1), [3, 4]), ((3, 1), [2, 1, 6]), ((3,), [1]), ((1,), [4]), ((), [2, 2]), ((2, 3), [2, 3]), ((2, 1, 3), [1, 4, 1]), ((1, 3), [2, 1])]); return Case("Expand", [X(s, v.pick([f32, i64])), P(t)])
@gen("Tile")
def tile(v): s, t = v.pick([((2, 3), [1, 2]), ((2, 3), [2, 1]), ((2, 3), [2, 3]), ((3,), [3]), ((3,), [1]), ((2, 1, 2), [1, 2, 2]), ((2, 2), [0, 1])][:6]); return Case("Tile", [X(s, v.pick([f32, i32])), P(t)])
@gen("Concat")
def concat(v):
    ax, ss = v.pick([(0, [(2, 3)]), (0, [(2, 3), (1, 3)]), (1, [(2, 3), (2, 1), (2, 2)]), (-1, [(2, 3), (2, 2)]), (-2, [(1, 2), (3, 2)]), (0, [(3,), (2,)]), (2, [(1, 2, 1), (1, 2, 3)]), (1, [(2, 1, 2), (2, 2, 2)])]); t = v.pick([f32, i64, b1])
    return Case("Concat", [In([V(s, t, k + j) for k in range(3)]) for j, s in enumerate(ss)], {"axis": ax})
@gen("Split")
def split(v):
    s, ax, sp, n = v.pick([((6,), 0, None, 3), ((6,), 0, [1, 2, 3], 3), ((2, 6), 1, [2, 4], 2), ((2, 6), -1, None, 2), ((4, 3), 0, [1, 3], 2), ((7,), 0, None, 3), ((2, 5), 1, None, 2), ((4, 2), -2, [2, 2], 2), ((5,), 0, [5], 1), ((3, 2, 4), 2, [1, 1, 2], 3)])
    def orc(x, spl=None, **a):
        if sp is None: c = -(-s[ax] // n); parts = [c] * (n - 1) + [s[ax] - c * (n - 1)]
        else: parts = sp
        return list(np.split(x, np.cumsum(parts)[:-1], axis=ax))
    return Case("Split", [X(s), None if sp is None else P(sp)], dict(axis=ax, **({"num_outputs": n} if sp is None else {})), nout=n, oracle=orc)
@gen("Slice")
def slice_(v):
    s = v.pick([(5,), (3, 4)]); M = 2 ** 31 - 1; back = v.flip()
    if not back:
        if s == (5,): st, en, sp = v.pick([0, 1, -2, 4, -7]), v.pick([5, 3, -1, 100, 0, M]), v.pick([None, 1, 2, 3]); ins = ([st], [en], [0], None if sp is None else [sp])
        else: ins = v.pick([([1, 0], [3, 4], None, None), ([0], [2], [1], [1]), ([1], [4], [-1], [2]), ([-2, -3], [3, 4], [0, 1], [1, 2]), ([0, 1], [3, 3], [1, 0], None), ([0, 3], [-1, 100], [-2, -1], [1, 1])])
    else:
        if s == (5,): st, en, sp = v.pick([4, -1, 3, 100, 0]), v.pick([0, -6, 1, -100, -M]), v.pick([-1, -2, -3]); ins = ([st], [en], [0], [sp])
        else: ins = v.pick([([2, 3], [0, 0], None, [-1, -1]), ([3], [-100], [1], [-2]), ([-1], [0], [0], [-1]), ([2, 0], [-4, 3], [0, 1], [-1, 2])])
    starts, ends, axes, steps = ins; kind = "p"; t, data = v.pick([(i64, f32), (i32, i64)])
    def clampdone(x, *_): 
        y = x
        for j, a in enumerate(axes if axes is not None else range(len(starts))):
            d = x.shape[a]; stp = steps[j] if steps else 1; b, e = starts[j], ends[j]; b = b + d if b < 0 else b; e = e + d if e < 0 else e
            if stp > 0: b, e = min(max(b, 0), d), min(max(e, 0), d)
            else: b, e = min(max(b, 0), d - 1), min(max(e, -1), d - 1)
            y = np.take(y, list(range(b, e, stp)), axis=a)
        return y
    return Case("Slice", [X(s, data), P(starts, t, kind), P(ends, t, kind), None if axes is None else P(axes, t, "c"), None if steps is None else P(steps, t, kind)], oracle=clampdone)
@gen("Pad")
def pad(v):
    mode = v.pick(["constant", "edge", "reflect", "wrap"]); s, p = v.pick([((3,), [1, 2]), ((3,), [0, 1]), ((2, 3), [0, 1, 1, 2]), ((2, 3), [1, 0, 0, 0]), ((3, 2), [1, 1, 2, 1]), ((3, 4), [-1, 0, 0, -1]), ((4,), [-1, 2]), ((2, 2, 2), [0, 1, 0, 1, 0, 1])]); t = v.pick([f32, i32]); cv = v.flip() if mode == "constant" else 0
    if mode in ("reflect",) and any(q >= d for q, d in zip(p, s + s)): v.prune()
    if mode != "constant" and min(p) < 0: v.prune()
    def orc(x, pads, c=None, **a):
        r = x.ndim; w = [(p[i], p[i + r]) for i in range(r)]; x2 = x[tuple(slice(max(0, -b), x.shape[i] - max(0, -e)) for i, (b, e) in enumerate(w))]; w = [(max(b, 0), max(e, 0)) for b, e in w]
        return np.pad(x2, w, **({"mode": "constant", "constant_values": c if c is not None else 0} if mode == "constant" else {"mode": mode}))
    return Case("Pad", [X(s, t), P(p)] + ([In([np.array(7, t), np.array(-3, t), np.array(5, t)], v.pick(["p"]))] if cv else []), {"mode": mode}, oracle=orc)
@gen("Shape")
def shape(v): s = v.pick([(2, 3, 4), (5,), ()]); return Case("Shape", [X(s)], v.pick([{}, {"start": 1}, {"end": 1}, {"start": -1}, {"end": -1}, {"start": 1, "end": 3}, {"start": -2, "end": -1}, {"start": 5}, {"start": 2, "end": 1}, {"start": -9, "end": 9}]))
@gen("Size")
def size(v): return Case("Size", [X(v.pick([(2, 3), (), (5,), (2, 1, 3)]))])
@gen("ConstantOfShape")
def cos_(v): t = v.pick([None, f32, i64, i32, b1, f64, u8]); return Case("ConstantOfShape", [P(v.pick([[2, 3], [4], [], [1, 1, 2]]))], {} if t is None else {"value": numpy_helper.from_array(np.array([3], t) if t != b1 else np.array([True]))})
@gen("Range")
def range_(v):
    t = v.pick([f32, i32, i64, f64]); a = v.pick([(0, 5, 1), (1, 8, 3), (5, 0, -1), (3, -4, -2), (0, 7, 2), (2, 3, 1), (-3, 3, 2), (6, -3, -4)]); return Case("Range", [P(x, t) for x in a])
@gen("DepthToSpace")
def d2s(v): return Case("DepthToSpace", [X(v.pick([(1, 8, 2, 3), (2, 4, 1, 2)]))], {"blocksize": 2, "mode": v.pick(["DCR", "CRD"])})
@gen("SpaceToDepth")
def s2d(v): return Case("SpaceToDepth", [X(v.pick([(1, 2, 4, 6), (2, 1, 2, 2)]))], {"blocksize": 2})
@gen("Trilu")
def trilu(v): s = v.pick([(3, 3), (2, 4), (4, 2), (2, 3, 3)]); k = v.pick([None, 0, 1, -1, 2, -2, 5, -5]); return Case("Trilu", [X(s, v.pick([f32, i64])), None if k is None else P(k)], {"upper": v.choose(2)})
@gen("ReverseSequence")
def revseq(v): b, tm = v.pick([(0, 1), (1, 0)]); s = (3, 4) if v.flip() else (3, 4, 2); n = s[b]; L = s[tm]; return Case("ReverseSequence", [X(s), In([np.array([(i * 2 + k) % L + 1 for i in range(n)], i64) for k in range(3)])], {"batch_axis": b, "time_axis": tm})
@gen("Compress")
def compress(v):
    s = v.pick([(4,), (3, 2), (2, 3, 2)]); ax = v.pick([None] + list(range(-len(s), len(s)))); n = int(np.prod(s)) if ax is None else s[ax]; m = v.pick([n, max(1, n - 1)]); return Case("Compress", [X(s), In([V((m,), b1, k) for k in range(3)])], {} if ax is None else {"axis": ax})
@gen("NonZero")
def nonzero(v): s = v.pick([(4,), (2, 3), (2, 2, 2)]); t = v.pick([f32, i64, b1]); return Case("NonZero", [In([np.where((np.arange(int(np.prod(s))).reshape(s) + k) % 3 == 0, np.zeros(s, t), V(s, t, k)).astype(t) for k in range(3)])])
@gen("OneHot")
def onehot(v): s = v.pick([(3,), (2, 2), ()][:2]); ax = v.pick([-1, 0, 1]); it = v.pick([i64, i32]); t = v.pick([f32, i64]); return Case("OneHot", [In([V(s, it, k, -3, 5) for k in range(3)]), P(v.pick([4, 3]), i64), In([np.array([k, 5 + k], t) for k in range(3)], "x")], {"axis": ax}, oracle=None)
@gen("Identity")
def ident(v): return Case("Identity", [X(v.pick(SH1), v.pick([f32, i64, b1, u8, f64]))])
@gen("Dropout")
def dropout(v): return Case("Dropout", [X((2, 3)), v.pick([None, P(0.25, f32)])], oracle=lambda x, r=None: x)
# ------------------------------------------------------------------ gather / scatter
@gen("Gather")
def gather(v):
    s = v.pick([(4,), (3, 4), (2, 3, 2)]); r = len(s); ax = v.choose(2 * r) - r; si = v.pick([(), (2,), (2, 2), (1,)]); it = v.pick([i64, i32]); d = s[ax]
    return Case("Gather", [X(s, v.pick([f32, i64] if v.thorough else [f32])), In([V(si, it, k, -d, d) for k in range(3)], "x")], {"axis": ax})
def gel(x, i, axis):
    y = np.zeros(i.shape, x.dtype)
    for p in itertools.product(*map(range, i.shape)): q = list(p); q[axis] = int(i[p]); y[p] = x[tuple(q)]
    return y
@gen("GatherElements")
def gathere(v): s, si = v.pick([((4,), (3,)), ((3, 3), (2, 3)), ((3, 3), (3, 2)), ((2, 3, 2), (2, 2, 1))]); r = len(s); ax = v.choose(2 * r) - r; d = s[ax]; si = tuple(min(a, b) if j != ax % r else a for j, (a, b) in enumerate(zip(si, s))); return Case("GatherElements", [X(s), In([V(si, i64, k, -d, d) for k in range(3)])], {"axis": ax}, oracle=gel)
@gen("GatherND")
def gathernd(v):
    s, ix, b = v.pick([((2, 3), (2, 2), 0), ((2, 3), (2, 1), 0), ((2, 3, 2), (2, 1), 1), ((2, 3, 2), (1, 2, 2), 0), ((2, 3, 2), (2, 2, 1), 1), ((2, 2, 3), (2, 2, 1), 2), ((4,), (3, 1), 0)]); q = ix[-1]
    def idx(k): a = np.zeros(ix, i64); 
    runs = []
    for k in range(3):
        a = np.zeros(ix, i64); f = a.reshape(-1, q)
        for row in range(f.shape[0]):
            for j in range(q): d = s[b + j]; f[row, j] = (row * 3 + j + k) % (2 * d) - d
        runs.append(a)
    return Case("GatherND", [X(s), In(runs)], {"batch_dims": b} if b else {})
@gen("ScatterElements")
def scattere(v):
    s, si = v.pick([((5,), (2,)), ((3, 4), (2, 4)), ((3, 4), (3, 2))]); ax = v.pick(list(range(-len(s), len(s)))); d = s[ax]; rd = v.pick(["none", "add", "mul", "max", "min"][:1])
    runs = []
    for k in range(3):
        a = np.zeros(si, i64)
        for p in itertools.product(*map(range, si)): a[p] = (p[ax] + sum(p) + k - p[ax]) % d - (d if (p[ax] + k) % 2 else 0)
        # distinct along the axis
        a = np.moveaxis(a, ax, 0)
        for j in range(a.shape[0]): a[j] = (j + k) % d - (d if (j + k) % 2 else 0)
        runs.append(np.ascontiguousarray(np.moveaxis(a, 0, ax)))
    if any(x > y for j, (x, y) in enumerate(zip(si, s))): v.prune()
    return Case("ScatterElements", [X(s), In(runs), In([V(si, f32, k + 5) for k in range(3)])], {"axis": ax})
@gen("ScatterND")
def scatternd(v):
    s, ix = v.pick([((5,), (2, 1)), ((3, 4), (2, 1)), ((3, 4), (2, 2)), ((2, 3, 2), (2, 2)), ((2, 3, 2), (1, 1))]); q = ix[-1]; us = ix[:-1] + s[q:]; runs = []
    for k in range(3):
        a = np.zeros(ix, i64)
        for row in range(ix[0]):
            for j in range(q): a[row, j] = ((row + j + k) % s[j]) - (s[j] if (row + k) % 2 else 0)
        runs.append(a)
    return Case("ScatterND", [X(s), In(runs), In([V(us, f32, k + 5) for k in range(3)])])
@gen("TopK")
def topk(v):
    s = v.pick([(5,), (3, 4)]); ax = v.pick(list(range(-len(s), len(s)))); k = v.pick([1, 2, 3]); lg = v.choose(2); t = v.pick([f32, i64, f64, i32])
    def orc(x, kk, **a):
        o = np.argsort(-x if lg else x, axis=ax, kind="stable"); o = np.take(o, range(k), axis=ax); return [np.take_along_axis(x, o, ax), o.astype(i64)]
    return Case("TopK", [X(s, t), P([k])], {"axis": ax, "largest": lg, "sorted": 1}, nout=2, oracle=orc)
@gen("Unique")
def unique(v):
    s = v.pick([(5,), (3, 2), (2, 3)]); ax = v.pick([None] + list(range(-len(s), len(s)))); so = v.choose(2)
    runs = [np.round(np.abs(V(s, f32, k)) % 2).astype(v.pick([f32]) if True else f32) for k in range(3)]
    def orc(x, **a):
        if ax is None: y, i, inv, c = np.unique(x, return_index=True, return_inverse=True, return_counts=True)
        else: y, i, inv, c = np.unique(x, return_index=True, return_inverse=True, return_counts=True, axis=ax)
        inv = inv.reshape(-1)
        if not so:
            o = np.argsort(i); y = np.take(y, o, axis=0 if ax is None else ax); i = i[o]; c = c[o]; back = np.argsort(o); inv = back[inv]
        return [y, i.astype(i64), inv.astype(i64), c.astype(i64)]
    return Case("Unique", [In(runs)], dict(sorted=so, **({} if ax is None else {"axis": ax})), nout=4, oracle=orc)
# ------------------------------------------------------------------ linear algebra
@gen("MatMul")
def matmul(v):
    a, b = v.pick([((2, 3), (3, 4)), ((3,), (3, 2)), ((2, 3), (3,)), ((3,), (3,)), ((2, 2, 3), (3, 2)), ((2, 2, 3), (2, 3, 2)), ((2, 3), (2, 3, 2)), ((2, 1, 2, 3), (1, 2, 3, 2)), ((3,), (2, 3, 2)), ((2, 2, 3), (3,)), ((1, 1), (1, 1)), ((5, 7), (7, 9)), ((1, 8), (8, 1)), ((4, 16), (16, 8)), ((2, 1, 3), (2, 3, 4)), ((1, 2, 3), (2, 3, 4))]); t = v.pick([f32, f64, i32, i64, u32][:4]); return Case("MatMul", [X(a, t), In([V(b, t, k + 1) for k in range(3)], "x")], oracle=lambda p, q: np.matmul(p, q))
@gen("Gemm")
def gemm(v):
    ta, tb = v.choose(2), v.choose(2); m, k, n = v.pick([(2, 3, 4), (1, 1, 1), (5, 2, 9)] + ([(8, 8, 8)] if v.thorough else [])); c = v.pick([None, (), (n,), (m, 1), (1, n), (m, n), (1,)]); al, be = v.pick([(1.0, 1.0), (0.5, 2.0)] + ([(2.0, 0.5), (1.0, 0.0)] if v.thorough else [])); t = v.pick([f32, f64] if v.thorough else [f32])
    return Case("Gemm", [X((k, m) if ta else (m, k), t), In([V((n, k) if tb else (k, n), t, j + 1) for j in range(3)]), None if c is None else In([V(c, t, j + 2) for j in range(3)])], {"transA": ta, "transB": tb, "alpha": al, "beta": be}, oracle=lambda A, B, C=None, transA=0, transB=0, alpha=1, beta=1: (alpha * ((A.T if transA else A) @ (B.T if transB else B)) + (0 if C is None else beta * C)).astype(A.dtype))
@gen("Einsum")
def einsum(v):
    e, ss = v.pick([("ij,jk->ik", [(2, 3), (3, 4)]), ("ij->ji", [(2, 3)]), ("ij->i", [(2, 3)]), ("bij,bjk->bik", [(2, 2, 3), (2, 3, 2)]), ("i,i->", [(3,), (3,)]), ("i,j->ij", [(2,), (3,)]), ("ii->i", [(3, 3)]), ("...ij,...jk->...ik", [(2, 2, 3), (2, 3, 2)]), ("ij,jk", [(2, 3), (3, 2)]), ("bhid,bhjd->bhij", [(1, 2, 3, 2), (1, 2, 2, 2)]), ("ij,ij->ij", [(2, 3), (2, 3)]), ("ba", [(2, 3)]), ("ij,k->", [(2, 2), (3,)]), ("ii->", [(3, 3)])]); t = v.pick([f32, f64]); return Case("Einsum", [In([V(s, t, k + j) for k in range(3)]) for j, s in enumerate(ss)], {"equation": e}, oracle=lambda *a, equation: np.einsum(equation, *a))
@gen("MatMulInteger")
def mmi(v):
    ta, tb = v.pick([(u8, u8), (i8, i8), (u8, i8), (i8, u8)]); a, b = v.pick([((2, 3), (3, 4)), ((2, 2, 3), (3, 2))]); za, zb = v.pick([None, 3]), v.pick([None, 2])
    return Case("MatMulInteger", [X(a, ta), X(b, tb), None if za is None else P(za, ta), None if zb is None else P(zb, tb)], oracle=lambda p, q, x=0, y=0: np.matmul(p.astype(i32) - (0 if x is None else int(x)), q.astype(i32) - (0 if y is None else int(y))).astype(i32))
def rne(x): return np.round(x)
@gen("QuantizeLinear")
def ql(v):
    t = v.pick([u8, i8]); s = v.pick([(6,), (2, 3)]); sc = v.pick([0.5, 0.25, 0.05]); zp = v.pick([None, 0, 10])
    if t == i8 and zp is None: v.prune()
    ii = np.iinfo(t); return Case("QuantizeLinear", [In([V(s, f32, 0), V(s, f32, 1) * 4, V(s, f32, 2) * 64]), P(sc, f32), None if zp is None else P(zp, t)], oracle=lambda x, y, z=0: np.clip(rne((x / y).astype(f32)) + int(0 if z is None else z), ii.min, ii.max).astype(t))
@gen("DequantizeLinear")
def dql(v): t = v.pick([u8, i8, i32]); zp = v.pick([None, 3] if t != i32 else [None]); return Case("DequantizeLinear", [X(v.pick([(6,), (2, 3)]), t), P(0.25, f32), None if zp is None else P(zp, t)], oracle=lambda x, y, z=0: ((x.astype(i32) - int(0 if z is None else z)) * y).astype(f32))
@gen("DynamicQuantizeLinear")
def dq(v): return Case("DynamicQuantizeLinear", [In([V((6,), f32, 0), V((6,), f32, 1, 0.5, 3), -V((6,), f32, 2, 0.5, 3)])], nout=3)
@gen("QLinearMatMul")
def qlmm(v):
    t = v.pick([u8, i8]); return Case("QLinearMatMul", [X((2, 3), t), P(0.5, f32), P(2, t), X((3, 4), t), P(0.25, f32), P(1, t), P(0.5, f32), P(3, t)], oracle=lambda a, sa, za, b, sb, zb, sy, zy: np.clip(rne((((a.astype(i32) - int(za)) @ (b.astype(i32) - int(zb))).astype(f32) * (sa * sb / sy))) + int(zy), np.iinfo(t).min, np.iinfo(t).max).astype(t))
# ------------------------------------------------------------------ neural network
def conv_ref(x, w, b=None, dilations=None, strides=None, pads=None, group=1, auto_pad="NOTSET", kernel_shape=None):
    n, c = x.shape[:2]; sp = x.shape[2:]; r = len(sp); K = w.shape[2:]; D = dilations or [1] * r; S = strides or [1] * r; P_ = list(pads) if pads else [0] * (2 * r)
    if auto_pad in ("SAME_UPPER", "SAME_LOWER"):
        for i in range(r):
            o = -(-sp[i] // S[i]); tot = max((o - 1) * S[i] + D[i] * (K[i] - 1) + 1 - sp[i], 0); h = tot // 2; P_[i], P_[i + r] = (h, tot - h) if auto_pad == "SAME_UPPER" else (tot - h, h)
    xp = np.pad(x.astype(f64), [(0, 0), (0, 0)] + [(P_[i], P_[i + r]) for i in range(r)]); O = [(xp.shape[2 + i] - D[i] * (K[i] - 1) - 1) // S[i] + 1 for i in range(r)]; m = w.shape[0]; y = np.zeros([n, m] + O); cg = c // group; mg = m // group
    for o in itertools.product(*map(range, O)):
        for k in itertools.product(*map(range, K)):
            p = xp[(slice(None), slice(None)) + tuple(o[i] * S[i] + k[i] * D[i] for i in range(r))]
            for g in range(group): y[(slice(None), slice(g * mg, (g + 1) * mg)) + o] += p[:, g * cg:(g + 1) * cg] @ w[(slice(g * mg, (g + 1) * mg), slice(None)) + k].astype(f64).T
    if b is not None: y += b.reshape([1, -1] + [1] * r)
    return y.astype(x.dtype)
@gen("Conv")
def conv(v):
    d = v.pick([2, 1, 3]); at = {}
    if d == 2: sp, K = v.pick([((4, 5), (2, 3)), ((3, 3), (3, 3)), ((4, 4), (1, 1)), ((5, 4), (3, 1))])
    elif d == 1: sp, K = v.pick([((6,), (3,)), ((5,), (1,)), ((4,), (2,))])
    else: sp, K = (3, 3, 2), v.pick([(2, 2, 1), (1, 1, 1)])
    g, c, m = v.pick([(1, 2, 3), (2, 2, 4), (3, 3, 3)] + ([(1, 1, 1), (2, 4, 2)] if v.thorough else [])); n = v.pick([1, 2] if v.thorough else [2]); S = v.pick([None, [2] * d]); D = v.pick([None, [2] * d]) if d == 2 and sp == (5, 4) or d == 1 else None
    pd = v.pick([None, [1] * (2 * d), [0, 1] * d, "SAME_UPPER", "SAME_LOWER", "VALID"]); bias = v.flip()
    if S: at["strides"] = S
    if D: at["dilations"] = D
    if isinstance(pd, str): at["auto_pad"] = pd
    elif pd: at["pads"] = pd
    if g > 1: at["group"] = g
    if v.choose(2 if v.thorough else 1): at["kernel_shape"] = list(K)
    P2 = pd if isinstance(pd, list) else [0] * 2 * d
    if not isinstance(pd, str) or pd == "VALID":
        if any(sp[i] + P2[i] + P2[i + d] < (D or [1] * d)[i] * (K[i] - 1) + 1 for i in range(d)): v.prune()
    return Case("Conv", [X((n, c) + sp), In([V((m, c // g) + K, f32, k + 1) for k in range(3)], "x"), X((m,)) if bias else None], at, oracle=conv_ref, tol=1e-4)
@gen("ConvTranspose")
def convt(v):
    d = v.pick([2, 1]); sp, K = v.pick([((3, 2), (2, 2)), ((2, 3), (3, 1)), ((3, 3), (3, 3))]) if d == 2 else v.pick([((4,), (3,)), ((3,), (2,))]); g, c, m = v.pick([(1, 2, 3), (2, 4, 2)] + ([(1, 1, 1), (2, 2, 1)] if v.thorough else [])); at = {}
    S = v.pick([None, [2] * d] + ([[3] * d] if v.thorough else [])); pd = v.pick([None, [1, 0] * d, "SAME_UPPER", "SAME_LOWER"] + ([[1] * (2 * d), [0, 1] * d] if v.thorough else [])); op = v.pick([None, [1] * d]) if S and not isinstance(pd, str) else None; D = v.pick([None, [2] * d]) if not isinstance(pd, str) else None
    if S: at["strides"] = S
    if D: at["dilations"] = D
    if isinstance(pd, str): at["auto_pad"] = pd
    elif pd: at["pads"] = pd
    if op: at["output_padding"] = op
    if g > 1: at["group"] = g
    def orc(x, w, b=None, strides=None, dilations=None, pads=None, auto_pad=None, output_padding=None, group=1):
        r = x.ndim - 2; S_ = strides or [1] * r; D_ = dilations or [1] * r; OP = output_padding or [0] * r; full = [S_[i] * (x.shape[2 + i] - 1) + OP[i] + (w.shape[2 + i] - 1) * D_[i] + 1 for i in range(r)]; pp = list(pads) if pads else [0] * 2 * r
        if auto_pad:
            for i in range(r):
                tot = max(full[i] - x.shape[2 + i] * S_[i], 0); h = tot // 2; pp[i], pp[i + r] = (h, tot - h) if auto_pad == "SAME_UPPER" else (tot - h, h)
        mg = w.shape[1]; cg = x.shape[1] // group; y = np.zeros([x.shape[0], mg * group] + full)
        for o in itertools.product(*map(range, x.shape[2:])):
            for k in itertools.product(*map(range, w.shape[2:])):
                pos = tuple(o[i] * S_[i] + k[i] * D_[i] for i in range(r))
                for gg in range(group): y[(slice(None), slice(gg * mg, (gg + 1) * mg)) + pos] += x[(slice(None), slice(gg * cg, (gg + 1) * cg)) + o].astype(f64) @ w[(slice(gg * cg, (gg + 1) * cg), slice(None)) + k]
        y = y[(slice(None), slice(None)) + tuple(slice(pp[i], full[i] - pp[i + r]) for i in range(r))]
        if b is not None: y = y + b.reshape([1, -1] + [1] * r)
        return y.astype(x.dtype)
    pl = pd if isinstance(pd, list) else [0] * 2 * d
    if any((S or [1] * d)[i] * (sp[i] - 1) + (op or [0] * d)[i] + (K[i] - 1) * (D or [1] * d)[i] + 1 - pl[i] - pl[i + d] < 1 for i in range(d)): v.prune()
    return Case("ConvTranspose", [X((1, c) + sp), In([V((c, m) + K, f32, k + 1) for k in range(3)], "c"), In([V((m * g,), f32, 3)] * 3, "c") if v.flip() else None], at, oracle=orc, tol=1e-4)
def pool_ref(kind, x, kernel_shape, strides=None, pads=None, dilations=None, ceil_mode=0, count_include_pad=0, auto_pad="NOTSET"):
    r = x.ndim - 2; sp = x.shape[2:]; K = kernel_shape; S = strides or [1] * r; D = dilations or [1] * r; P_ = list(pads) if pads else [0] * 2 * r; O = []
    for i in range(r):
        e = D[i] * (K[i] - 1) + 1
        if auto_pad in ("SAME_UPPER", "SAME_LOWER"):
            o = -(-sp[i] // S[i]); tot = max((o - 1) * S[i] + e - sp[i], 0); h = tot // 2; P_[i], P_[i + r] = (h, tot - h) if auto_pad == "SAME_UPPER" else (tot - h, h)
        else:
            q = sp[i] + P_[i] + P_[i + r] - e; o = (-(-q // S[i]) if ceil_mode else q // S[i]) + 1
            if ceil_mode and (o - 1) * S[i] >= sp[i] + P_[i]: o -= 1
        O.append(o)
    y = np.zeros(x.shape[:2] + tuple(O), x.dtype)
    for o in itertools.product(*map(range, O)):
        acc = []; cnt = 0
        for k in itertools.product(*map(range, K)):
            p = [o[i] * S[i] + k[i] * D[i] - P_[i] for i in range(r)]
            if all(0 <= p[i] < sp[i] for i in range(r)): acc.append(x[(slice(None), slice(None)) + tuple(p)]); cnt += 1
            elif count_include_pad and all(-P_[i] <= p[i] < sp[i] + P_[i + r] for i in range(r)): cnt += 1
        y[(slice(None), slice(None)) + o] = np.max(acc, 0) if kind == "max" else np.sum(acc, 0) / cnt
    return y
@gen("MaxPool", "AveragePool")
def pool(v, op):
    d = v.pick([2, 1]); sp, K = v.pick([((4, 5), (2, 3)), ((4, 4), (2, 2)), ((5, 3), (3, 3))]) if d == 2 else v.pick([((5,), (2,)), ((6,), (3,))]); at = {"kernel_shape": list(K)}; S = v.pick([None, [2] * d, [3] * d]); pd = v.pick([None, [1] * 2 * d, [0, 1] * d, "SAME_UPPER", "SAME_LOWER", "VALID"]); D = v.pick([None, [2] * d]); cm = v.choose(2); at2 = {}
    if S: at["strides"] = S
    if D: at["dilations"] = D
    if isinstance(pd, str): at["auto_pad"] = pd
    elif pd: at["pads"] = pd
    if cm: at["ceil_mode"] = 1
    if op == "AveragePool" and v.flip(): at["count_include_pad"] = 1
    pl = pd if isinstance(pd, list) else [0] * 2 * d
    if isinstance(pd, str) and (cm or D): v.prune()
    if any(sp[i] + pl[i] + pl[i + d] < (D or [1] * d)[i] * (K[i] - 1) + 1 for i in range(d)) or any(p >= K[i % d] for i, p in enumerate(pl)): v.prune()
    return Case(op, [X((1, 2) + sp)], at, oracle=lambda x, **a: pool_ref("max" if op == "MaxPool" else "avg", x, **a))
@gen("GlobalAveragePool", "GlobalMaxPool")
def gpool(v, op): s = v.pick([(2, 3, 4), (1, 2, 2, 3), (2, 1, 2, 2, 2)]); return Case(op, [X(s)], oracle=lambda x: (np.max if op == "GlobalMaxPool" else np.mean)(x, axis=tuple(range(2, x.ndim)), keepdims=True).astype(x.dtype))
@gen("BatchNormalization")
def bn(v): s = v.pick([(2, 3, 2), (1, 2, 2, 3), (2, 3)]); c = s[1]; return Case("BatchNormalization", [X(s), In([V((c,), f32, 1, 0.5, 2)] * 3, v.pick(["x", "c"])), In([V((c,), f32, 2)] * 3, "x"), In([V((c,), f32, 3)] * 3, "x"), In([V((c,), f32, 4, 0.5, 2)] * 3, "x")], v.pick([{}, {"epsilon": 0.1}]), tol=1e-4, oracle=lambda x, sc, b, m, va, epsilon=1e-5: (lambda q: (q(sc) * (x - q(m)) / np.sqrt(q(va) + epsilon) + q(b)).astype(f32))(lambda z: z.reshape([1, -1] + [1] * (x.ndim - 2))))
@gen("InstanceNormalization")
def inorm(v): s = v.pick([(2, 3, 4), (1, 2, 2, 3)]); c = s[1]; return Case("InstanceNormalization", [X(s), X((c,)), In([V((c,), f32, 2)] * 3)], v.pick([{}, {"epsilon": 0.1}]), tol=2e-4)
@gen("LayerNormalization")
def lnorm(v):
    s = v.pick([(2, 4), (2, 3, 4), (3, 16)] + ([(2, 2, 2, 3)] if v.thorough else [])); r = len(s); ax = v.choose(2 * r) - r; n = s[ax:] if ax < 0 else s[ax:]; b = v.flip(); no = v.pick([1, 3]); eps = v.pick([1e-5, 0.1]); sc = v.pick([n, n[-1:]])
    def orc(x, g, be=None, **a):
        ax_ = tuple(range(ax % r, r)); m = x.mean(ax_, keepdims=True, dtype=f64); va = ((x - m) ** 2).mean(ax_, keepdims=True); inv = 1 / np.sqrt(va + eps); y = (x - m) * inv * g + (0 if be is None else be); return [z.astype(f32) for z in (y, m, inv)][:no]
    return Case("LayerNormalization", [X(s), In([V(sc, f32, 1)] * 3, "x"), In([V(sc, f32, 2)] * 3, "x") if b else None], {"axis": ax, "epsilon": eps}, nout=no, oracle=orc, tol=2e-4)
@gen("GroupNormalization")
def gnorm(v): g, s = v.pick([(2, (1, 4, 2, 2)), (1, (2, 2, 3)), (2, (2, 4, 3)), (4, (1, 4, 2))]); c = s[1]; return Case("GroupNormalization", [X(s), X((c,)), In([V((c,), f32, 2)] * 3)], {"num_groups": g}, tol=2e-4)
@gen("LRN")
def lrn(v): return Case("LRN", [X(v.pick([(1, 5, 2, 2), (2, 3, 1, 2)]))], dict({"size": v.pick([1, 3, 5, 2])}, **v.pick([{}, {"alpha": 0.5, "beta": 0.5, "bias": 2.0}])), tol=1e-4, oracle=lambda x, size, alpha=1e-4, beta=0.75, bias=1.0: np.stack([x[:, c] / (bias + alpha / size * np.sum(x[:, max(0, c - (size - 1) // 2):min(x.shape[1], c + size // 2 + (size - 1) % 2 * 0 + (0 if size % 2 == 0 else 0) + 1)].astype(f64) ** 2, 1)) ** beta for c in range(x.shape[1])], 1).astype(f32))
@gen("Softmax", "LogSoftmax", "Hardmax")
def softmax(v, op): s = v.pick([(5,), (2, 3), (2, 3, 4), (3, 17)]); r = len(s); a = v.pick([{}] + [{"axis": x} for x in range(-r, r)]); o = 13 if op != "Hardmax" else 13; return Case(op, [X(s, v.pick([f32, f64]))], a, tol=1e-4)
@gen("Softmax-11", "LogSoftmax-11", "Hardmax-11")
def softmax11(v, op):
    op = op.split("-")[0]; s = v.pick([(2, 3), (2, 3, 4)]); r = len(s); a = v.pick([{}] + [{"axis": x} for x in range(0, r)])
    def orc(x, axis=1):
        y = x.reshape(int(np.prod(x.shape[:axis])), -1).astype(f64); e = np.exp(y - y.max(1, keepdims=True)); sm = e / e.sum(1, keepdims=True)
        z = {"Softmax": sm, "LogSoftmax": np.log(sm), "Hardmax": np.eye(y.shape[1])[y.argmax(1)]}[op]; return z.reshape(x.shape).astype(f32)
    return Case(op, [X(s)], a, oracle=orc, opset=11, label="-11", tol=1e-4)
@gen("LpNormalization")
def lpn(v): s = v.pick([(2, 3), (2, 3, 2)]); return Case("LpNormalization", [X(s, lo=0.5, hi=3)], {"axis": v.pick([-1, 0, 1]), "p": v.pick([1, 2])})
@gen("MeanVarianceNormalization")
def mvn(v): s = v.pick([(2, 3, 2, 2), (1, 2, 3, 2)]); return Case("MeanVarianceNormalization", [X(s)], v.pick([{}, {"axes": [2, 3]}, {"axes": [0, 1]}]), tol=5e-4)
@gen("Resize")
def resize(v):
    s = v.pick([(1, 1, 2, 4), (1, 1, 3, 3)]); sc = v.pick([[1, 1, 2, 2], [1, 1, 1.5, 2], [1, 1, 0.625, 0.625], [1, 1, 1, 1]]); use = v.pick(["scales", "sizes"]); ct = v.pick(["half_pixel", "asymmetric", "align_corners"]); nm = v.pick(["round_prefer_floor", "floor", "ceil", "round_prefer_ceil"])
    if use == "sizes": return Case("Resize", [X(s), None, None, P([s[i] if i < 2 else int(s[i] * sc[i]) for i in range(4)], i64, "c")], {"mode": "nearest", "coordinate_transformation_mode": ct, "nearest_mode": nm}, label="-sizes")
    return Case("Resize", [X(s), None, P(sc, f32, "c")], {"mode": "nearest", "coordinate_transformation_mode": ct, "nearest_mode": nm})
@gen("GridSample")
def gridsample(v): s = (1, 2, 3, 4); return Case("GridSample", [X(s), In([V((1, 2, 3, 2), f32, k, -1.2, 1.2) for k in range(3)])], {"mode": v.pick(["linear", "nearest"]), "padding_mode": v.pick(["zeros", "border"]), "align_corners": v.choose(2)}, tol=1e-4)
# ------------------------------------------------------------------ recurrent
def sig(x): return 1 / (1 + np.exp(-x))
ACT = {"Sigmoid": sig, "Tanh": np.tanh, "Relu": lambda x: np.maximum(x, 0)}
def rnn_ref(kind, x, w, r, b, h0, c0, sl, direction, acts, layout, lbr=0, P_=None):
    x = x.astype(f64)
    if layout: x = x.transpose(1, 0, 2); h0 = None if h0 is None else h0.transpose(1, 0, 2); c0 = None if c0 is None else c0.transpose(1, 0, 2)
    T, B, _ = x.shape; nd = 2 if direction == "bidirectional" else 1; H = r.shape[2]; Y = np.zeros((T, nd, B, H)); Yh = np.zeros((nd, B, H)); Yc = np.zeros((nd, B, H)); ng = {"RNN": 1, "GRU": 3, "LSTM": 4}[kind]; na = {"RNN": 1, "GRU": 2, "LSTM": 3}[kind]
    for d in range(nd):
        A = [ACT[a] for a in acts[d * na:(d + 1) * na]]; Wb = b[d, :ng * H] if b is not None else np.zeros(ng * H); Rb = b[d, ng * H:] if b is not None else np.zeros(ng * H)
        for n in range(B):
            h = np.zeros(H) if h0 is None else h0[d, n].astype(f64); c = np.zeros(H) if c0 is None else c0[d, n].astype(f64); L = T if sl is None else int(sl[n]); order = range(L) if (direction == "forward" or d == 0 and nd == 2) else range(L - 1, -1, -1)
            if direction == "reverse": order = range(L - 1, -1, -1)
            for t in order:
                xg = w[d] @ x[t, n] + Wb; hg = r[d] @ h + Rb
                if kind == "RNN": h = A[0](xg + hg)
                elif kind == "GRU":
                    z = A[0](xg[:H] + hg[:H]); rr = A[0](xg[H:2 * H] + hg[H:2 * H]); hh = A[1](xg[2 * H:] + (rr * hg[2 * H:] if lbr else r[d][2 * H:] @ (rr * h) + Rb[2 * H:])); h = (1 - z) * hh + z * h
                else:
                    g = xg + hg; pi, po, pf = (P_[d][:H], P_[d][H:2 * H], P_[d][2 * H:]) if P_ is not None else (0, 0, 0); i = A[0](g[:H] + pi * c); f = A[0](g[2 * H:3 * H] + pf * c); cc = A[1](g[3 * H:]); c = f * c + i * cc; o = A[0](g[H:2 * H] + po * c); h = o * A[2](c)
                Y[t, d, n] = h
            Yh[d, n] = h; Yc[d, n] = c
    if layout: Y, Yh, Yc = Y.transpose(2, 0, 1, 3), Yh.transpose(1, 0, 2), Yc.transpose(1, 0, 2)
    return [a.astype(f32) for a in ((Y, Yh, Yc) if kind == "LSTM" else (Y, Yh))]
@gen("RNN", "GRU", "LSTM")
def rnn(v, op):
    di = v.pick(["forward", "reverse", "bidirectional"]); nd = 2 if di == "bidirectional" else 1; T, B, I, H = v.pick([(3, 2, 2, 2)] + ([(2, 1, 2, 2), (3, 2, 2, 1)] if v.thorough else [])); ng = {"RNN": 1, "GRU": 3, "LSTM": 4}[op]; lay = v.choose(2); bias = v.flip(); ini = v.flip(); sl = v.flip(); lbr = v.choose(2) if op == "GRU" else 0; ac = v.flip(); pe = v.flip() if op == "LSTM" else 0
    base = {"RNN": ["Tanh"], "GRU": ["Sigmoid", "Tanh"], "LSTM": ["Sigmoid", "Tanh", "Tanh"]}[op]; alt = {"RNN": ["Relu"], "GRU": ["Tanh", "Relu"], "LSTM": ["Sigmoid", "Relu", "Tanh"]}[op]; acts = (alt if ac else base) * nd
    sw = lambda s, k: (V(s, f32, k) * 0.25).astype(f32); hs = (B, nd, H) if lay else (nd, B, H); xs = (B, T, I) if lay else (T, B, I)
    seqlen = In([np.array([max(1, T - ((n + k) % 2)) for n in range(B)], i32) for k in range(3)]) if sl else None
    ins = [X(xs), In([sw((nd, ng * H, I), 1)] * 3, "c"), In([sw((nd, ng * H, H), 2)] * 3, "c"), In([sw((nd, 2 * ng * H), 3)] * 3, "c") if bias else None, seqlen, X(hs) if ini else None]
    if op == "LSTM": ins += [In([V(hs, f32, k + 4) for k in range(3)]) if ini else None, In([sw((nd, 3 * H), 5)] * 3, "c") if pe else None]
    at = {"hidden_size": H, "direction": di, "layout": lay}
    if ac: at["activations"] = acts
    if op == "GRU": at["linear_before_reset"] = lbr
    def orc(x, w, r, b=None, s=None, h0=None, c0=None, p=None, **k): return rnn_ref(op, x, w, r, b, h0, c0, s, di, acts, lay, lbr, p)
    return Case(op, ins, at, nout=3 if op == "LSTM" else 2, oracle=orc, tol=2e-4)
# ------------------------------------------------------------------ control flow
def vi(n, t, s=None): return helper.make_tensor_value_info(n, t, s)
@gen("If")
def if_(v):
    s = v.pick([(3,), (2, 2), ()]); kind = v.pick(["add-sub", "outer", "const", "two"]); no = 2 if kind == "two" else 1
    def build(names, outs):
        c, a, b = names; t_, e_ = {"add-sub": ("Add", "Sub"), "outer": ("Identity", "Neg"), "const": ("Mul", "Add"), "two": ("Add", "Sub")}[kind]; n2 = lambda o: [a] if o in ("Identity", "Neg") else [a, b]
        tn = [helper.make_node(t_, n2(t_), ["t0"])]; en = [helper.make_node(e_, n2(e_), ["e0"])]; to, eo = [vi("t0", 1, list(s))], [vi("e0", 1, list(s))]
        if no == 2: tn.append(helper.make_node("Neg", ["t0"], ["t1"])); en.append(helper.make_node("Abs", ["e0"], ["e1"])); to.append(vi("t1", 1, list(s))); eo.append(vi("e1", 1, list(s)))
        return [helper.make_node("If", [c], outs, then_branch=helper.make_graph(tn, "t", [], to), else_branch=helper.make_graph(en, "e", [], eo))]
    def orc(c, a, b):
        if kind == "outer": return a if c else -a
        if kind == "const": return a * b if c else a + b
        y = a + b if c else a - b; return [y, -y if c else abs(y)] if no == 2 else y
    return Case("If", [In([np.array(True), np.array(False), np.array(True)]), X(s), In([V(s, f32, k + 1) for k in range(3)])], build=build, oracle=orc, nout=no, label="-" + kind)
@gen("Loop")
def loop(v):
    s = v.pick([(3,), (2, 2)]); kind = v.pick(["trip", "cond", "both", "scan", "zero"])
    def build(names, outs):
        m, c, x = names; body = [helper.make_node("Add", ["acc", "acc"], ["acc1"])]; T1 = numpy_helper.from_array(np.array(3.0 if kind in ("cond", "both") else 1e30, f32), "lim")
        body += [helper.make_node("ReduceMax", ["acc1"], ["mx"], keepdims=0), helper.make_node("Constant", [], ["lim"], value=T1), helper.make_node("Less", ["mx", "lim"], ["co"])]
        o = [vi("co", 9, []), vi("acc1", 1, list(s))]; 
        if kind == "scan": body.append(helper.make_node("Neg", ["acc1"], ["sc"])); o.append(vi("sc", 1, list(s)))
        return [helper.make_node("Loop", [m, c, x], outs, body=helper.make_graph(body, "b", [vi("it", 7, []), vi("ci", 9, []), vi("acc", 1, list(s))], o))]
    M = {"trip": 3, "cond": 50, "both": 2, "scan": 3, "zero": 0}[kind]
    def orc(m, c, x):
        a = x; sc = []; ok = bool(c); i = 0; lim = 3.0 if kind in ("cond", "both") else 1e30
        while ok and i < int(m): a = a + a; sc.append(-a); ok = a.max() < lim; i += 1
        return [a, np.stack(sc)] if kind == "scan" else a
    return Case("Loop", [In([np.array(M, i64)] * 3), In([np.array(True)] * 3), In([V(s, f32, k, 0.1, 0.4) for k in range(3)])], build=build, oracle=orc, nout=2 if kind == "scan" else 1, label="-" + kind)
@gen("Scan")
def scan(v):
    n = v.pick([3, 1]); d = v.pick([(2,), (2, 2)]); dirs = v.pick([None, [1]])
    def build(names, outs):
        b = [helper.make_node("Add", ["s", "e"], ["s1"]), helper.make_node("Mul", ["s1", "e"], ["o"])]
        g = helper.make_graph(b, "b", [vi("s", 1, list(d)), vi("e", 1, list(d))], [vi("s1", 1, list(d)), vi("o", 1, list(d))]); k = {"scan_input_directions": dirs} if dirs else {}
        return [helper.make_node("Scan", names, outs, num_scan_inputs=1, body=g, **k)]
    def orc(s, x):
        o = []
        for e in (x[::-1] if dirs else x): s = s + e; o.append(s * e)
        return [s, np.stack(o)]
    if dirs: v.prune()
    return Case("Scan", [X(d), In([V((n,) + d, f32, k + 1) for k in range(3)])], build=build, oracle=orc, nout=2)
@gen("BlackmanWindow", "HammingWindow", "HannWindow")
def window(v, op): return Case(op, [P(v.pick([5, 8, 1][:2]), v.pick([i64, i32]))], {"periodic": v.choose(2)}, tol=1e-4)
@gen("Binarizer")
def binarizer(v): return Case("Binarizer", [X((2, 3))], v.pick([{}, {"threshold": 0.5}]), domain="ai.onnx.ml", oracle=lambda x, threshold=0.0: (x > threshold).astype(f32))
@gen("NonMaxSuppression")
def nms(v):
    boxes = np.array([[[0, 0, 1, 1], [0, 0.1, 1, 1.1], [0, -0.1, 1, 0.9], [0, 10, 1, 11], [0, 10.1, 1, 11.1], [0, 100, 1, 101]]], f32); sc = np.array([[[0.9, 0.75, 0.6, 0.95, 0.5, 0.3]]], f32); return Case("NonMaxSuppression", [In([boxes] * 3), In([sc, sc[:, :, ::-1].copy(), sc * 0.5]), P([v.pick([1, 2, 3, 9])]), P([v.pick([0.5, 0.9, 0.25])], f32), P([v.pick([0.0, 0.55])], f32)])
@gen("DFT")
def dft(v): inv = v.choose(2); one = v.choose(2); c = v.pick([1, 2]); v.prune() if one and c == 2 else None; v.prune() if inv and one else None; return Case("DFT", [X((1, 5, c)), None, P(1, i64, "c")], {"inverse": inv, "onesided": one}, tol=1e-3, opset=20)
def close(a, e, tol):
    if a.dtype != e.dtype: return "type %s instead of %s" % (a.dtype, e.dtype)
    if a.shape != e.shape: return "shape %s instead of %s" % (list(a.shape), list(e.shape))
    if a.dtype.kind == "f":
        with np.errstate(all="ignore"): bad = ~((a == e) | (np.isnan(a) & np.isnan(e)) | (np.abs(a - e) <= tol * (1 + np.abs(e))))
    else: bad = a != e
    if bad.any(): i = tuple(int(x) for x in np.argwhere(bad)[0]) if a.ndim else (); return "element %s is %s instead of %s (computed %s, specified %s)" % (list(i), a[i], e[i], a.reshape(-1)[:12].tolist(), e.reshape(-1)[:12].tolist())
    return None

# ------------------------------------------------------------------ judging one compilation
def modes(case):
    "how the inputs are given: (name, constants, dynamic)"
    ps = [i for i, x in enumerate(case.ins) if x is not None and x.kind == "p"]; cs = [i for i, x in enumerate(case.ins) if x is not None and x.kind == "c"]; xs = [i for i, x in enumerate(case.ins) if x is not None and x.kind == "x"]
    m = [("static", tuple(ps + cs), ()), ("dynamic", tuple(ps + cs), tuple(xs))]
    if ps: m += [("runtime", tuple(cs), ()), ("runtime-dynamic", tuple(cs), tuple(xs))]
    return m
TY = {"f32": np.float32, "f64": np.float64, "i8": np.int8, "i16": np.int16, "i32": np.int32, "i64": np.int64, "ui8": np.uint8, "ui16": np.uint16, "ui32": np.uint32, "ui64": np.uint64, "i1": np.bool_, "f16": np.float16}
import json, re
def judge(case, consts, dynamic, flags, omc, runs=(0, 1, 2), sig=False):
    """compiles and runs; returns (kind, message) of the first deviation, or None"""
    exps = [case.expected(r, consts) for r in runs]; m = case.finish(consts, dynamic, exps[0])
    feeds = [[x.runs[0 if i in consts else r] for i, x in enumerate(case.ins) if x is not None and i not in consts] for r in runs]
    a = omc.run(m, feeds, flags)
    if a["stage"] != "ok": return ("%s:%s" % (a["stage"], a["at"]) if a["stage"] == "crash" else a["stage"]), "%s" % {k: (x[-900:] if isinstance(x, str) else x) for k, x in a.items()}
    try: os_ = json.loads(a["osig"])
    except Exception as e: return "signature", "not JSON: %s" % a["osig"]
    for r, res, exp in zip(runs, a["runs"], exps):
        if res["null"]: return "null", "run %d returned NULL (errno %d) %s" % (r, res["errno"], a["log"][-500:])
        if len(res["arrays"]) != len(exp): return "count", "%d outputs instead of %d" % (len(res["arrays"]), len(exp))
        for i, (o, e) in enumerate(zip(res["arrays"], exp)):
            if o is None: return "type", "output %d has type %s" % (i, res["outs"][i]["t"])
            d = close(o, e, case.tol)
            if d: return "wrong", "run %d (inputs %s) output %d: %s" % (r, [f.reshape(-1)[:12].tolist() for f in feeds[runs.index(r)]], i, d)
            s = os_[i]
            if len(s["dims"]) != o.ndim or any(x != -1 and x != y for x, y in zip(s["dims"], o.shape)) or TY.get(s["type"]) != o.dtype.type: return "signature", "output %d declared %s, computed %s%s" % (i, s, o.dtype, list(o.shape))
        if res["touched"]: return "input-modified", "run %d changed an input" % r
        if res["leak"] > res["distinct"]: return "leak", "run %d leaves %d blocks for %d outputs" % (r, res["leak"], res["distinct"])
    return None
