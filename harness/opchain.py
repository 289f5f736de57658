"""C43: all chains of two graph steps, and the multi-operator patterns the compiler's rewrites look for, compiled with every set of
optimisation options and run: the outputs are those of the model as written (ONNX's reference evaluator on the unrewritten graph)."""
import os, re, numpy as np, vcpy, omc, ommodels as M, omscope
from ommodels import V, f32, f64, i64, i32, helper, numpy_helper, vi
from onnx.reference import ReferenceEvaluator
class B:
    def __init__(self): self.nodes, self.init, self.n = [], [], 0
    def c(self, a, t=f32): self.n += 1; nm = "c%d" % self.n; self.init.append(numpy_helper.from_array(np.asarray(a, dtype=t), nm)); return nm
    def op(self, o, *ins, nout=1, **at): self.n += 1; outs = ["t%d_%d" % (self.n, i) for i in range(nout)]; self.nodes.append(helper.make_node(o, list(ins), outs, **at)); return outs[0] if nout == 1 else outs
S = {}
def step(name):
    def d(f): S[name] = f; return f
    return d
# a step: f(b, x, s) -> (name, shape) or None when it does not apply to this shape; "y" is a second input of the model's shape (2-step: only when s matches)
for o in ("Relu", "Neg", "Sigmoid", "Tanh", "Exp", "Abs", "Floor", "Round", "Sign", "Softplus", "HardSwish", "Identity"): S[o] = lambda b, x, s, o=o: (b.op(o, x), s)
S["Erf"] = lambda b, x, s: (b.op("Erf", x), s); S["LeakyRelu"] = lambda b, x, s: (b.op("LeakyRelu", x, alpha=0.5), s); S["Elu"] = lambda b, x, s: (b.op("Elu", x), s)
S["Gelu"] = lambda b, x, s: (b.op("Gelu", x), s); S["HardSigmoid"] = lambda b, x, s: (b.op("HardSigmoid", x), s)
S["sqrt"] = lambda b, x, s: (b.op("Sqrt", b.op("Abs", x)), s); S["rec"] = lambda b, x, s: (b.op("Reciprocal", b.op("Add", b.op("Abs", x), b.c(1))), s); S["log"] = lambda b, x, s: (b.op("Log", b.op("Add", b.op("Abs", x), b.c(1))), s)
for o in ("Add", "Sub", "Mul", "Div", "Max", "Min"):
    S[o + "-scalar"] = lambda b, x, s, o=o: (b.op(o, x, b.c(1.5)), s)
    S[o + "-last"] = lambda b, x, s, o=o: (b.op(o, x, b.c(np.where(V((s[-1],), f32, 1) == 0, 1, V((s[-1],), f32, 1)))), s) if s else None
    S[o + "-y"] = lambda b, x, s, o=o: (b.op(o, x, "y" if o != "Div" else b.op("Add", b.op("Abs", "y"), b.c(0.5))), s) if s == b.shape else None
S["scalar-Sub"] = lambda b, x, s: (b.op("Sub", b.c(1.5), x), s); S["add0"] = lambda b, x, s: (b.op("Add", x, b.c(np.zeros(s))), s) if b.static else None; S["mul1"] = lambda b, x, s: (b.op("Mul", x, b.c(1)), s); S["add-self"] = lambda b, x, s: (b.op("Add", x, x), s)
S["Add-mid"] = lambda b, x, s: (b.op("Add", b.c(V((s[-2], 1), f32, 2)), x), s) if len(s) > 1 else None
for p in (2, 3, 1, 0): S["pow%d" % p] = lambda b, x, s, p=p: (b.op("Pow", x, b.c(float(p))), s)
S["pow.5"] = lambda b, x, s: (b.op("Pow", b.op("Abs", x), b.c(0.5)), s)
S["clip"] = lambda b, x, s: (b.op("Clip", x, b.c(-1), b.c(1)), s); S["clip-lo"] = lambda b, x, s: (b.op("Clip", x, b.c(0.25)), s); S["clip-hi"] = lambda b, x, s: (b.op("Clip", x, "", b.c(-0.5)), s)
S["tr-rev"] = lambda b, x, s: (b.op("Transpose", x), tuple(reversed(s))); S["tr-last"] = lambda b, x, s: (b.op("Transpose", x, perm=list(range(len(s) - 2)) + [len(s) - 1, len(s) - 2]), s[:-2] + (s[-1], s[-2])) if len(s) > 1 else None
S["tr-rot"] = lambda b, x, s: (b.op("Transpose", x, perm=[(i + 1) % len(s) for i in range(len(s))]), s[1:] + s[:1]) if s else None; S["tr-id"] = lambda b, x, s: (b.op("Transpose", x, perm=list(range(len(s)))), s) if s else None
def rs(b, x, s, t): return b.op("Reshape", x, b.c(t, i64))
S["rs-flat"] = lambda b, x, s: (rs(b, x, s, [-1]), (int(np.prod(s)),)); S["rs-0m"] = lambda b, x, s: (rs(b, x, s, [0, -1]), (s[0], int(np.prod(s[1:])))) if len(s) > 1 else None
S["rs-split"] = lambda b, x, s: (rs(b, x, s, list(s[:-1]) + [2, s[-1] // 2]), s[:-1] + (2, s[-1] // 2)) if s and s[-1] % 2 == 0 else None; S["rs-same"] = lambda b, x, s: (rs(b, x, s, list(s)), s) if s else None
S["flatten"] = lambda b, x, s: (b.op("Flatten", x, axis=1), (s[0], int(np.prod(s[1:])))) if s else None
S["unsq0"] = lambda b, x, s: (b.op("Unsqueeze", x, b.c([0], i64)), (1,) + s); S["unsq-1"] = lambda b, x, s: (b.op("Unsqueeze", x, b.c([-1], i64)), s + (1,)); S["sq"] = lambda b, x, s: (b.op("Squeeze", x, b.c([s.index(1)], i64)), s[:s.index(1)] + s[s.index(1) + 1:]) if 1 in s else None
S["expand"] = lambda b, x, s: (b.op("Expand", x, b.c((2,) + tuple([1] * len(s)), i64)), (2,) + s); S["tile"] = lambda b, x, s: (b.op("Tile", x, b.c([1] * (len(s) - 1) + [2], i64)), s[:-1] + (2 * s[-1],)) if s else None
S["slice"] = lambda b, x, s: (b.op("Slice", x, b.c([1], i64), b.c([1 << 40], i64), b.c([-1], i64)), s[:-1] + (s[-1] - 1,)) if s and s[-1] > 1 else None; S["slice-rev"] = lambda b, x, s: (b.op("Slice", x, b.c([-1], i64), b.c([-100], i64), b.c([0], i64), b.c([-1], i64)), s) if s else None
S["pad"] = lambda b, x, s: (b.op("Pad", x, b.c([0] * (len(s) - 1) + [1] + [0] * (len(s) - 1) + [2], i64), b.c(0.5)), s[:-1] + (s[-1] + 3,)) if s else None
S["gather"] = lambda b, x, s: (b.op("Gather", x, b.c([0, s[-1] - 1, 0], i64), axis=len(s) - 1), s[:-1] + (3,)) if s else None; S["gather0"] = lambda b, x, s: (b.op("Gather", x, b.c(0, i64)), s[1:]) if len(s) > 1 else None
S["concat"] = lambda b, x, s: (b.op("Concat", x, b.op("Neg", x), axis=-1), s[:-1] + (2 * s[-1],)) if s else None; S["concat0"] = lambda b, x, s: (b.op("Concat", x, b.c(np.ones((1,) + s[1:])), axis=0), (s[0] + 1,) + s[1:]) if s and b.static else None
def split(b, x, s):
    if not s or s[-1] % 2: return None
    p, q = b.op("Split", x, nout=2, axis=len(s) - 1, num_outputs=2); return b.op("Mul", p, q), s[:-1] + (s[-1] // 2,)
S["split"] = split
S["split-un"] = lambda b, x, s: (lambda o: (b.op("Sub", o[1], o[0]), s[:-1] + (1,)))(b.op("Split", x, b.c([1, 1] + ([s[-1] - 2] if s[-1] > 2 else []), i64), nout=3 if s[-1] > 2 else 2, axis=len(s) - 1)) if s and s[-1] >= 2 else None
for o in ("ReduceMean", "ReduceMax", "ReduceSum", "ReduceL2", "ReduceLogSumExp"): S[o] = lambda b, x, s, o=o: (b.op(o, x, b.c([-1], i64), keepdims=1), s[:-1] + (1,)) if s else None
S["rsum-0"] = lambda b, x, s: (b.op("ReduceSum", x, b.c([0], i64), keepdims=0), s[1:]) if s else None
S["softmax"] = lambda b, x, s: (b.op("Softmax", x, axis=-1), s) if s else None; S["logsoftmax"] = lambda b, x, s: (b.op("LogSoftmax", x, axis=0), s) if s else None
S["cast-f64"] = lambda b, x, s: (b.op("Cast", b.op("Cast", x, to=11), to=1), s); S["cast-i32"] = lambda b, x, s: (b.op("Cast", b.op("Cast", x, to=6), to=1), s); S["cast-bool"] = lambda b, x, s: (b.op("Cast", b.op("Cast", x, to=9), to=1), s); S["cast-f32"] = lambda b, x, s: (b.op("Cast", x, to=1), s)
S["where"] = lambda b, x, s: (b.op("Where", b.op("Greater", x, b.c(0.25)), x, b.c(-3)), s); S["less"] = lambda b, x, s: (b.op("Cast", b.op("Less", x, b.c(0.5)), to=1), s); S["dropout"] = lambda b, x, s: (b.op("Dropout", x), s)
S["argmax"] = lambda b, x, s: (b.op("Cast", b.op("ArgMax", x, axis=len(s) - 1, keepdims=0), to=1), s[:-1]) if s else None; S["cumsum"] = lambda b, x, s: (b.op("CumSum", x, b.c(0, i64)), s) if s else None
S["matmul"] = lambda b, x, s: (b.op("MatMul", x, b.c(V((s[-1], 3), f32, 1))), s[:-1] + (3,)) if len(s) > 1 else None; S["lmatmul"] = lambda b, x, s: (b.op("MatMul", b.c(V((2, s[-2]), f32, 1)), x), s[:-2] + (2, s[-1])) if len(s) > 1 else None
S["gemm"] = lambda b, x, s: (b.op("Gemm", x, b.c(V((5, s[-1]), f32, 1)), b.c(V((5,), f32, 2)), transB=1, alpha=0.5), (s[0], 5)) if len(s) == 2 else None
S["ln"] = lambda b, x, s: (b.op("LayerNormalization", x, b.c(V((s[-1],), f32, 1)), b.c(V((s[-1],), f32, 2))), s) if s and s[-1] > 1 else None
S["bn"] = lambda b, x, s: (b.op("BatchNormalization", x, b.c(V((s[1],), f32, 1, 0.5, 2)), b.c(V((s[1],), f32, 2)), b.c(V((s[1],), f32, 3)), b.c(V((s[1],), f32, 4, 0.5, 2))), s) if len(s) > 2 else None
S["in"] = lambda b, x, s: (b.op("InstanceNormalization", x, b.c(V((s[1],), f32, 1)), b.c(V((s[1],), f32, 2))), s) if len(s) > 2 and np.prod(s[2:]) > 1 else None
def conv(k, bias, g=1, pad=0, st=1):
    def f(b, x, s):
        if len(s) != 4 or s[1] % g or min(s[2:]) + 2 * pad < k: return None
        return b.op("Conv", x, b.c(V((4, s[1] // g, k, k), f32, 1)), *([b.c(V((4,), f32, 2))] if bias else []), group=g, pads=[pad] * 4, strides=[st, st]), (s[0], 4) + tuple((d + 2 * pad - k) // st + 1 for d in s[2:])
    return f
S["conv1"] = conv(1, 0); S["conv1b"] = conv(1, 1); S["conv3"] = conv(3, 0, 1, 1); S["conv3b"] = conv(3, 1); S["convg"] = conv(2, 1, 2, 0, 2)
S["mul-ch"] = lambda b, x, s: (b.op("Mul", x, b.c(V((1, s[1], 1, 1), f32, 1))), s) if len(s) == 4 else None; S["add-ch"] = lambda b, x, s: (b.op("Add", x, b.c(V((1, s[1], 1, 1), f32, 2))), s) if len(s) == 4 else None
S["maxpool"] = lambda b, x, s: (b.op("MaxPool", x, kernel_shape=[2, 2], strides=[2, 2]), s[:2] + (s[2] // 2, s[3] // 2)) if len(s) == 4 and min(s[2:]) > 1 else None; S["gap"] = lambda b, x, s: (b.op("GlobalAveragePool", x), s[:2] + tuple([1] * (len(s) - 2))) if len(s) > 2 else None
S["d2s"] = lambda b, x, s: (b.op("DepthToSpace", x, blocksize=2), (s[0], s[1] // 4, s[2] * 2, s[3] * 2)) if len(s) == 4 and s[1] % 4 == 0 else None; S["s2d"] = lambda b, x, s: (b.op("SpaceToDepth", x, blocksize=2), (s[0], s[1] * 4, s[2] // 2, s[3] // 2)) if len(s) == 4 and s[2] % 2 == 0 and s[3] % 2 == 0 else None
S["shape-rs"] = lambda b, x, s: (b.op("Reshape", x, b.op("Concat", b.op("Gather", b.op("Shape", x), b.c([0], i64)), b.c([-1], i64), axis=0)), (s[0], int(np.prod(s[1:])))) if len(s) > 1 else None
S["shape-ex"] = lambda b, x, s: (b.op("Expand", b.op("ReduceMax", x, b.c([-1], i64), keepdims=1), b.op("Shape", x)), s) if s else None
S["size"] = lambda b, x, s: (b.op("Div", x, b.op("Cast", b.op("Size", x), to=1)), s)
# multi-operator patterns
P = {}
def lnp(stash, bias, rms, alt):
    def f(b, x, s):
        ax = b.c([-1], i64); d = x if rms else b.op("Sub", x, b.op("ReduceMean", x, ax, keepdims=1)); v = b.op("ReduceMean", b.op("Mul", d, d) if alt else b.op("Pow", d, b.c(2.0)), ax, keepdims=1); e = b.op("Sqrt", b.op("Add", v, b.c(1e-5)))
        n = b.op("Div", d, e) if stash == 0 else b.op("Mul", d, b.op("Div", b.c(1.0), e)) if stash == 1 else b.op("Mul", d, b.op("Reciprocal", e)); y = b.op("Mul", n, b.c(V((s[-1],), f32, 1))) if alt else b.op("Mul", b.c(V((s[-1],), f32, 1)), n); return (b.op("Add", y, b.c(V((s[-1],), f32, 2))) if bias else y), s
    return f
for st in (0, 1, 2):
    for bi in (0, 1):
        for rm in (0, 1):
            for al in (0, 1): P["norm%d%d%d%d" % (st, bi, rm, al)] = lnp(st, bi, rm, al)
def gelu(k, kind):
    def f(b, x, s):
        if kind == "erf": t = b.op("Add", b.op("Erf", b.op("Div", x, b.c(1.4142135)) if k < 2 else b.op("Mul", x, b.c(0.70710678))), b.c(1.0))
        else: t = b.op("Add", b.op("Tanh", b.op("Mul", b.op("Add", x, b.op("Mul", b.op("Pow", x, b.c(3.0)), b.c(0.044715))), b.c(0.7978845))), b.c(1.0))
        return (b.op("Mul", b.op("Mul", b.c(0.5), x), t) if k % 2 else b.op("Mul", b.op("Mul", x, t), b.c(0.5))), s
    return f
for k in range(4): P["gelu-erf%d" % k] = gelu(k, "erf"); P["gelu-tanh%d" % k] = gelu(k, "tanh")
P["gelu-not"] = lambda b, x, s: (b.op("Mul", b.op("Mul", b.c(0.5), x), b.op("Add", b.op("Erf", b.op("Div", x, b.c(1.5))), b.c(1.0))), s)
P["gelu-half"] = lambda b, x, s: (b.op("Mul", b.op("Mul", b.c(0.25), x), b.op("Add", b.op("Erf", b.op("Div", x, b.c(1.4142135))), b.c(1.0))), s)
P["par-conv"] = lambda b, x, s: (b.op("Concat", S["conv1"](b, x, s)[0], S["conv1"](b, x, s)[0], b.op("Conv", x, b.c(V((3, s[1], 1, 1), f32, 2))), axis=1), None) if len(s) == 4 else None
P["par-conv-b"] = lambda b, x, s: (b.op("Concat", S["conv3b"](b, x, s)[0], b.op("Neg", b.op("Conv", x, b.c(V((3, s[1], 3, 3), f32, 2)), b.c(V((3,), f32, 1)))), axis=1), None) if len(s) == 4 else None
P["par-conv-mixbias"] = lambda b, x, s: (b.op("Concat", S["conv3b"](b, x, s)[0], b.op("Conv", x, b.c(V((3, s[1], 3, 3), f32, 2))), axis=1), None) if len(s) == 4 else None
P["matmul-add"] = lambda b, x, s: (b.op("Add", b.op("MatMul", x, b.c(V((s[-1], 3), f32, 1))), b.c(V((3,), f32, 2))), None)
P["add-matmul"] = lambda b, x, s: (b.op("Add", b.c(V((3,), f32, 2)), b.op("MatMul", x, b.c(V((s[-1], 3), f32, 1)))), None)
P["gemm-add"] = lambda b, x, s: (b.op("Add", b.op("Gemm", x, b.c(V((s[-1], 3), f32, 1))), b.c(V((3,), f32, 2))), None) if len(s) == 2 else None
P["attn"] = lambda b, x, s: (b.op("Mul", b.op("Transpose", b.op("Reshape", b.op("Add", b.op("MatMul", x, b.c(V((s[-1], 4), f32, 1))), b.c(V((4,), f32, 2))), b.c([0, 0, 2, 2], i64)), perm=[0, 2, 1, 3]), b.c(0.5)), None) if len(s) == 3 else None
P["attn-div"] = lambda b, x, s: (b.op("Div", b.op("Transpose", b.op("Reshape", b.op("Add", b.op("MatMul", x, b.c(V((s[-1], 4), f32, 1))), b.c(V((4,), f32, 2))), b.c([0, 0, 2, 2], i64)), perm=[0, 2, 1, 3]), b.c(0.5)), None) if len(s) == 3 else None
P["rs-mm"] = lambda b, x, s: (b.op("MatMul", b.op("Reshape", x, b.c([-1, s[-1]], i64)), b.c(V((s[-1], 3), f32, 1))), None)
P["slice-concat"] = lambda b, x, s: (b.op("Concat", b.op("Slice", x, b.c([0], i64), b.c([2], i64), b.c([1], i64)), b.op("Slice", x, b.c([2], i64), b.c([1 << 40], i64), b.c([1], i64)), axis=1), None) if len(s) > 1 and s[1] > 2 else None
P["concat-slice"] = lambda b, x, s: (b.op("Slice", b.op("Concat", x, b.op("Neg", x), axis=0), b.c([s[0]], i64), b.c([2 * s[0]], i64), b.c([0], i64)), None)
P["concat-slice-over"] = lambda b, x, s: (b.op("Slice", b.op("Concat", x, b.op("Neg", x), axis=0), b.c([s[0] - 1], i64), b.c([2 * s[0]], i64), b.c([0], i64)), None)
P["where-eq"] = lambda b, x, s: (b.op("Expand", x, b.op("Where", b.op("Equal", b.c([-1, 2] + [1] * (len(s) - 1), i64), b.c(-1, i64)), b.op("ConstantOfShape", b.op("Shape", b.c([1] * (len(s) + 1), i64)), value=numpy_helper.from_array(np.array([1], i64))), b.c([-1, 2] + [1] * (len(s) - 1), i64))), None)
P["unsq-expand"] = lambda b, x, s: (b.op("Unsqueeze", b.op("Expand", b.c([[1.5]]), b.op("Shape", x)), b.c([0], i64)), None) if s else None
P["slice-expand"] = lambda b, x, s: (b.op("Slice", b.op("Expand", b.c([1.5]), b.op("Shape", x)), b.c([1], i64), b.c([1 << 40], i64), b.c([len(s) - 1], i64)), None)
P["rs-add"] = lambda b, x, s: (b.op("Add", b.op("Reshape", x, b.c([s[0], -1], i64)), b.c(2.0)), None); P["rs-mul-v"] = lambda b, x, s: (b.op("Mul", b.op("Reshape", x, b.c([-1], i64)), b.c(V((int(np.prod(s)),), f32, 1))), None)
P["assoc-add"] = lambda b, x, s: (b.op("Add", b.op("Add", x, b.c(1.5)), b.op("Add", b.c(0.25), "y")), s); P["assoc-mul"] = lambda b, x, s: (b.op("Mul", b.op("Mul", b.c(1.5), x), b.op("Mul", b.c(V((s[-1],), f32, 1)), "y")), s)
P["sub-neg"] = lambda b, x, s: (b.op("Sub", b.op("Sub", b.c(1.0), x), b.op("Neg", "y")), s); P["div-div"] = lambda b, x, s: (b.op("Div", b.op("Div", x, b.c(4.0)), b.c(0.5)), s)
P["split-op"] = lambda b, x, s: (lambda o: (b.op("Concat", b.op("Relu", o[1]), b.op("Relu", o[0]), axis=-1), None))(b.op("Split", x, b.c([1, s[-1] - 1], i64), nout=2, axis=-1)) if s[-1] > 1 else None
P["split-relu-before"] = lambda b, x, s: (lambda o: (b.op("Concat", o[1], o[0], axis=-1), None))(b.op("Split", b.op("Tanh", x), b.c([1, s[-1] - 1], i64), nout=2, axis=-1)) if s[-1] > 1 else None
P["cast-concat"] = lambda b, x, s: (b.op("Cast", b.op("Concat", b.op("Cast", x, to=6), b.op("Cast", "y", to=6), axis=0), to=1), None); P["cast-slice"] = lambda b, x, s: (b.op("Cast", b.op("Slice", b.op("Cast", x, to=6), b.c([1], i64), b.c([100], i64), b.c([-1], i64)), to=1), None)
P["tr-concat"] = lambda b, x, s: (b.op("Concat", b.op("Transpose", x), b.op("Transpose", "y"), axis=0), None); P["tr-concat1"] = lambda b, x, s: (b.op("Concat", b.op("Transpose", x), b.op("Transpose", "y"), axis=len(s) - 1), None); P["relu-maxpool"] = lambda b, x, s: (b.op("MaxPool", b.op("Relu", b.op("Neg", x)), kernel_shape=[2, 2]), None) if len(s) == 4 else None
P["clips"] = lambda b, x, s: (b.op("Clip", b.op("Clip", x, b.c(-1), b.c(2)), b.c(-2), b.c(1)), s); P["clips-empty"] = lambda b, x, s: (b.op("Clip", b.op("Clip", x, b.c(1), b.c(2)), b.c(-2), b.c(-1)), s); P["clips-rev"] = lambda b, x, s: (b.op("Clip", b.op("Clip", x, b.c(-2), b.c(-1)), b.c(1), b.c(2)), s)
P["less-cast"] = lambda b, x, s: (b.op("Cast", b.op("Less", b.op("Cast", x, to=6), b.op("Cast", "y", to=6)), to=1), s); P["less-cast64"] = lambda b, x, s: (b.op("Cast", b.op("Less", b.op("Cast", x, to=7), b.op("Cast", "y", to=7)), to=1), s)
P["bn-conv"] = lambda b, x, s: (lambda z: (b.op("BatchNormalization", z[0], b.c(V((4,), f32, 1, 0.5, 2)), b.c(V((4,), f32, 2)), b.c(V((4,), f32, 3)), b.c(V((4,), f32, 4, 0.5, 2)), epsilon=0.25), None))(S["conv3b"](b, x, s)) if len(s) == 4 else None
P["conv-two-uses"] = lambda b, x, s: (lambda z: (b.op("Add", b.op("Mul", z, b.c(V((1, 4, 1, 1), f32, 1))), z), None))(S["conv3b"](b, x, s)[0]) if len(s) == 4 else None
P["mm-scale2"] = lambda b, x, s: (lambda z: (b.op("Add", b.op("Mul", z, b.c(0.5)), z), None))(b.op("MatMul", x, b.c(V((s[-1], 3), f32, 1))))
P["sq-cast-unsq"] = lambda b, x, s: (b.op("Cast", b.op("Unsqueeze", b.op("Cast", b.op("Squeeze", b.op("Unsqueeze", x, b.c([1], i64)), b.c([1], i64)), to=6), b.c([0], i64)), to=1), None); P["unsq-sq-other"] = lambda b, x, s: (b.op("Squeeze", b.op("Unsqueeze", x, b.c([0, 2], i64)), b.c([2], i64)), None)
P["qdq"] = lambda b, x, s: (b.op("DequantizeLinear", b.op("QuantizeLinear", x, b.c(0.25), b.c(3, M.u8)), b.c(0.25), b.c(3, M.u8)), s); P["qdq-other"] = lambda b, x, s: (b.op("DequantizeLinear", b.op("QuantizeLinear", x, b.c(0.25), b.c(3, M.u8)), b.c(0.5), b.c(5, M.u8)), s)
P["rs-rs-m1"] = lambda b, x, s: (b.op("Reshape", b.op("Reshape", x, b.c([-1], i64)), b.c([0, 1], i64)), None); P["rs-rs-0"] = lambda b, x, s: (b.op("Reshape", b.op("Reshape", x, b.c([1, -1], i64)), b.c([0, -1, 2], i64)), None) if np.prod(s) % 2 == 0 else None
P["dup"] = lambda b, x, s: (b.op("Sub", b.op("Exp", x), b.op("Mul", b.op("Exp", x), b.c(2.0))), s); P["dead"] = lambda b, x, s: (b.op("Exp", x), b.op("Tanh", x))[1:] + (s,)
P["layer-bias"] = lambda b, x, s: (b.op("Add", b.op("LayerNormalization", x, b.c(V((s[-1],), f32, 1))), b.c(V((s[-1],), f32, 2))), s); P["layer-bias2"] = lambda b, x, s: (b.op("Add", b.op("LayerNormalization", x, b.c(V((s[-1],), f32, 1)), b.c(V((s[-1],), f32, 3))), b.c(V((s[-1],), f32, 2))), s)
SHAPES = [(2, 3, 4), (1, 4, 4, 4), (3, 19), (2, 1, 6)]
OPTS = [("-O3",), (), ("-O3", "--disable-recompose"), ("-O3", "--onnx-hybrid-pass=false"), ("-O3", "--disable-simd"), ("-O3", "--disable-constant-prop"), ("-O3", "--enable-conv-opt-pass=false"), ("-O3", "--disable-fused-op"), ("-O1",), ("-O3", "--enable-bound-check", "--enable-safe-code-gen")]
def build(s, dyn, fs):
    b = B(); b.shape = s; b.static = not dyn; x, t = "x", s
    for f in fs:
        r = f(b, x, t)
        if r is None: return None
        x, t = r
        if t is None: t = ()
    gi = [vi(n, 1, [None] * len(s) if dyn else list(s)) for n in ("x", "y")]
    g = helper.make_graph(b.nodes, "g", gi, [vi(x, 1, None)], b.init); return helper.make_model(g, opset_imports=[helper.make_opsetid("", 22)], ir_version=10)
KNOWN = []
def judge(m, s, opts):
    ref = ReferenceEvaluator(m); feeds = [{"x": V(s, f32, k), "y": V(s, f32, k + 1)} for k in range(2)]
    with np.errstate(all="ignore"): exp = [ref.run(None, f)[0] for f in feeds]
    a = omc.run(m, [[f["x"], f["y"]] for f in feeds], opts)
    if a["stage"] != "ok": return ("%s:%s" % (a["stage"], a["at"]) if a["stage"] == "crash" else a["stage"]), a.get("log", "")[-700:]
    for k, (r, e) in enumerate(zip(a["runs"], exp)):
        e = np.asarray(e, dtype=f32)
        if r["null"] or len(r["arrays"]) != 1: return "null", "run %d" % k
        if not np.isfinite(e).all(): continue
        d = M.close(r["arrays"][0], e, 5e-4)
        if d: return "wrong", "run %d: %s" % (k, d)
        if r["leak"] > r["distinct"]: return "leak", "%d blocks for one output" % r["leak"]
        if r["touched"]: return "input-modified", "run %d" % k
    return None
FOUR = {"conv1", "conv1b", "conv3", "conv3b", "convg", "mul-ch", "add-ch", "maxpool", "d2s", "s2d", "bn", "in", "gap"}; MOVE = {n for n in S if n.startswith(("tr-", "rs-", "unsq", "sq", "expand", "slice", "gather", "concat", "split", "shape-", "Reduce", "matmul", "softmax", "cast-", "flatten", "tile", "pad"))}   # quick: four-dimensional inputs and unknown dimensions only for the steps they matter to
NAMES = sorted(S); PAT = sorted(P); ONLY = os.environ.get("OM_CHAIN")
def body(v):
    special = v.choose(2) if not ONLY else (1 if ONLY == "P" else 0)
    if special:
        n = v.pick(PAT); s = v.pick(SHAPES); dyn = v.choose(2); opts = v.pick(OPTS); fs = [P[n]]; what = n
    else:
        n1 = v.pick(NAMES); n2 = v.pick(NAMES); s, dyn = v.pick([(SHAPES[0], 0), (SHAPES[1], 0), (SHAPES[0], 1)] + ([(SHAPES[1], 1), (SHAPES[2], 0), (SHAPES[2], 1), (SHAPES[3], 0), (SHAPES[3], 1)] if v.thorough else [])); opts = v.pick(OPTS[:2] + OPTS[3:4] if v.thorough else OPTS[:1]); fs = [S[n1], S[n2]]; what = n1 + " " + n2
        if not v.thorough and (s == SHAPES[1] and n1 not in FOUR and n2 not in FOUR or dyn and not (n1 in MOVE and n2 in MOVE)): v.prune()
    m = build(s, dyn, fs)
    if m is None: v.prune()
    v.ctx(what); v.note("%s on %s%s options %s" % (what, list(s), " (dynamic)" if dyn else "", " ".join(opts))); v.nontrivial(); v.step(2); v.state((what, s, dyn, opts))
    r = judge(m, s, opts)
    omscope.verdict(v, os.environ["OM_CID"], "%s %s" % (what, "dynamic" if dyn else "static"), "%s %s %s %s" % (what, list(s), dyn, " ".join(opts)), r)
if __name__ == "__main__": vcpy.main(body, split=3, rule="every pair of graph steps and every rewrite pattern x shapes x static/dynamic x optimisation options, each compiled and run on two inputs")
