"""C41: for every operator case and every choice of which input dimensions the compiler knows, the shapes and types it infers are those
of the specified outputs."""
import os, re, itertools, vcpy, omc, ommodels as M, omscope
from ommodels import helper, numpy_helper, TP
OPS = sorted(M.G); ONLY = os.environ.get("OM_OPS")
if ONLY: OPS = [o for o in OPS if re.fullmatch(ONLY, o)]
BIG = {"Conv", "ConvTranspose", "AveragePool", "MaxPool", "RNN", "GRU", "LSTM", "Resize", "Clip", "Slice", "TopK", "ArgMax", "ArgMin", *M.RED}   # long tables: all dimensions known, or none
TY = dict(M.TY); TY.update({"bf16": None})
def inferred(mod):
    types = {}; ret = []
    def walk(o):
        for i, t in o["out"]: types[i] = t
        if o["op"] in ("onnx.Return", "func.return"): ret.append(o["in"])
        for r in o["rg"]:
            for b in r:
                for i, t in b["args"]: types[i] = t
                for x in b["ops"]: walk(x)
    walk(mod); return [types[i] for i in ret[-1]]
def parse(t):
    m = re.match(r"tensor<((?:(?:\d+|\?)x)*)([a-z0-9]+)", t)
    if not m: return None
    return [None if d == "?" else int(d) for d in m.group(1).split("x")[:-1]], m.group(2)
def body(v):
    op = v.pick(OPS); case = M.G[op](v); v.ctx(op); ins = [(i, x) for i, x in enumerate(case.ins) if x is not None]
    ps = [i for i, x in ins if x.kind == "p"]; cs = [i for i, x in ins if x.kind == "c"]; consts = tuple(ps + cs)
    if ps and v.choose(2): consts = tuple(cs)
    dims = [(i, d) for i, x in ins if x.kind == "x" and i not in consts for d in range(x.runs[0].ndim)]; n = len(dims)
    masks = sorted({0, (1 << n) - 1} | {1 << k for k in range(n)} | ({((1 << n) - 1) ^ (1 << k) for k in range(n)} if v.thorough else set())) if v.thorough or op not in BIG else sorted({0, (1 << n) - 1}); mask = v.pick(masks)
    dyn = {dims[k] for k in range(n) if mask >> k & 1}; name = "params " + ("constant" if len(consts) >= len(ps) + len(cs) else "run-time")
    exp = case.expected(0, consts); m = case.finish(consts, (), exp)
    for g in m.graph.input:
        i = int(g.name[1:])
        for d in range(len(g.type.tensor_type.shape.dim)):
            if (i, d) in dyn: g.type.tensor_type.shape.dim[d].ClearField("dim_value")
    v.note("%s %s, unknown dimensions %s" % (case.describe(), name, sorted(dyn))); v.nontrivial(); v.step(); v.state((case.describe(), name, mask))
    mode = "known" if not dyn else "unknown" if mask == (1 << n) - 1 else "partly-known"
    if len(consts) < len(ps) + len(cs): mode += "-runtime"
    a = omc.imported(m, (), "onnxir")
    if a["stage"] != "ok": omscope.decide(v, case, mode, (("%s:%s" % (a["stage"], a["at"]) if a["stage"] == "crash" else a["stage"]), a.get("log", "")[-700:] + a.get("err", ""))); return
    ts = inferred(a["module"])
    if len(ts) != len(exp): omscope.decide(v, case, mode, ("count", "%s results for %d outputs" % (ts, len(exp)))); return
    for i, (t, e) in enumerate(zip(ts, exp)):
        p = parse(t)
        if p is None: continue   # unranked: nothing was inferred
        if TY.get(p[1]) != e.dtype.type: omscope.decide(v, case, mode, ("type", "output %d inferred %s, specified %s%s" % (i, t, e.dtype, list(e.shape)))); return
        if len(p[0]) != e.ndim or any(d is not None and d != x for d, x in zip(p[0], e.shape)): omscope.decide(v, case, mode, ("shape", "output %d inferred %s, specified %s%s" % (i, t, e.dtype, list(e.shape)))); return
if __name__ == "__main__": vcpy.main(body, split=3, rule="operator x attributes x shapes x types x constant/run-time parameters x which input dimensions are known: inferred types against the specified outputs")
