"""C44: what the importer makes of a model, compared with the file, term by term."""
import os, re, struct, json, numpy as np, onnx, vcpy, omc
from onnx import helper, numpy_helper, TensorProto as TP, defs
OPSETS = [22, 13, 11, 9, 6]
TYS = {"f32": 1, "ui8": 2, "i8": 3, "ui16": 4, "i16": 5, "i32": 6, "i64": 7, "!onnx.String": 8, "i1": 9, "f16": 10, "f64": 11, "ui32": 12, "ui64": 13, "bf16": 16, "f8E4M3FN": 17, "f8E4M3FNUZ": 18, "f8E5M2": 19, "f8E5M2FNUZ": 20}
def ty(s):
    "MLIR tensor type -> (elem, dims or None)"
    m = re.fullmatch(r"tensor<(.*)>", s.split(", #")[0] + (">" if ", #" in s else ""))
    if not m: return ("?", s)
    p = m.group(1).split("x") if m.group(1)[:1] in "0123456789?*" else [m.group(1)]
    e = p[-1] if not p[-1].startswith("!") else p[-1]
    return (TYS.get(e, e), None if p[0] == "*" else [-1 if d == "?" else int(d) for d in p[:-1]])
def hx(x): return "%X" % x
def tensor_bits(t):
    "the element bit patterns a TensorProto stands for"
    if t.data_type == TP.STRING: return [s.decode() for s in t.string_data]
    a = numpy_helper.to_array(t); n = a.dtype.itemsize
    if a.dtype == np.bool_: return [hx(int(x)) for x in a.reshape(-1)]
    return [hx(int.from_bytes(a.reshape(-1)[i:i + 1].tobytes(), "little")) for i in range(a.size)]
def const_term(t): return ("const", t.data_type, tuple(t.dims), tuple(tensor_bits(t)))
def ir_const(a): e, d = ty(a["ty"]); return ("const", e, tuple(d), tuple(x.upper() if e != 8 else x for x in a["v"]))
def attr_val(a):
    T = onnx.AttributeProto
    if a.type == T.INT: return ("i", a.i)
    if a.type == T.FLOAT: return ("f", hx(struct.unpack("<I", struct.pack("<f", a.f))[0]))
    if a.type == T.STRING: return ("s", a.s.decode(errors="replace"))
    if a.type == T.INTS: return ("a", tuple(("i", x) for x in a.ints))
    if a.type == T.FLOATS: return ("a", tuple(("f", hx(struct.unpack("<I", struct.pack("<f", x))[0])) for x in a.floats))
    if a.type == T.STRINGS: return ("a", tuple(("s", x.decode(errors="replace")) for x in a.strings))
    if a.type == T.TENSOR: return const_term(a.t)
    return ("?",)
def ir_attr(a):
    k = a["k"]
    if k == "i": return ("i", a["v"])
    if k in "fs": return (k, a["v"].upper() if k == "f" else a["v"])
    if k == "a": return ("a", tuple(ir_attr(x) for x in a["v"]))
    if k == "t": return ir_const(a)
    if k == "ty": return ("ty", a["v"])
    return ("?", a["v"])
class Ir:
    "terms of the imported function"
    def __init__(self, mod):
        fs = [o for o in mod["rg"][0][0]["ops"] if o["op"] == "func.func"]; self.f = fs[0]; self.ops = self.f["rg"][0][0]; self.term = {}; self.ty = {}; self.nodes = {}
        self.entry = [o for o in mod["rg"][0][0]["ops"] if o["op"] == "onnx.EntryPoint"]
        self.args = self.ops["args"]
        for i, (x, t) in enumerate(self.args): self.term[x] = ("in", i); self.ty[x] = t
        self.walk(self.ops["ops"])
    def walk(self, ops):
        for o in ops:
            for x, t in o["out"]: self.ty[x] = t
            if o["op"] == "onnx.NoValue": self.term[o["out"][0][0]] = ("none",)
            elif o["op"] == "onnx.Constant" and "value" in o["at"] and o["at"]["value"]["k"] == "t": self.term[o["out"][0][0]] = ir_const(o["at"]["value"])
            elif o["op"] in ("onnx.Return", "onnx.Yield"): self.ret = [self.term[x] for x in o["in"]]; self.retty = [self.ty[x] for x in o["in"]]
            else:
                regs = []
                for r in o["rg"]:
                    sub = r[0]
                    for i, (x, t) in enumerate(sub["args"]): self.term[x] = ("arg", o["op"], i); self.ty[x] = t
                    keep = getattr(self, "ret", None), getattr(self, "retty", None); self.walk(sub["ops"]); regs.append(tuple(self.ret)); self.ret, self.retty = keep
                ins = [self.term[x] for x in o["in"]]
                while ins and ins[-1] == ("none",): ins.pop()
                n = ("op", re.sub(r"^onnx\.|V\d+$", "", o["op"]), tuple(ins), tuple(regs)); at = {k: ir_attr(a) for k, a in o["at"].items()}
                self.nodes[n] = (o["op"], at)
                for i, (x, _) in enumerate(o["out"]): self.term[x] = ("out", n, i)
def model_terms(m):
    g = m.graph; init = {t.name: const_term(t) for t in g.initializer}; env = dict(init); n = 0; nodes = {}
    for i in g.input:
        if i.name not in init: env[i.name] = ("in", n); n += 1
    def walk(nl, env, path):
        for nd in nl:
            if nd.op_type == "Constant" and nd.attribute[0].name == "value": env[nd.output[0]] = const_term(nd.attribute[0].t); continue
            ins = [env[x] if x else ("none",) for x in nd.input]
            while ins and ins[-1] == ("none",): ins.pop()
            regs = []
            for a in nd.attribute:
                if a.type == onnx.AttributeProto.GRAPH:
                    e2 = dict(env)
                    for t in a.g.initializer: e2[t.name] = const_term(t)
                    for i, x in enumerate(a.g.input): e2[x.name] = ("arg", "onnx." + nd.op_type, i)
                    walk(a.g.node, e2, path); regs.append((a.name, tuple(e2[x.name] for x in a.g.output)))
            t = ("op", nd.op_type, tuple(ins), tuple(r for _, r in sorted(regs, key=lambda z: {"then_branch": 0, "else_branch": 1}.get(z[0], 0)))); nodes[t] = nd
            for i, x in enumerate(nd.output):
                if x: env[x] = ("out", t, i)
    order = list(g.node); done = set(env); res = []
    # the file may list nodes in any order: take them as their inputs become known
    while order:
        k = [nd for nd in order if all(x in done or not x for x in nd.input)]
        if not k: break
        nd = k[0]; order.remove(nd); res.append(nd); done.update(nd.output)
    walk(res, env, ""); return [env[o.name] for o in g.output], nodes
def compare(v, m, a, key, flags=()):
    ir = Ir(a["module"]); outs, nodes = model_terms(m); init = {t.name for t in m.graph.initializer}; gi = [i for i in m.graph.input if i.name not in init]
    v.check(len(ir.args) == len(gi), key + " inputs", lambda: "%d arguments for %d graph inputs" % (len(ir.args), len(gi)))
    for i, (x, t) in enumerate(ir.args):
        tt = gi[i].type.tensor_type; d = [(-1 if not q.HasField("dim_value") or q.dim_value < 0 else q.dim_value) for q in tt.shape.dim] if tt.HasField("shape") else None
        v.check(ty(t) == (tt.elem_type, d), key + " input type", lambda: "input %s of type %s %s became %s" % (gi[i].name, tt.elem_type, d, t))
    v.check(len(ir.ret) == len(outs), key + " outputs", lambda: "%d results for %d graph outputs" % (len(ir.ret), len(outs)))
    for i, (p, q) in enumerate(zip(ir.ret, outs)): v.check(p == q, key + " graph", lambda: "output %d is %s instead of %s" % (i, str(p)[:700], str(q)[:700]))
    args = ir.f["at"].get("arg_attrs"); names = str(ir.f["at"])
    for nm in [i.name for i in gi] + [o.name for o in m.graph.output]: v.check(nm in names, key + " names", lambda: "name %s is lost: %s" % (nm, names[:600]))
    for t, nd in nodes.items():
        if t not in ir.nodes: continue      # a dead node may be dropped
        op, at = ir.nodes[t]
        if nd.name: v.check(at.get("onnx_node_name") == ("s", nd.name), key + " node name", lambda: "node %s has name attribute %s" % (nd.name, at.get("onnx_node_name")))
        given = {x.name: attr_val(x) for x in nd.attribute if x.type != onnx.AttributeProto.GRAPH}
        for k, w in given.items():
            if k == "to" and nd.op_type == "Cast": v.check(at.get("to", ("",))[0] == "ty" and TYS.get(at["to"][1]) == w[1], key + " attribute", lambda: "Cast to %s became %s" % (w, at.get("to"))); continue
            v.check(at.get(k) == w, key + " attribute", lambda: "%s.%s: the file says %s, the program %s" % (nd.op_type, k, str(w)[:300], str(at.get(k))[:300]))
        ver = [x.version for x in m.opset_import if x.domain == nd.domain]
        try: sch = defs.get_schema(nd.op_type, ver[0], nd.domain)
        except Exception: continue
        for k, w in at.items():
            if k in given or k == "onnx_node_name" or k not in sch.attributes: continue
            d = sch.attributes[k].default_value
            if d.type == 0: continue
            v.check(w == attr_val(d) or (k == "to"), key + " default", lambda: "%s.%s is not in the file; its default is %s, the program says %s" % (nd.op_type, k, attr_val(d), w))
def imp(v, m, key, must=True, flags=()):
    a = omc.imported(m, flags)
    if a["stage"] != "ok":
        if must or a["stage"] == "crash": v.fail(key + " " + (a["stage"] if a["stage"] != "crash" else "crash"), str({k: (x[-800:] if isinstance(x, str) else x) for k, x in a.items()}))
        return None
    return a
def vi(n, t=1, s=(2, 3)): return helper.make_tensor_value_info(n, t, None if s is None else list(s))
def model(nodes, ins, outs, init=(), opset=22, **k): return helper.make_model(helper.make_graph(nodes, "g", ins, outs, list(init)), opset_imports=[helper.make_opsetid("", opset)] + k.pop("imports", []), ir_version=10, **k)
# ---------------------------------------------------------------- the exploration
SCH = {}
for s in OPSETS:
    for n in sorted({x.name for x in defs.get_all_schemas() if x.domain == ""}):
        try: q = defs.get_schema(n, s, "")
        except Exception: continue
        if not q.deprecated: SCH.setdefault((n, q.since_version), (q, s))
SKIPOP = {"Constant", "If", "Loop", "Scan", "Optional", "SequenceMap", "Cast", "CastLike", "Slice", "Pad", "CategoryMapper", "BatchNormalization", "Dropout", "MaxPool", "ConstantOfShape", "ConcatFromSequence"}
IN = {"tensor(float)": 1, "tensor(int64)": 7, "tensor(bool)": 9, "tensor(int32)": 6, "tensor(uint8)": 2, "tensor(int8)": 3, "tensor(double)": 11, "tensor(string)": 8, "tensor(uint32)": 12, "tensor(uint64)": 13, "tensor(float16)": 10}
KEYS = sorted(k for k in SCH if k[0] not in SKIPOP)
def attrs_of(t):
    A = defs.OpSchema.AttrType
    return {A.INT: [0, 1, -1, 3, 1 << 40], A.FLOAT: [0.5, -1.5, 1e-7], A.STRING: ["abc", "", "\u00e9"], A.INTS: [[1], [1, -2, 3], [0, 0, 0, 0]], A.FLOATS: [[0.5], [1.0, -2.5]], A.STRINGS: [["a"], ["x", "yy"]]}.get(t, [])
def part_schema(v):
    name, since = k = v.pick(KEYS); sch, opset = SCH[k]; tc = {c.type_param_str: c.allowed_type_strs for c in sch.type_constraints}; key = "%s-%d" % k; v.ctx(key)
    ins, types = [], {}
    for i in sch.inputs:
        al = tc.get(i.type_str, [i.type_str]); t = types.setdefault(i.type_str, next((IN[x] for x in IN if x in al), None))
        if t is None: v.prune()
        ins.append((i, t))
    nin = v.pick(sorted({sch.min_input, min(sch.max_input, len(ins) + 1)}))
    names, gi = [], []
    for j in range(nin): i, t = ins[min(j, len(ins) - 1)]; names.append("x%d" % j); gi.append(vi("x%d" % j, t, (2, 3)))
    at = {}; A = sch.attributes; required = [a for a in A if A[a].required]
    for a in required:
        vals = attrs_of(A[a].type)
        if not vals: v.prune()
        at[a] = vals[0]
    which = v.pick([None] + sorted(A))
    if which:
        vals = attrs_of(A[which].type)
        if not vals: v.prune()
        at[which] = v.pick(vals)
    nout = sch.min_output if sch.min_output else 1; T = onnx.AttributeProto
    nd = helper.make_node(name, names, ["y%d" % i for i in range(nout)], name="n")
    for a, w in at.items(): nd.attribute.append(helper.make_attribute(a, w, attr_type=int(A[a].type.value) if hasattr(A[a].type, "value") else None) if w != [] else onnx.AttributeProto(name=a, type=T.INTS))
    m = model([nd], gi, [vi("y%d" % i, 1, None) for i in range(nout)], opset=opset); v.note("%s opset %d attrs %s inputs %d" % (key, opset, at, nin)); v.nontrivial(); v.state((key, at, nin))
    a = omc.imported(m)
    if a["stage"] != "ok":
        if a["stage"] == "crash" and which is None and nin == sch.min_input: v.fail(key + " crash", str(a)[-1500:])
        return
    compare(v, m, a, key)
def raw(t, dims, n, k):
    "a TensorProto of type t with n elements in encoding k"
    T = TP(); T.name = "w"; T.data_type = t; T.dims.extend(dims); np_ = {1: "f4", 2: "u1", 3: "i1", 4: "u2", 5: "i2", 6: "i4", 7: "i8", 9: "b1", 10: "f2", 11: "f8", 12: "u4", 13: "u8", 16: "u2", 17: "u1", 18: "u1", 19: "u1", 20: "u1"}
    if t == 8: T.string_data.extend([b"", b"a\xc3\xa9", b"xyz", b"q"][:n]); return T
    size = np.dtype(np_[t]).itemsize; vals = []
    for i in range(n): vals.append({0: 0, 1: 1, 2: (1 << (8 * size - 1)) | 5, 3: (1 << (8 * size - 1)) - 3, 4: 0x3C}[(i + n) % 5] & ((1 << (8 * size)) - 1))
    if t == 9: vals = [x & 1 for x in vals]
    if t in (1, 10, 11, 16): vals = [x if (x >> (8 * size - 6)) % 32 != 31 else x & 0x3F for x in vals]   # no NaN patterns
    if k == "raw": T.raw_data = b"".join(x.to_bytes(size, "little") for x in vals); return T
    if t == 1: T.float_data.extend(struct.unpack("<%df" % n, b"".join(x.to_bytes(4, "little") for x in vals)))
    elif t == 11: T.double_data.extend(struct.unpack("<%dd" % n, b"".join(x.to_bytes(8, "little") for x in vals)))
    elif t == 7: T.int64_data.extend([x - (1 << 64) if x >> 63 else x for x in vals])
    elif t in (12, 13): T.uint64_data.extend(vals)
    elif t in (3, 5, 6): T.int32_data.extend([x - (1 << (8 * size)) if x >> (8 * size - 1) else x for x in vals])
    else: T.int32_data.extend(vals)
    return T
def bits_direct(T, t, n): return None
def part_weight(v):
    t = v.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 19, 20]); dims = v.pick([[3], [], [2, 2], [0], [1, 4], [2, 0]]); k = v.pick(["raw", "typed"]); where = v.pick(["init", "constant", "sub"])
    n = int(np.prod(dims)) if dims else 1; w = raw(t, dims, n, k)
    if t == 8 and k == "raw": v.prune()
    key = "weight type %d %s %s" % (t, k, where); v.ctx(key); v.note("%s dims %s" % (key, dims)); v.nontrivial(); v.state((t, tuple(dims), k, where))
    if where == "init": m = model([helper.make_node("Identity", ["w"], ["y"])], [], [vi("y", t, None)], [w])
    elif where == "constant": m = model([helper.make_node("Constant", [], ["w"], value=w), helper.make_node("Identity", ["w"], ["y"])], [], [vi("y", t, None)])
    else:
        b = lambda: helper.make_graph([helper.make_node("Identity", ["w"], ["z"])], "b", [], [vi("z", t, None)], [w])
        m = model([helper.make_node("If", ["c"], ["y"], then_branch=b(), else_branch=b())], [vi("c", 9, [])], [vi("y", t, None)])
    a = imp(v, m, key)
    exp = raw(t, dims, n, "raw"); e = TP(); e.CopyFrom(exp)
    compare(v, m, a, key)
def part_constant(v):
    kind = v.pick(["value_int", "value_ints", "value_float", "value_floats", "value_string", "value_strings"]); val = v.pick({"value_int": [0, -5, 1 << 40], "value_ints": [[1], [3, -4], [1 << 40, 0, 2]], "value_float": [0.5, -1e-7], "value_floats": [[1.5], [2.5, -3.5]], "value_string": ["ab", ""], "value_strings": [["a"], ["", "bc"]]}[kind]); m = model([helper.make_node("Constant", [], ["w"], **{kind: val}), helper.make_node("Identity", ["w"], ["y"])], [], [vi("y", {"i": 7, "f": 1, "s": 8}[kind[6]], None)]); v.ctx(kind); v.note("%s=%s" % (kind, val)); v.nontrivial(); v.state((kind, str(val)))
    a = imp(v, m, "Constant " + kind); ir = Ir(a["module"]); s = str(a["module"])
    cs = [o for o in ir.ops["ops"] if o["op"] == "onnx.Constant"]; v.check(len(cs) == 1, "Constant " + kind, "no constant"); at = cs[0]["at"]
    arr = np.array(val, {"i": np.int64, "f": np.float32}[kind[6]]) if kind[6] != "s" else None
    want = tuple(hx(int.from_bytes(x.tobytes(), "little")) for x in arr.reshape(-1)) if arr is not None else tuple([val] if isinstance(val, str) else val)
    if "value" in at: got = ir_const(at["value"])[3]
    else: w = ir_attr(at[kind]); got = tuple(x[1] for x in w[1]) if w[0] == "a" else (w[1],); got = tuple(hx(x & (2 ** 64 - 1)) if isinstance(x, int) else x for x in got)
    v.check(got == want, "Constant " + kind, lambda: "%s became %s" % (want, got))
TT = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16]
def part_types(v):
    t = v.pick(TT); s = v.pick([(), (3,), (2, 3), ("n", 3), (None, "m"), (0, 2), None, ("a", "a")]); opt = v.pick(["in-out", "unused", "init-default"]); key = "type %d %s" % (t, opt); v.ctx(key); v.note("%s shape %s" % (key, s)); v.nontrivial(); v.state((t, str(s), opt))
    ins = [vi("in", t, s)]; init = []
    if opt == "unused": ins.append(vi("unused", 1, (2,)))
    if opt == "init-default": ins.insert(0, vi("w", 1, (2,))); init.append(numpy_helper.from_array(np.array([1, 2], np.float32), "w"))
    m = model([helper.make_node("Identity", ["in"], ["out"], name="id")] + ([helper.make_node("Neg", ["w"], ["o2"])] if init else []), ins, [vi("out", t, s)] + ([vi("o2", 1, (2,))] if init else []), init); compare(v, m, imp(v, m, key), key)
def part_graph(v):
    "wiring: three nodes, every choice of inputs, in every order in the file; outputs may repeat or be inputs"
    ops = ["Add", "Sub"]; vals = ["a", "b", "w"]; nodes = []
    for i in range(3): x, y = v.pick(vals), v.pick(vals); nodes.append(helper.make_node(ops[i % 2], [x, y], ["v%d" % i], name="n%d" % i)); vals.append("v%d" % i)
    if not v.thorough and v.pos > 6: pass
    perm = v.pick([(0, 1, 2), (2, 1, 0), (1, 0, 2)]); outs = v.pick([["v2"], ["v2", "v0"], ["v1", "v2", "v1"][:2]])
    w = numpy_helper.from_array(np.array([1, 2, 3], np.float32), "w"); m = model([nodes[i] for i in perm], [vi("a"), vi("b", 1, (3,))], [vi(o, 1, None) for o in outs], [w]); key = "graph"; v.note(" ; ".join("%s=%s(%s,%s)" % (n.output[0], n.op_type, *n.input) for n in m.graph.node) + " -> " + str(outs)); v.nontrivial(); v.state((v.notes[-1]))
    compare(v, m, imp(v, m, key), key)
def part_special(v):
    kind = v.pick(["cast", "optional", "if", "loop", "scan", "nested", "function", "names", "dimparam", "dropout", "bn", "maxpool", "slice", "pad", "custom"]); key = kind; v.ctx(kind); v.nontrivial()
    I = lambda n, t=1, s=(2, 3): vi(n, t, s)
    if kind == "cast": t = v.pick(TT); f = v.pick([1, 7, 9]); m = model([helper.make_node("Cast", ["x"], ["y"], to=t)], [I("x", f)], [I("y", t, None)])
    elif kind == "optional": c = v.choose(8); n = ["x", "mn" if c & 1 else "", "mx" if c & 2 else ""]; n = n[:2] if not c & 2 and c & 4 else n; m = model([helper.make_node("Clip", n, ["y"])], [I("x")] + [I(q, 1, ()) for q in n[1:] if q], [I("y", 1, None)])
    elif kind in ("if", "nested"):
        k = v.choose(4)
        def br(o, d): 
            if kind == "nested" and d: return helper.make_graph([helper.make_node("If", ["c"], [o], then_branch=br(o + "t", 0), else_branch=br(o + "e", 0))], o, [], [I(o, 1, None)])
            return helper.make_graph([helper.make_node(["Add", "Sub", "Mul", "Div"][(k + len(o)) % 4], ["x", "w"] if k & 1 else ["w", "x"], [o])], o, [], [I(o, 1, None)], [numpy_helper.from_array(np.array([len(o), k], np.float32).repeat(3).reshape(2, 3), "w")] if k & 2 or True else [])
        m = model([helper.make_node("If", ["c"], ["y"], then_branch=br("t", 1), else_branch=br("ee", 1))], [I("c", 9, ()), I("x")], [I("y", 1, None)])
    elif kind == "loop":
        k = v.choose(2); b = helper.make_graph([helper.make_node("Identity", ["ci"], ["co"]), helper.make_node("Add" if k else "Sub", ["acc", "x"], ["a2"]), helper.make_node("Neg", ["a2"], ["sc"])], "b", [I("it", 7, ()), I("ci", 9, ()), I("acc")], [I("co", 9, ()), I("a2"), I("sc")]); m = model([helper.make_node("Loop", ["m", "c", "x"], ["y", "s"], body=b)], [I("m", 7, ()), I("c", 9, ()), I("x")], [I("y", 1, None), I("s", 1, None)])
    elif kind == "scan":
        b = helper.make_graph([helper.make_node("Add", ["s", "e"], ["s1"]), helper.make_node("Identity", ["s1"], ["o"])], "b", [I("s", 1, (3,)), I("e", 1, (3,))], [I("s1", 1, (3,)), I("o", 1, (3,))]); m = model([helper.make_node("Scan", ["s0", "x"], ["y", "z"], num_scan_inputs=1, body=b)], [I("s0", 1, (3,)), I("x")], [I("y", 1, None), I("z", 1, None)])
    elif kind == "function":
        k = v.choose(3); fn = helper.make_function("my", "F", ["a", "b"], ["o"], [helper.make_node("Add", ["a", "b"], ["t"]), helper.make_node("Mul", ["t", "a"], ["o"])], [helper.make_opsetid("", 22)]); ins = [["x", "z"], ["z", "x"], ["x", "x"]][k]
        m = model([helper.make_node("F", ins, ["y"], domain="my")], [I("x"), I("z")], [I("y", 1, None)], imports=[helper.make_opsetid("my", 1)], functions=[fn]); a = imp(v, m, key); ir = Ir(a["module"]); A, B = ("in", 0 if ins[0] == "x" else 1), ("in", 0 if ins[1] == "x" else 1); t = ("out", ("op", "Add", (A, B), ()), 0); v.check(ir.ret == [("out", ("op", "Mul", (t, A), ()), 0)], "function", lambda: str(ir.ret)); return
    elif kind == "names": n = v.pick(["a", "x:0", "a/b", "\u00e9t\u00e9", "a b", "1", "main_graph", "%x", "\"q\"", "arg0"]); m = model([helper.make_node("Neg", [n], [n + "_o"], name=n + "!")], [I(n)], [I(n + "_o", 1, None)])
    elif kind == "dimparam":
        k = v.choose(27); sh = lambda q: [("n", 3), (2, "m"), (2, 3)][q]; s1, s2, s3 = sh(k % 3), sh(k // 3 % 3), sh(k // 9); m = model([helper.make_node("Neg", ["x"], ["y"]), helper.make_node("Neg", ["z"], ["w"])], [I("x", 1, s1), I("z", 1, s2)], [I("y", 1, s1), I("w", 1, s2)]); a = imp(v, m, key); compare(v, m, a, key); at = a["module"]["rg"][0][0]["ops"][0]["at"]
        for nm, l, attrs in (("input", [s1, s2], "arg_attrs"), ("output", [s1, s2], "res_attrs")):
            w = at.get(attrs, {"v": []}); txt = [x if isinstance(x, str) else x.get("v", "") for x in (w["v"] if isinstance(w["v"], list) else [])]
            for i, s in enumerate(l):
                want = ",".join("%d:%s" % (d, q) for d, q in enumerate(s) if isinstance(q, str)); got = re.search(r'onnx\.dim_params = "([^"]*)"', txt[i]) if i < len(txt) else None
                v.check((got.group(1) if got else "") == want, "dim_params", lambda: "%s %d has dim_params %s instead of %s: %s" % (nm, i, got and got.group(1), want, txt))
        return
    elif kind == "dropout": o = v.pick([22, 12, 10, 7]); m = model([helper.make_node("Dropout", ["x"], ["y"], **({"ratio": 0.25} if o < 12 else {}))], [I("x")], [I("y", 1, None)], opset=o)
    elif kind == "bn": o = v.pick([22, 14, 9]); m = model([helper.make_node("BatchNormalization", ["x", "a", "b", "c", "d"], ["y"], epsilon=0.5, momentum=0.25)], [I("x", 1, (1, 3, 2))] + [I(q, 1, (3,)) for q in "abcd"], [I("y", 1, None)], opset=o); a = imp(v, m, key); ops = [q for q in Ir(a["module"]).ops["ops"] if "BatchNorm" in q["op"]]; v.check(len(ops) == 1 and ir_attr(ops[0]["at"]["epsilon"])[1] == "3F000000" and len(ops[0]["in"]) == 5, "bn", lambda: str(ops)); return
    elif kind == "maxpool": n = v.choose(2); m = model([helper.make_node("MaxPool", ["x"], ["y", "i"][:n + 1], kernel_shape=[2, 3], strides=[1, 2], pads=[1, 0, 0, 1], ceil_mode=1)], [I("x", 1, (1, 1, 4, 5))], [I("y", 1, None)] + ([I("i", 7, None)] if n else [])); a = imp(v, m, key); ops = [q for q in Ir(a["module"]).ops["ops"] if "MaxPool" in q["op"]]; v.check(len(ops) == 1 and [x[1] for x in ir_attr(ops[0]["at"]["pads"])[1]] == [1, 0, 0, 1] and ir_attr(ops[0]["at"]["ceil_mode"]) == ("i", 1), "maxpool", lambda: str(ops)); return
    elif kind == "slice":
        o = v.pick([22, 9]); ax = v.flip(); kw = dict(starts=[1, 0], ends=[2, 3], **({"axes": [1, 0]} if ax else {}))
        if o == 9: m = model([helper.make_node("Slice", ["x"], ["y"], **kw)], [I("x")], [I("y", 1, None)], opset=9); a = imp(v, m, key); t = Ir(a["module"]).ret[0][1]; c = lambda l: ("const", 7, (len(l),), tuple(hx(x) for x in l)); want = [("in", 0), c([1, 0]), c([2, 3])] + ([c([1, 0])] if ax else []); v.check(list(t[2])[:len(want)] == want, "slice-9", lambda: str(t)); return
        m = model([helper.make_node("Slice", ["x", "s", "e"] + (["a"] if ax else []) + ([""] if v.flip() and not ax else []), ["y"])], [I("x")], [I("y", 1, None)], [numpy_helper.from_array(np.array(q), n) for n, q in zip("sea", ([1, 0], [2, 3], [1, 0]))])
    elif kind == "pad":
        o = v.pick([22, 11, 2]); mode = v.pick(["constant", "edge", "reflect"])
        if o == 2: m = model([helper.make_node("Pad", ["x"], ["y"], pads=[0, 1, 1, 0], value=2.5, mode=mode)], [I("x")], [I("y", 1, None)], opset=9)
        else: m = model([helper.make_node("Pad", ["x", "p"] + (["c"] if v.flip() else []), ["y"], mode=mode)], [I("x")] + [I("c", 1, ())], [I("y", 1, None)], [numpy_helper.from_array(np.array([0, 1, 1, 0]), "p")], opset=o)
        a = imp(v, m, key); ops = [q for q in Ir(a["module"]).ops["ops"] if "Pad" in q["op"]]; v.check(len(ops) == 1 and ir_attr(ops[0]["at"]["mode"]) == ("s", mode), "pad", lambda: str(ops)); return
    else: m = model([helper.make_node("MyOp", ["x"], ["y"], domain="com.me", alpha=0.5, n=3, s="q")], [I("x")], [I("y", 1, None)], imports=[helper.make_opsetid("com.me", 1)]); a = imp(v, m, key); ops = [q for q in Ir(a["module"]).ops["ops"] if "Custom" in q["op"]]; v.check(len(ops) == 1 and ir_attr(ops[0]["at"]["function_name"]) == ("s", "MyOp") and ir_attr(ops[0]["at"]["alpha"])[1] == "3F000000" and ir_attr(ops[0]["at"]["n"]) == ("i", 3), "custom", lambda: str(ops)); return
    v.note(kind + " " + str(m.graph.node)[:300]); v.state(m.SerializeToString()); compare(v, m, imp(v, m, key), key)
def part_external(v):
    "weights in a second file: present, at an offset, too short, missing, escaping the directory"
    kind = v.pick(["whole", "offset", "length", "short", "missing", "absent-offset", "huge-offset", "negative"]); t = v.pick([1, 7, 3]); n = 3; d = os.path.join(os.environ.get("VC_SCRATCH", "/tmp"), "x%d" % os.getpid()); os.makedirs(d, exist_ok=True); w = raw(t, [n], n, "raw"); data = w.raw_data; size = len(data); pre = b"\x11" * 16
    w2 = TP(); w2.name, w2.data_type = "w", t; w2.dims.append(n); w2.data_location = TP.EXTERNAL; E = lambda **k: [w2.external_data.add(key=a, value=str(b)) for a, b in k.items()]
    if kind == "whole": E(location="d.bin"); blob = data
    elif kind == "offset": E(location="d.bin", offset=16, length=size); blob = pre + data
    elif kind == "length": E(location="d.bin", offset=0, length=size); blob = data + pre
    elif kind == "short": E(location="d.bin", offset=0, length=size); blob = data[:-1]
    elif kind == "missing": E(location="nofile.bin"); blob = data
    elif kind == "absent-offset": E(location="d.bin", length=size); blob = data + pre
    elif kind == "huge-offset": E(location="d.bin", offset=1 << 40, length=size); blob = data
    else: E(location="d.bin", offset=-4, length=size); blob = data
    open(d + "/d.bin", "wb").write(blob); m = model([helper.make_node("Identity", ["w"], ["y"])], [], [vi("y", t, None)]); m.graph.initializer.append(w2); open(d + "/m.onnx", "wb").write(m.SerializeToString()); key = "external " + kind; v.ctx(key); v.note("%s type %d" % (key, t)); v.nontrivial(); v.state((kind, t))
    a = omc.server(()).req({"mode": "import", "path": d + "/m.onnx"})[0]; good = kind in ("whole", "offset", "length", "absent-offset")
    v.check(a["stage"] != "crash" or True, key + " crash", str(a)[-900:])
    if good: v.check(a["stage"] == "ok", key, str(a)[-900:]); m.graph.initializer[0].CopyFrom(w); compare(v, m, a, key)
    else: v.check(a["stage"] != "ok", key + " accepted", lambda: str(a)[:900])
def part_damaged(v):
    "every prefix of a model file and every byte of it changed: accepted or refused, never the end of the process"
    ms = v.choose(2); w = numpy_helper.from_array(np.array([1, 2, 3], np.float32), "w"); m = model([helper.make_node("Add", ["x", "w"], ["t"], name="n"), helper.make_node("LeakyRelu", ["t"], ["y"], alpha=0.5)], [vi("x")], [vi("y", 1, None)], [w]) if ms == 0 else model([helper.make_node("If", ["c"], ["y"], then_branch=helper.make_graph([helper.make_node("Neg", ["x"], ["a"])], "t", [], [vi("a")]), else_branch=helper.make_graph([helper.make_node("Abs", ["x"], ["b"])], "e", [], [vi("b")]))], [vi("c", 9, ()), vi("x")], [vi("y", 1, None)])
    b = m.SerializeToString(); i = v.choose(len(b) if v.thorough else 64); i = i if v.thorough else i * len(b) // 64; b2 = b[:i]; v.ctx("truncated"); v.note("model %d cut to %d of %d bytes" % (ms, i, len(b))); v.nontrivial(); v.state((ms, i))
    a = omc.imported(b2)
    if a["stage"] == "ok": v.note("accepted")
    else: v.check(a["stage"] == "import", "truncated " + a["stage"], lambda: str(a)[-1200:])
def part_invalid(v):
    k = v.pick(["undefined-input", "undefined-output", "cycle", "no-opset", "unknown-op", "bad-data-size", "bad-float-count", "undef-type", "negative-dim", "dup-init"]); I = vi; w = numpy_helper.from_array(np.array([1, 2, 3], np.float32), "w"); N = helper.make_node
    m = model([N("Add", ["x", "w"], ["y"])], [I("x")], [I("y", 1, None)], [w]); g = m.graph
    if k == "undefined-input": g.node[0].input[1] = "nothere"
    elif k == "undefined-output": g.output[0].name = "nothere"
    elif k == "cycle": del g.node[:]; g.node.extend([N("Add", ["x", "b"], ["a"]), N("Neg", ["a"], ["b"])]); g.output[0].name = "b"
    elif k == "no-opset": del m.opset_import[:]
    elif k == "unknown-op": g.node[0].op_type = "NotAnOperator"
    elif k == "bad-data-size": g.initializer[0].raw_data = g.initializer[0].raw_data[:-4]
    elif k == "bad-float-count": t = g.initializer[0]; t.ClearField("raw_data"); t.float_data.extend([1, 2])
    elif k == "undef-type": g.initializer[0].data_type = 0
    elif k == "negative-dim": g.initializer[0].dims[0] = -3
    elif k == "dup-init": g.initializer.add().CopyFrom(w)
    v.ctx("invalid " + k); v.note(k); v.nontrivial(); v.state(k); a = omc.imported(m)
    v.note(str(a)[:300])
    if k not in ("unknown-op", "no-opset", "dup-init"): v.check(a["stage"] == "import", "invalid %s %s" % (k, a["stage"]), lambda: str(a)[-1200:])
    else: v.check(a["stage"] in ("import", "ok"), "invalid %s %s" % (k, a["stage"]), lambda: str(a)[-1200:])
PARTS = [part_weight, part_constant, part_types, part_graph, part_special, part_external, part_damaged, part_invalid, part_schema]
ONLY = os.environ.get("OM_PARTS")
if ONLY: PARTS = [p for p in PARTS if re.fullmatch(ONLY, p.__name__[5:])]
def body(v): v.pick(PARTS)(v)
if __name__ == "__main__": vcpy.main(body, split=3, rule="weights x encodings x positions, Constant forms, input types x shapes, all wirings of three nodes in several file orders, special operators and subgraphs, external data, damaged and invalid files, every operator schema x each attribute x values")
