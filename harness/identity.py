# C35: removing identity nodes keeps the meaning and interface of a graph.
import os, importlib.util
import numpy as np, onnx
from onnx import helper as H, TensorProto as T
import vcpy
spec = importlib.util.spec_from_file_location("onnx_utils", os.path.join(os.environ["VERIF_REPO"], "src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/onnx_utils.py")); ou = importlib.util.module_from_spec(spec); spec.loader.exec_module(ou)
class Bad(Exception): pass
def evaluate(g, outer, binds):
    """symbolic evaluation: the outputs as terms over the inputs; Bad if the graph is not valid. Nodes in order, names defined once."""
    env = dict(binds)
    for i in g.initializer: env[i.name] = ("init", i.name)
    def get(n):
        if n in env: return env[n]
        if n in outer: return outer[n]
        raise Bad("name %s is used but not defined" % n)
    for nd in g.node:
        ins = [None if n == "" else get(n) for n in nd.input]; attrs = []
        for a in nd.attribute:
            if a.type == onnx.AttributeProto.GRAPH: attrs.append((a.name, evaluate(a.g, {**outer, **env}, {i.name: ("arg", a.name, k) for k, i in enumerate(a.g.input)})))
            elif a.type == onnx.AttributeProto.GRAPHS: attrs.append((a.name, tuple(evaluate(x, {**outer, **env}, {}) for x in a.graphs)))
            else: attrs.append((a.name, a.SerializeToString()))
        ident = nd.op_type == "Identity" and nd.domain == ""
        for k, n in enumerate(nd.output):
            if n == "": continue
            if ident and nd.input[0] == n: continue   # the invalid form the exporter sometimes makes: no effect
            if n in env or n in outer: raise Bad("name %s is defined twice" % n)
            env[n] = ins[0] if ident else (nd.domain, nd.op_type, k, tuple(ins), tuple(sorted(attrs)))
    names = [o.name for o in g.output]
    if len(set(names)) != len(names): raise Bad("output %s appears twice" % names)
    return tuple(get(n) for n in names)
VI = lambda n: H.make_tensor_value_info(n, T.FLOAT, [2])
def outs(v, names):
    """output lists: every single name, every ordered pair"""
    a = v.pick(names); b = v.choose(len(names)); return [a] if names[b] == a else [a, names[b]]
def sub(v, avail, tag, deep):
    """a subgraph over outer names: what it computes from one of them"""
    k = v.choose(5 if deep else 4); n = avail[v.choose(len(avail))] if not (tag.endswith("e") and deep) else avail[-1]; o = tag + "o"
    if k == 0: return H.make_graph([H.make_node("Neg", [n], [o])], tag, [], [VI(o)])
    if k == 1: return H.make_graph([H.make_node("Identity", [n], [o])], tag, [], [VI(o)])
    if k == 2: return H.make_graph([H.make_node("Neg", [n], [tag + "t"]), H.make_node("Sub", [tag + "t", avail[-1]], [o])], tag, [], [VI(o)])
    if k == 3: return H.make_graph([], tag, [], [VI(n)])
    i = H.make_node("If", ["c"], [o], then_branch=sub(v, avail, tag + "t", False), else_branch=H.make_graph([H.make_node("Abs", [n], [tag + "eo"])], tag + "e", [], [VI(tag + "eo")]))
    return H.make_graph([i], tag, [], [VI(o)])
def node(v, i, avail, kinds):
    k = v.pick(kinds); o = "n%d" % i
    if k == "I": return H.make_node("Identity", [v.pick(avail)], [o])
    if k == "N": return H.make_node("Neg", [v.pick(avail)], [o])
    if k == "S": return H.make_node("Sub", [v.pick(avail), v.pick(avail)], [o])
    if k == "L": a = v.pick(avail); return H.make_node("Identity", [a], [a])   # same name
    if k == "D": return H.make_node("Identity", [v.pick(avail)], [o], domain="my.domain")
    if k == "C": return H.make_node("Clip", [v.pick(avail), "", v.pick(avail)], [o])
    if k == "P": return H.make_node("Split", [v.pick(avail)], [o, o + "b"], axis=0)
    return H.make_node("If", ["c"], [o], then_branch=sub(v, avail, o + "t", True), else_branch=sub(v, avail, o + "e", True))
def judge(v, g, txt):
    before = onnx.GraphProto(); before.CopyFrom(g)
    try: want = evaluate(g, {}, {i.name: ("in", i.name) for i in g.input})
    except Bad as e: v.prune()
    v.note(txt or " ; ".join("%s(%s)->%s" % (n.op_type, ",".join(n.input), ",".join(n.output)) for n in g.node) + " outputs " + ",".join(o.name for o in g.output)); v.step()
    r = ou.remove_identity_ops(g); g = r if isinstance(r, onnx.GraphProto) else g; after = lambda: onnx.printer.to_text(g)
    v.check([i.SerializeToString() for i in g.input] == [i.SerializeToString() for i in before.input], "inputs", lambda: "the inputs changed: " + after())
    v.check([i.SerializeToString() for i in g.output] == [i.SerializeToString() for i in before.output], "outputs", lambda: "the outputs changed: " + after())
    v.check([i.SerializeToString() for i in g.initializer] == [i.SerializeToString() for i in before.initializer], "initializers", lambda: "the initializers changed: " + after())
    try: got = evaluate(g, {}, {i.name: ("in", i.name) for i in g.input})
    except Bad as e: v.fail("invalid", "the result is not valid: %s: %s" % (e, after()))
    v.check(got == want, "meaning", lambda: "the outputs are computed differently: %r instead of %r: %s" % (got, want, after()))
    ids = [n for n in before.node if n.op_type == "Identity" and n.domain == ""]
    if not ids: v.check(g.SerializeToString(deterministic=True) == before.SerializeToString(deterministic=True), "untouched", lambda: "a graph without identities is changed: " + after())
    else: v.nontrivial()
    on = {o.name for o in before.output}
    left = [n for n in g.node if n.op_type == "Identity" and n.domain == "" and (n.output[0] not in on or n.input[0] == n.output[0])]
    v.check(not left, "kept", lambda: "identities that define no output are left: " + after())
    v.state(before.SerializeToString(deterministic=True)); return g
def graph(v, n, kinds, w):
    avail = ["x", "y"][:1 if n > 3 else 2]; ins = [VI(a) for a in avail]; init = []
    if w: init = [H.make_tensor("w", T.FLOAT, [2], [1.0, 2.0])]; avail = avail + ["w"]
    ns = []; hasif = False
    for i in range(n):
        nd = node(v, i, avail, kinds); ns.append(nd)
        for o in nd.output:
            if o not in avail: avail = avail + [o]
        hasif |= nd.op_type == "If"
    if hasif: ins.append(H.make_tensor_value_info("c", T.BOOL, []))
    o = outs(v, avail[1:] if len(avail) > 3 else avail)
    return H.make_graph(ns, "g", ins, [VI(a) for a in o], init)
def flat(v):
    """every graph of single nodes"""
    n = 1 + v.choose(5 if v.thorough else 4); kinds = "INSLDCP" if n < 3 else "INSLP" if n < 4 else "IN" if n > 4 else "INL"; judge(v, graph(v, n, kinds, v.flip() if n < 4 else False), "")
def nested(v):
    """graphs whose last node takes values into subgraphs"""
    n = 1 + v.choose(2); pre = "IN"; avail = ["x"]; ns = []
    for i in range(n): nd = node(v, i, avail, pre if i or v.thorough else "I"); ns.append(nd); avail = avail + [nd.output[0]]
    ns.append(node(v, n, avail, "F")); avail = avail + ["n%d" % n]
    if v.flip(): ns.append(H.make_node("Identity", ["n%d" % n], ["z"])); avail = avail + ["z"]
    g = H.make_graph(ns, "g", [VI("x"), H.make_tensor_value_info("c", T.BOOL, [])], [VI(a) for a in [avail[-1 - v.choose(len(avail) - 1)]]]); judge(v, g, onnx.printer.to_text(g))
def loop(v):
    """a loop body uses outer values"""
    avail = ["x"]; ns = []
    for i in range(2): ns.append(node(v, i, avail, "IN")); avail = avail + ["n%d" % i]
    a, b = v.pick(avail), v.pick(avail); form = v.choose(3); bo = ["bi", "bc", "bx"]
    body = H.make_graph([H.make_node("Identity", ["bc"], ["bco"]), H.make_node("Sub" if form else "Identity", ["bx", a][: 2 if form else 1], ["bxo"])], "body", [H.make_tensor_value_info("bi", T.INT64, []), H.make_tensor_value_info("bc", T.BOOL, []), VI("bx")], [H.make_tensor_value_info("bco", T.BOOL, []), VI("bxo" if form < 2 else a)])
    ns.append(H.make_node("Loop", ["m", "", b], ["l"], body=body)); g = H.make_graph(ns, "g", [VI("x"), H.make_tensor_value_info("m", T.INT64, [])], [VI(o) for o in (["l"] if v.flip() else ["n1", "l"])]); judge(v, g, onnx.printer.to_text(g))
def files(v):
    """whole models through files, with initializers moved to external data"""
    n = 1 + v.choose(2); g = graph(v, n, "INL", True); big = v.flip()
    if big: g.initializer[0].CopyFrom(onnx.numpy_helper.from_array(np.arange(600, dtype=np.float32), "w"))
    m = H.make_model(g); m.producer_name = "p"; m.metadata_props.add(key="k", value="v"); i, o = os.path.join(v.home, "i.onnx"), os.path.join(v.home, "o.onnx")
    for f in os.listdir(v.home):
        if os.path.isfile(os.path.join(v.home, f)): os.unlink(os.path.join(v.home, f))
    try: want = evaluate(g, {}, {x.name: ("in", x.name) for x in g.input})
    except Bad: v.prune()
    onnx.save(m, i); v.step(); v.note(onnx.printer.to_text(g) if not big else "big"); ou.sanitize_onnx(i, o); v.check(os.path.exists(o), "file", "no model is written")
    r = onnx.load(o)
    try: got = evaluate(r.graph, {}, {x.name: ("in", x.name) for x in r.graph.input})
    except Bad as e: v.fail("file:invalid", "the written model is not valid: %s" % e)
    v.check(got == want and [x.name for x in r.graph.output] == [x.name for x in g.output] and [x.name for x in r.graph.input] == [x.name for x in g.input], "file:meaning", lambda: "the written model differs: " + onnx.printer.to_text(r.graph))
    v.check(np.array_equal(onnx.numpy_helper.to_array(r.graph.initializer[0]), onnx.numpy_helper.to_array(g.initializer[0])), "file:data", "an initializer differs")
    v.check(r.opset_import == m.opset_import and r.producer_name == "p" and r.metadata_props == m.metadata_props, "file:meta", "the model's versions or properties differ"); v.nontrivial()
BODIES = [flat, nested, loop, files]
def body(v): BODIES[v.choose(len(BODIES))](v)
vcpy.main(body, split=5, rule="every graph of up to 4 (5) nodes over identity (also with equal names, of another domain), one- and two-input, optional-input and two-output nodes with every wiring and every list of 1-2 outputs; conditionals and loops taking every outer value, nested twice; models through files")
