# C16: the real PyRuntime.py and PyRuntimeC (built from /repo) against a model that records what it receives.
import os, sys, ctypes, gc, itertools
sys.path.insert(0, os.environ["PYRT_DIR"]); sys.path.insert(0, os.path.join(os.environ["VERIF_REPO"], "src/Runtime/python"))
import numpy as np, vcpy
T = ctypes.CDLL(os.path.join(os.environ["PYRT_DIR"], "libvctrack.so")); T.vct_live.restype = ctypes.c_long; T.vct_why.restype = ctypes.c_char_p; T.vct_count.restype = ctypes.c_long
MODEL = os.path.join(os.environ["PYRT_DIR"], "echo.so"); M = ctypes.CDLL(MODEL)
M.echo_nin.restype = M.echo_rank.restype = M.echo_n.restype = ctypes.c_int64
M.echo_shape.restype = ctypes.POINTER(ctypes.c_int64); M.echo_lin.restype = M.echo_str.restype = ctypes.c_void_p
import PyRuntime
CODE = {"float32": 1, "uint8": 2, "int8": 3, "uint16": 4, "int16": 5, "int32": 6, "int64": 7, "object": 8, "bool": 9, "float16": 10, "float64": 11, "uint32": 12, "uint64": 13, "complex64": 14, "complex128": 15}
NAMES = list(CODE)
SESS = None
def init(v):
    global SESS
    SESS = PyRuntime.OMExecutionSession(MODEL); gc.collect(); gc.freeze()
STR = ["a", "", "héllo", "0123456789abcdef", " x\ty", "Zz"]
def values(dt, n, seed=0):
    if dt == "object":
        a = np.empty(n, dtype=object)
        for i in range(n): a[i] = STR[(i + seed) % len(STR)] + ("" if i < len(STR) else str(i))
        return a
    d = np.dtype(dt)
    if d == np.bool_: return (np.arange(n) + seed) % 3 == 0
    if d.kind == "c": return (np.arange(n) + 1 + seed + 1j * (np.arange(n) * 2 - 3)).astype(d)
    if d.kind == "f": return ((np.arange(n) * 1.5 + seed) * np.where(np.arange(n) % 2, -1, 1)).astype(d)
    if d.kind == "i": return ((np.arange(n) * 7 + 1 + seed) * np.where(np.arange(n) % 2, -1, 1)).astype(d)
    return (np.arange(n) * 7 + 1 + seed).astype(d)
def layout(kind, dt, shape, seed=0):
    """an array of that type and shape whose elements, in row-major order, are values(); laid out in memory as the kind says"""
    n = int(np.prod(shape, dtype=int)); ref = values(dt, n, seed).reshape(shape); d = ref.dtype
    if kind == "C": return ref.copy()
    if kind == "readonly": a = ref.copy(); a.flags.writeable = False; return a
    if kind == "F": return np.asfortranarray(ref) if ref.ndim else ref.copy()
    if kind == "reversed": return np.ascontiguousarray(ref[tuple(slice(None, None, -1) for _ in shape)])[tuple(slice(None, None, -1) for _ in shape)] if ref.ndim else ref.copy()
    if kind == "step2":
        if not ref.ndim: return ref.copy()
        big = np.empty(tuple(2 * s + 1 for s in shape), dtype=d); big[...] = ref.flat[0] if n else (0 if dt != "object" else "q"); v = big[tuple(slice(1, 2 * s + 1, 2) for s in shape)]; v[...] = ref; return v
    if kind == "rostep2":
        a = layout("step2", dt, shape, seed); a.flags.writeable = False; return a
    if kind == "broadcast":  # zero strides, read-only
        base = ref.reshape(-1)[:1] if n else values(dt, 1, seed); return np.broadcast_to(base.reshape((1,) * ref.ndim), shape)
    if kind == "swapaxes":
        return np.ascontiguousarray(ref.T).T if ref.ndim else ref.copy()
    if kind == "offset": # a tail of a bigger flat buffer
        big = np.empty(n + 3, dtype=d); big[...] = values(dt, 1)[0]; v = big[3:].reshape(shape); v[...] = ref; return v
    if kind == "colslice": # rows of a wider matrix
        if not ref.ndim: return ref.copy()
        big = np.empty(shape[:-1] + (shape[-1] + 2,), dtype=d); big[...] = values(dt, 1)[0]; v = big[..., 1:shape[-1] + 1]; v[...] = ref; return v
    if kind == "unaligned" and dt != "object":
        raw = np.zeros(n * d.itemsize + 1, dtype=np.uint8); v = raw[1:].view(d).reshape(shape) if n else ref.copy(); v[...] = ref; return v
    if kind == "swapped" and dt != "object": return ref.astype(d.newbyteorder(">"))
    if kind == "subclass":
        class Sub(np.ndarray): pass
        return ref.copy().view(Sub)
    raise vcpy.Prune()
KINDS = ["C", "readonly", "F", "reversed", "step2", "rostep2", "broadcast", "swapaxes", "offset", "colslice", "unaligned", "swapped", "subclass"]
SHAPES = [(), (0,), (1,), (5,), (2, 3), (3, 1), (0, 4), (4, 0), (1, 1), (2, 3, 2), (2, 0, 3), (1, 4, 1), (2, 1, 2, 3), (1, 2, 2, 1, 2)]
def raw(a):
    if a.dtype == object: return b"".join(s.encode() + b"\0" for s in a.ravel())
    return np.ascontiguousarray(a).astype(a.dtype.newbyteorder("=")).tobytes()
def call(v, inputs, how):
    if how == "run": return SESS.run(inputs)
    return SESS.run_debug(inputs, with_signal_handler=how[0], force_output_data_copy=how[1])
HOWS = ["run", (False, True), (True, False), (True, True)]
def received(v, i, a, what):
    ctx = what
    v.check(M.echo_type(i) == CODE[np.dtype(a.dtype.newbyteorder("=")).name if a.dtype != object else "object"], "type:" + ctx, "the model received type code %d for %s" % (M.echo_type(i), a.dtype))
    sh = tuple(M.echo_shape(i)[k] for k in range(M.echo_rank(i)))
    v.check(sh == a.shape, "shape:" + ctx, "the model received shape %s for %s" % (sh, a.shape))
    want = raw(a); n = M.echo_n(i)
    lin = ctypes.string_at(M.echo_lin(i), n); st = ctypes.string_at(M.echo_str(i), n)
    v.check(lin == want, "values:" + ctx, "shape %s strides %s: the model's buffer holds %r, expected %r" % (a.shape, a.strides, lin[:80], want[:80]))
    v.check(st == want, "strides:" + ctx, "shape %s strides %s: the elements addressed by the tensor's strides are %r, expected %r" % (a.shape, a.strides, st[:80], want[:80]))
def tell(v, outs):
    for o in outs:
        dt, shape, seed, mode, arg = o; b = raw(values(dt, int(np.prod(shape, dtype=int)), seed)) if mode not in (4,) else b""
        M.echo_out(CODE.get(dt, dt if isinstance(dt, int) else 0), ctypes.c_int64(len(shape)), (ctypes.c_int64 * 8)(*shape), b, ctypes.c_int64(len(b)), mode, arg)
def expect(outs, inputs):
    r = []
    for dt, shape, seed, mode, arg in outs:
        if mode == 3: r.append(r[arg].reshape(shape))
        elif mode == 4: r.append(np.array(inputs[arg]).reshape(shape))
        elif mode == 5: n = int(np.prod(shape, dtype=int)); q = r[arg].reshape(-1); r.append(q[len(q) - n:].reshape(shape))
        else: r.append(values(dt, int(np.prod(shape, dtype=int)), seed).reshape(shape))
    return r
def same(v, got, want, key, i):
    v.check(isinstance(got, np.ndarray) and got.dtype == want.dtype, "outtype:" + key, "output %d has type %s, expected %s" % (i, getattr(got, "dtype", type(got)), want.dtype))
    v.check(got.shape == want.shape, "outshape:" + key, "output %d has shape %s, expected %s" % (i, got.shape, want.shape))
    v.check(list(got.ravel()) == list(want.ravel()), "outvalues:" + key, lambda: "output %d holds %s, expected %s" % (i, list(got.ravel())[:8], list(want.ravel())[:8]))
def done(v, base, key):
    gc.collect()
    v.check(T.vct_errors() == 0, "memory:" + key, T.vct_why().decode())
    v.check(T.vct_live() == base, "leak:" + key, "%d blocks allocated by the runtime or the model are still live after everything was released" % (T.vct_live() - base))

def inputs_body(v):
    dt = v.pick(NAMES); kind = v.pick(KINDS); shape = v.pick(SHAPES); how = v.pick(HOWS)
    two = v.choose(3) # a second input of another type/layout, before or after
    a = layout(kind, dt, shape, 1); ins = [a]
    if kind == "F" and len(shape) < 2: v.prune()
    if two: b = layout(v.pick(["C", "readonly", "F"]), v.pick(["float32", "object", "bool"]), v.pick([(2, 2), ()]), 2); ins = [a, b] if two == 1 else [b, a]
    before = [x.copy() for x in ins]
    key = "%s:%s" % (kind, "string" if dt == "object" else "numeric")
    v.note("run inputs %s via %s" % ([(str(x.dtype), x.shape, x.strides, x.flags.writeable) for x in ins], how)); v.ctx(key); v.nontrivial(); v.step(); v.state((dt, kind, shape, how, two))
    T.vct_reset(); M.echo_reset(); gc.collect(); base = T.vct_live()
    tell(v, [("float32", (2,), 5, 0, 0)])
    try: outs = call(v, ins, how)
    except Exception as e:
        outs = None
        v.check(kind == "swapped" and (np.dtype(dt).itemsize > 1 or True) or kind == "unaligned", "refused:" + key, "supported input refused: %s" % e)
        v.check("not supported" in str(e), "refusal:" + key, "odd message %s" % e); del e
    if outs is not None:
        v.check(M.echo_nin() == len(ins), "count:" + key, "the model received %d inputs" % M.echo_nin())
        for i, x in enumerate(ins): received(v, i, x, key)
        same(v, outs[0], values("float32", 2, 5), key, 0)
    for x, y in zip(ins, before): v.check(x.shape == y.shape and list(x.ravel()) == list(y.ravel()), "modified:" + key, "an input array was modified")
    del outs
    done(v, base, key)

def unsupported_body(v):
    a = v.pick([np.zeros(2, "M8[s]"), np.array(["ab", "c"]), np.zeros(2, np.longdouble), np.array([b"xy"]), np.zeros(2, "f4,i4"), np.zeros((2, 2), "m8[s]"), np.array([1, None], dtype=object), np.array([b"x", 3.5], dtype=object), np.array(["ok", 7], dtype=object), "list", None, "notcontig"])
    others = v.pick([0, 1, 2, 3]); how = v.pick(HOWS)
    ro = v.flip()
    g = lambda i: layout("readonly" if ro else "C", ["float32", "object", "int64"][i], (2, 3), i)
    ins = [g(i) for i in range(others)] + [a] + [g(i) for i in range(2)]
    if isinstance(a, str) and a == "list": ins[others] = [1, 2]
    if isinstance(a, str) and a == "notcontig":
        if how == "run": v.prune()
        x = np.arange(12).reshape(3, 4).T; ins[others] = x; ins = [i for i in ins if i.dtype != object]
    key = "unsupported"; v.note("run with an unsupported input %r at position %d (%s), read-only others %s" % (a if not isinstance(a, np.ndarray) else (a.dtype, a), others, how, ro)); v.ctx(key); v.nontrivial(); v.step()
    T.vct_reset(); M.echo_reset(); gc.collect(); base = T.vct_live(); tell(v, [("float32", (2,), 5, 0, 0)])
    try:
        if isinstance(a, str) and a == "notcontig":
            # through the low-level call: the flattened array is required to be contiguous
            PyRuntime.OMExecutionSession_._runImplementation(SESS, ins, [np.array(x.shape, dtype=np.int64) for x in ins], [np.array(x.strides, dtype=np.int64) for x in ins], how[0], how[1])
        else: call(v, ins, how)
        ok = True
    except Exception as e: ok = False; msg = str(e); del e
    v.check(not ok, "accepted:" + key, "an unsupported input was accepted (%r)" % (a,))
    del ins; done(v, base, key)
    M.echo_reset(); tell(v, [("int64", (2,), 5, 0, 0)]); x = np.arange(3.0, dtype=np.float32); o = SESS.run([x]); received(v, 0, x, "after-refusal"); same(v, o[0], values("int64", 2, 5), "after-refusal", 0)

OSH = [(), (3,), (0,), (2, 2), (2, 0, 3), (1, 2, 1, 2)]
def outputs_body(v):
    n = v.choose(3) + 1; outs = []
    tps = NAMES if n == 1 else ["float32", "object", "bool"]; how = v.pick(HOWS)
    ro = v.flip(); x = layout("readonly" if ro else "C", "int64", (4,), 9)
    for i in range(n):
        mode = v.pick([0, 1, 2, 4, 6, 7] if i == 0 else [0, 2, 3, 4, 5, 6])
        if mode == 6 and i + 1 < n: v.prune()
        if mode == 7 and n > 1: v.prune()
        if mode in (0, 1, 2): outs.append((v.pick(tps), v.pick(OSH if n == 1 else [(2, 2), ()] if n == 2 else [(2, 2)]), 3 + i, mode, 0))
        elif mode == 3: # the same buffer as an earlier output, perhaps reshaped
            j = v.choose(i); 
            if outs[j][3] not in (0, 1): v.prune()
            dt, sh = outs[j][0], outs[j][1]; outs.append((dt, v.pick([sh, (int(np.prod(sh, dtype=int)),)]), outs[j][2], 3, j))
        elif mode == 4: outs.append(("int64", v.pick([(4,), (2, 2)]), 9, 4, 0))
        elif mode == 5:
            j = v.choose(i)
            if outs[j][3] not in (0, 1) or outs[j][0] == "object" or int(np.prod(outs[j][1], dtype=int)) < 2: v.prune()
            outs.append((outs[j][0], (1,), outs[j][2], 5, j))
        else: outs.append(("float32", (1,), 0, mode, 0))
    key = "modes" + "".join(str(o[3]) for o in outs) + (":str" if any(o[0] == "object" for o in outs) else "")
    v.note("run (%s, input %s) returning %s" % (how, "read-only" if ro else "writable", outs)); v.ctx(key); v.nontrivial(); v.step(); v.state((how, ro, tuple(outs)))
    T.vct_reset(); M.echo_reset(); gc.collect(); base = T.vct_live()
    # mode 5 returns raw bytes of a tail: describe sizes to the model through the data length
    for dt, shape, seed, mode, arg in outs:
        b = raw(values(dt, int(np.prod(shape, dtype=int)), seed)); M.echo_out(CODE[dt], ctypes.c_int64(len(shape)), (ctypes.c_int64 * 8)(*shape), b, ctypes.c_int64(len(b)), mode, arg)
    bad = any(o[3] in (6, 7) for o in outs)
    try: got = call(v, [x], how)
    except Exception as e: got = None; msg = str(e); del e
    v.check((got is None) == bad, "outcome:" + key, "run %s" % ("failed: " + msg if got is None else "returned a list for a failing model"))
    if got is None: done(v, base, key); return
    want = expect(outs, [x])
    def compare(when):
        for i, (g, w) in enumerate(zip(got, want)):
            if g is not None: same(v, g, w, key + when, i)
    v.check(len(got) == n, "count:" + key, "%d outputs" % len(got)); compare("")
    if how == "run" or not how[1]:
        pass
    # another run and the release of some outputs must not disturb the others
    M.echo_reset(); tell(v, [("float64", (3, 2), 1, 0, 0), ("int8", (5,), 1, 2, 0), ("int8", (5,), 2, 2, 0)]); x2 = layout("C", "int64", (4,), 77); o2 = SESS.run([x2])
    if not ro: x[...] = 0
    if any(o[3] == 4 for o in outs): compare(":input-changed") 
    compare(":later-run"); del o2; compare(":later-run")
    order = v.choose(n) if n > 1 else 0
    keep = got[order]; keepview = keep[..., :1] if keep.ndim else keep
    got = [None if i != order else g for i, g in enumerate(got)]; gc.collect(); v.note("keep only output %d" % order); compare(":others-released")
    got = None; wv = want[order][..., :1] if keep.ndim else want[order]; del keep; gc.collect()
    v.check(list(keepview.ravel()) == list(wv.ravel()), "view:" + key, "a view of a released output changed"); del keepview
    v.check(T.vct_errors() == 0, "memory:" + key, T.vct_why().decode())
    done(v, base, key)

def hist_body(v):
    """several runs whose results are dropped in every order"""
    T.vct_reset(); M.echo_reset(); gc.collect(); base = T.vct_live(); live = {}; v.nontrivial(); v.ctx("hist"); fails = 0
    depth = 6 if v.thorough else 4
    for step in range(depth):
        ops = ["run0", "run1", "run2", "runbad", "rununsup", "fill"] + ["drop%d" % k for k in live]
        op = v.pick(ops); v.note(op); v.step()
        if op.startswith("drop"): del live[int(op[4:])]; gc.collect()
        elif op == "fill":
            M.echo_sig(b'[{"type":"f32","dims":[2,3],"name":"a"},{"type":"i64","dims":[4],"name":"b"},{"type":"string","dims":[2],"name":"c"}]')
            a = SESS.fill_input_debug(seed=3)
            v.check([(x.dtype, x.shape) for x in a] == [(np.dtype("float32"), (2, 3)), (np.dtype("int64"), (4,)), (np.dtype(object), (2,))], "fill:types", str([(x.dtype, x.shape) for x in a]))
            v.check(all(isinstance(s, str) for s in a[2]), "fill:strings", repr(a[2]))
            M.echo_reset(); SESS.run(a)
            for i, x in enumerate(a): received(v, i, x, "fill")
        elif op == "runbad" or op == "rununsup":
            M.echo_reset(); tell(v, [("float32", (2,), 1, 7 if op == "runbad" else 0, 0)])
            try: SESS.run([layout("readonly", "float32", (2,), 0), layout("C", "object", (2,), 0)] + ([np.zeros(2, "M8[s]")] if op == "rununsup" else [])); v.fail("accepted:hist", op + " returned")
            except RuntimeError as e: del e
        else:
            M.echo_reset(); k = int(op[3])
            outs = [[("float32", (3,), step, 0, 0), ("float32", (3,), step, 3, 0)], [("object", (2,), step, 0, 0), ("int64", (2,), step, 2, 0)], [("uint8", (2, 2), step, 1, 0)]][k]
            tell(v, outs); x = layout("step2", "int16", (2, 2), step); o = SESS.run([x]); received(v, 0, x, "hist"); live[step] = (o, expect(outs, [x]))
        for s, (o, w) in live.items():
            for i, (g, e) in enumerate(zip(o, w)): same(v, g, e, "hist", i)
        v.check(T.vct_errors() == 0, "memory:hist", T.vct_why().decode()); v.state((tuple(sorted(live)), op))
    live.clear(); o = w = g = e = a = x = None; done(v, base, "hist")

def api_body(v):
    """the session's other calls report what the library says"""
    k = v.pick(["entry_points", "insig", "outsig", "info", "path", "set", "setbad", "tag", "noentry", "missing"]); v.note(k); v.nontrivial(); v.ctx(k); v.step()
    S = PyRuntime.OMExecutionSession
    if k == "missing":
        try: S("/nonexistent/model.so"); v.fail("load:missing", "no error")
        except RuntimeError: return
    s = S(MODEL, "", k not in ("noentry",)) if k != "tag" else S(shared_lib_path=MODEL, tag="NONE")
    M.echo_sig(b"[in sig]")
    if k == "entry_points": v.check(s.entry_points() == ["run_main_graph"], "api:" + k, s.entry_points())
    elif k == "insig": v.check(s.input_signature() == "[in sig]", "api:" + k, s.input_signature())
    elif k == "outsig": v.check(s.output_signature() == "out sig", "api:" + k, s.output_signature())
    elif k == "info": v.check(s.compilation_info() == "{}", "api:" + k, s.compilation_info())
    elif k == "path": v.check(s.get_shared_lib_path() == MODEL, "api:" + k, s.get_shared_lib_path())
    elif k == "setbad":
        try: s.set_entry_point("zzz"); v.fail("api:setbad", "no error")
        except RuntimeError: pass
    else:
        if k in ("set", "noentry"):
            if k == "noentry":
                try: s.run([]); v.fail("api:noentry", "ran without entry point")
                except RuntimeError: pass
            s.set_entry_point("run_main_graph")
        M.echo_reset(); tell(v, [("int16", (2,), 1, 0, 0)]); same(v, s.run([])[0], values("int16", 2, 1), k, 0); v.check(M.echo_nin() == 0, "api:count", M.echo_nin())

BODIES = [inputs_body, unsupported_body, outputs_body, hist_body, api_body]
def body(v): BODIES[v.choose(len(BODIES))](v)
vcpy.main(body, split=4, init=init, rule="every input array over 15 element types x 13 memory layouts x 14 shapes x 4 ways to run (and beside a second input); 12 unsupported inputs at every position; every list of up to 3 outputs over types, shapes and 8 ways a model can own or share them, released in every order; all histories of 4 (6 thorough) runs, failing runs, fills and releases")
