# C34: the compiled-model cache returns only complete, matching, recent entries.
import os, sys, io, json, types, shutil, ctypes, importlib.util, contextlib, signal
import vcpy
# stand-in for the inference session: a compiled model is valid exactly if it is a complete file "so:<text>:END"
class BadModel(Exception): pass
class InferenceSession:
    def __init__(self, path, tag="", **kw):
        self.path, self.tag = path, tag
        with open(path) as f: self.text = f.read()
        if not (self.text.startswith("so:") and self.text.endswith(":END")): raise BadModel("%s is not a complete model: %r" % (path, self.text))
        # a real session loads its constants when it is first run
    def get_shared_lib_path(self): return self.path
    def compilation_info(self): return json.dumps({"i": self.text})
    def input_signature(self): return "[in]"
    def output_signature(self): return "[out]"
m = types.ModuleType("om_pyrt"); m.InferenceSession = InferenceSession; sys.modules["om_pyrt"] = m
spec = importlib.util.spec_from_file_location("sessioncache", os.path.join(os.environ["VERIF_REPO"], "src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py"))
sc = importlib.util.module_from_spec(spec); sys.modules["sessioncache"] = sc; spec.loader.exec_module(sc)
KEYS = ["k%d" % i for i in range(5)]; IDX = [[0], [1, 0], [], [0, 2]]
PAD = "x" * 300
def so(key, ver): return "so:%s:%d:%s:END" % (key, ver, PAD)
def const(key, ver, n): return "const%d:%s:%d:%s:END" % (n, key, ver, PAD)
def put(p, t):
    with open(p, "w") as f: f.write(t)
def source(v, key, ver, nconst, extra=False):
    """the directory the compiler left: model<key>.so, constants and other files"""
    d = os.path.join(v.src, "s%d" % ver); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    put(os.path.join(d, "model%s.so" % key), so(key, ver)); put(os.path.join(d, "model%s.onnx" % key), "onnx:%s:%d" % (key, ver))
    for n in range(nconst): put(os.path.join(d, "model%s%s.constants.bin" % (key, "" if n == 0 else "_%d" % n)), const(key, ver, n))
    if extra: put(os.path.join(d, "notes.txt"), "t"); put(os.path.join(d, "weights.onnx_data"), "od"); os.makedirs(os.path.join(d, "dir.so")); put(os.path.join(d, "big.data"), "dd")
    return os.path.join(d, "model%s.so" % key)
def value(v, key, ver, nconst=1, extra=False): return sc.CacheValue(tag=key, sess=InferenceSession(source(v, key, ver, nconst, extra), tag=key), example_inputs_indices=IDX[ver % len(IDX)])
def complete(v, val, key, ver, nconst, what, where=None):
    """val holds all the parts stored for the key as version ver"""
    k = what
    v.check(val.tag == key and val.sess.tag == key, k + ":tag", lambda: "tag %r, session tag %r for key %s" % (val.tag, val.sess.tag, key))
    v.check(val.sess.text == so(key, ver), k + ":model", lambda: "the model returned for %s is %r, stored was version %d" % (key, val.sess.text[:20], ver))
    v.check(val.example_inputs_indices == IDX[ver % len(IDX)], k + ":indices", lambda: "the input indices returned for %s (version %d) are %r, stored were %r" % (key, ver, val.example_inputs_indices, IDX[ver % len(IDX)]))
    d = os.path.dirname(val.sess.get_shared_lib_path())
    for n in range(nconst):
        f = os.path.join(d, "model%s%s.constants.bin" % (key, "" if n == 0 else "_%d" % n)); t = open(f).read() if os.path.exists(f) else None
        v.check(t == const(key, ver, n), k + ":constants", lambda: "the constants beside the model of %s (version %d) are %r" % (key, ver, t and t[:20]))
def init(v): v.src = os.path.join(v.home, "src"); v.store = os.path.join(v.home, "store"); os.makedirs(v.src, exist_ok=True)
def fresh(v):
    for d in (v.src, v.store): shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
def new(v, cap):
    os.environ["TORCHONNXMLIR_CACHE_DIR"] = v.store
    return sc.SessionCache(cap) if cap != 3 else sc.SessionCache()
def quiet(v, f):
    o = io.StringIO()
    with contextlib.redirect_stdout(o): r = f()
    v.check("Error" not in o.getvalue(), "internal-error", lambda: "the cache reports: " + o.getvalue()); return r
def histories(v, disk):
    """every history of operations against a model: a list of keys, least recently used first"""
    if disk: fresh(v)
    cap = 1 + v.choose(2 if disk and not v.thorough else 3); nk = min(cap + 1, 4) if disk else cap + 2; keys = KEYS[:nk]; c = new(v, cap); lru = []; mem = {}; dsk = {}; ver = 0; depth = (6 if v.thorough else 5) if not disk else (5 if v.thorough else 4); log = []
    if disk:   # entries of an earlier process
        n = v.choose(3)
        for k in keys[:n]:
            c0 = new(v, 3); quiet(v, lambda: (c0.victim(), c0.put(k, value(v, k, ver)))); dsk[k] = ver; ver += 1
    for _ in range(depth):
        used = len([k for k in keys if k in dsk or k in mem or any(k in l for l in log)]); avail = keys[:min(nk, used + 1)]   # keys are symmetric
        op = v.pick([0, 1, 3, 4, 5] if disk else [0, 1, 2, 3, 4]); k = v.pick(avail) if op < 4 else None; v.step()
        if op == 0:
            log.append("get " + k); r = quiet(v, lambda: c.get(k))
            if k in mem:
                v.check(r is mem[k][0], "get-memory", lambda: "get(%s) does not return what was stored after %s" % (k, log)); lru.remove(k); lru.append(k); not disk or complete(v, r, k, mem[k][1], 1, "get-memory")
            elif k in dsk:
                v.check(r is not None, "get-disk", lambda: "get(%s) does not find the entry on disk after %s" % (k, log)); complete(v, r, k, dsk[k], 1, "get-disk"); v.nontrivial()
                if len(lru) >= cap: mem.pop(lru.pop(0))
                lru.append(k); mem[k] = (r, dsk[k])
            else: v.check(r is None, "get-absent", lambda: "get(%s) finds an entry that is not stored after %s" % (k, log))
        elif op == 1:
            log.append("insert " + k); full = len(lru) >= cap; want = lru[0] if full else len(lru); t = quiet(v, c.victim)
            v.check(t == want, "victim", lambda: "victim() gives %r instead of %r after %s" % (t, want, log))
            if full: mem.pop(lru.pop(0)); v.nontrivial()
            val = value(v, k, ver) if disk else sc.CacheValue(tag=k, sess=object(), example_inputs_indices=IDX[ver % 4]); quiet(v, lambda: c.put(k, val) if disk else c.put(k, val, False))
            if k in lru: lru.remove(k)
            lru.append(k); mem[k] = (val, ver)
            if disk: dsk[k] = ver
            ver += 1
        elif op == 2: log.append("contains " + k); v.check((k in c) == (k in mem), "contains", lambda: "%s in cache is %s after %s" % (k, k in c, log))
        elif op == 3:
            log.append("remove " + k); quiet(v, lambda: c.remove(k))
            if k in mem: mem.pop(k); lru.remove(k)
        elif op == 4: log.append("clear"); quiet(v, c.clear); mem.clear(); lru.clear()
        else: log.append("new process"); c = new(v, cap); mem.clear(); lru.clear()
        v.ctx("histories"); n = len(c)
        v.check(n == len(lru), "size", lambda: "%d entries instead of %d (capacity %d) after %s" % (n, len(lru), cap, log)); v.check(n <= cap, "capacity", lambda: "%d entries, capacity %d after %s" % (n, cap, log))
        for k in keys: v.check((k in c) == (k in mem), "evicted", lambda: "%s should %sbe in memory after %s (capacity %d)" % (k, "" if k in mem else "not ", log, cap))
        v.state((cap, tuple(lru), tuple(sorted(dsk.items())), tuple(sorted((k, x[1]) for k, x in mem.items()))))
    v.note("capacity %d: %s" % (cap, log))
def roundtrip(v):
    """what is stored is found by a new process with all its parts"""
    fresh(v); n = 1 + v.choose(3); stored = {}; c = new(v, 1 + v.choose(2)); withonnx = v.flip()
    for i in range(n):
        k = v.pick(KEYS[:2]); nc = v.choose(3); extra = v.flip(); ver = i
        if withonnx:
            d = os.path.dirname(source(v, k, ver, nc, extra)); quiet(v, lambda: c.write_onnx_to_disk(k, d))
            v.check(new(v, 1).get(k) is None or k in stored, "onnx-only", lambda: "an entry with only the ONNX files of %s is loaded" % k)
            f = os.path.join(v.store, k, "model%s.onnx" % k); v.check(os.path.exists(f) and open(f).read() == "onnx:%s:%d" % (k, ver), "onnx-lost", lambda: "the ONNX model of %s is not in its folder" % k)
            if extra: v.check(all(os.path.exists(os.path.join(v.store, k, x)) for x in ("weights.onnx_data", "big.data")), "onnx-data", "the ONNX data files are not stored")
        quiet(v, c.victim); quiet(v, lambda: c.put(k, value(v, k, ver, nc, extra))); stored[k] = (ver, nc); v.step()
        r = quiet(v, lambda: c.get(k)); v.check(r is not None, "own", "an entry just stored is not found"); complete(v, r, k, ver, nc, "own")
        shutil.rmtree(v.src); os.makedirs(v.src)   # the compiler's directory is temporary
        p = new(v, 2)
        for k2 in KEYS[:3]:
            r = quiet(v, lambda: p.get(k2))
            if k2 not in stored: v.check(r is None, "phantom", lambda: "an entry for %s appears" % k2); continue
            v.check(r is not None, "lost", lambda: "the entry of %s is not found by a new process" % k2); complete(v, r, k2, stored[k2][0], stored[k2][1], "reload"); v.nontrivial()
        v.check(not os.path.exists(os.path.join(v.store, k, "notes.txt")), "foreign", "other files of the compiler's directory are stored")
    v.state(sorted(stored.items())); v.note(sorted(stored.items()))
lib = ctypes.CDLL(None) if "vcrash" in os.environ.get("LD_PRELOAD", "") else None
MODES = ["before", "half of", "after", "failing from"]
def crash(v):
    """a process is killed at every file operation of a write, or its writes start to fail; a later process looks"""
    fresh(v); k = KEYS[0]; old = v.choose(3); nc = v.choose(3); extra = v.flip(); onnx = v.flip(); ver = old
    for i in range(old): c = new(v, 3); c.victim(); c.put(k, value(v, k, i, 1 + i % 2, extra)); 
    oldnc = 0 if old == 0 else 1 + (old - 1) % 2
    nb = None
    if v.flip(): nb = value(v, KEYS[1], 7); c = new(v, 3); c.victim(); c.put(KEYS[1], nb)   # a neighbour that must survive
    val = value(v, k, ver, nc, extra); d = os.path.dirname(val.sess.get_shared_lib_path())
    def write():
        c = new(v, 3)
        if onnx: c.write_onnx_to_disk(k, d)
        c.victim(); c.put(k, val)
    def child(at, mode):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1); os.dup2(1, 2); rc = 0; lib.vcr_arm(ctypes.c_long(at), mode)
            try: write()
            except BaseException: rc = 1
            n = lib.vcr_count(); lib.vcr_arm(ctypes.c_long(0), 0); os.write(w, str(n).encode()); os._exit(rc)
        os.close(w); n = os.read(r, 64); os.close(r); _, st = os.waitpid(pid, 0); return int(n or 0), os.waitstatus_to_exitcode(st)
    if not hasattr(v, "ops"): v.ops = {}
    sig = (old, nc, extra, onnx, nb is None)
    if sig not in v.ops:
        save = os.path.join(v.home, "save"); shutil.rmtree(save, ignore_errors=True); shutil.copytree(v.store, save)
        v.ops[sig], rc = child(1 << 40, 0); v.check(rc == 0, "crash:write", "storing an entry fails"); shutil.rmtree(v.store); shutil.copytree(save, v.store)
    mode = v.choose(4); at = 1 + v.choose(v.ops[sig]); _, rc = child(at, mode); v.step(v.ops[sig])
    ctx = "after the write of version %d (%d constants, old: %s) was killed %s operation %d of %d" % (ver, nc, old - 1 if old else "none", MODES[mode], at, v.ops[sig]); v.note(ctx)
    v.check(rc in (99, 0, 1) and (mode == 3 or rc == 99), "crash:harness", lambda: "unexpected exit %d %s" % (rc, ctx))
    shutil.copytree(v.src, os.path.join(v.home, "keep"), dirs_exist_ok=True)
    p = new(v, 3)
    try: r = quiet(v, lambda: p.get(k))
    except Exception as e: v.fail("crash:get-fails", "looking the entry up raises %s: %s %s" % (type(e).__name__, str(e)[:200], ctx))
    if r is not None:
        isnew = r.sess.text == so(k, ver); what = "crash:" + ("new" if isnew else "old"); v.nontrivial()
        v.check(isnew or (old and r.sess.text == so(k, old - 1)), "crash:model", lambda: "the model loaded is %r %s" % (r.sess.text[:30], ctx))
        complete(v, r, k, ver if isnew else old - 1, nc if isnew else oldnc, what)
    if mode == 3 and rc == 0: v.check(r is not None and r.sess.text == so(k, ver), "crash:silent", "storing reports success but the entry cannot be loaded " + ctx)
    if nb is not None: r2 = quiet(v, lambda: p.get(KEYS[1])); v.check(r2 is not None, "crash:neighbour", "another entry is lost " + ctx); complete(v, r2, KEYS[1], 7, 1, "crash:neighbour")
    # the next process stores the entry again
    c = new(v, 3); c.victim(); quiet(v, lambda: c.put(k, val)); r = quiet(v, lambda: new(v, 3).get(k)); v.check(r is not None, "crash:again", "the entry cannot be stored again " + ctx); complete(v, r, k, ver, nc, "crash:again")
    v.state((sig, mode, at))
BODIES = [lambda v: histories(v, False), lambda v: histories(v, True), roundtrip, crash]
def body(v): BODIES[v.choose(len(BODIES))](v)
vcpy.main(body, split=5, init=init, rule="every history of get, insert, contains, remove, clear, new process to a depth over capacities 1-3 and capacity+1 or +2 keys, with 0-2 entries already on disk; every store of up to 3 entries with 0-2 constant files read back; every file operation of a write x killed before, in the middle, after, or failing from there on")
