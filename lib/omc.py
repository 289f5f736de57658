"""Client of the compiler server (harness/omserver.cpp): one server process per worker and set of compiler flags."""
import os, json, struct, subprocess, numpy as np
EXE = os.path.join(os.environ.get("VERIF_HOME", "/verif"), ".build/om/omc")
# onnx TensorProto data types <-> numpy
NP = {1: np.float32, 2: np.uint8, 3: np.int8, 4: np.uint16, 5: np.int16, 6: np.int32, 7: np.int64, 9: np.bool_, 10: np.float16, 11: np.float64, 12: np.uint32, 13: np.uint64}
CODE = {np.dtype(v): k for k, v in NP.items()}
class Server:
    def __init__(self, flags):
        d = os.environ.get("VC_SCRATCH", "/tmp"); self.p = subprocess.Popen([EXE, *flags], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d)
    def req(self, rq, bin=b""):
        j = json.dumps(rq).encode(); self.p.stdin.write(struct.pack("=QQ", len(j), len(bin)) + j + bin); self.p.stdin.flush()
        h = self._n(16); a, b = struct.unpack("=QQ", h); return json.loads(self._n(a)), self._n(b)
    def _n(self, n):
        r = b""
        while len(r) < n:
            c = self.p.stdout.read(n - len(r))
            if not c: raise RuntimeError("omserver died (exit %s)" % self.p.poll())
            r += c
        return r
_servers = {}
def server(flags=()):
    k = (os.getpid(), tuple(flags))
    if k not in _servers: _servers[k] = Server(list(flags))
    return _servers[k]
def run(model, runs, flags=(), timeout=60):
    """model: serialized ModelProto; runs: list of lists of arrays -> answer; answer['runs'][i]['arrays'] are the outputs."""
    if not isinstance(model, bytes): model = model.SerializeToString()
    b = [model]; rr = []
    for ins in runs:
        r = []
        for x in ins: x = np.ascontiguousarray(x).reshape(np.shape(x)); r.append({"t": CODE[x.dtype], "s": list(x.shape)}); b.append(x.tobytes())
        rr.append(r)
    a, out = server(flags).req({"mode": "run", "model": len(model), "runs": rr, "timeout": timeout}, b"".join(b))
    off = 0
    for r in a.get("runs", []):
        r["arrays"] = []
        for o in r["outs"]:
            if o["t"] == 8:
                n = int(np.prod(o["s"])) if o["s"] else 1; l = []
                for _ in range(n): k = struct.unpack_from("=Q", out, off)[0]; l.append(out[off + 8:off + 8 + k].decode(errors="replace")); off += 8 + k
                r["arrays"].append(np.array(l, dtype=object).reshape(o["s"]))
            else: r["arrays"].append(np.frombuffer(out, NP[o["t"]], count=o["n"] // np.dtype(NP[o["t"]]).itemsize, offset=off).reshape(o["s"]) if o["t"] in NP else None); off += o["n"]
    return a
def imported(model, flags=(), mode="import"):
    if not isinstance(model, bytes): model = model.SerializeToString()
    return server(flags).req({"mode": mode, "model": len(model)}, model)[0]
