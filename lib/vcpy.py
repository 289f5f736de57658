"""vcpy - the Python side of the engine (see lib/vc.hpp): exhaustive depth-first enumeration of every
choice sequence a harness body makes, on the real code, over disjoint subtrees in 8 worker processes.
A body takes the Vc object; v.choose(n) is the only nondeterminism."""
import os, sys, json, time, mmap, struct, signal, traceback, argparse, hashlib, random
class Failure(Exception):
    def __init__(self, key, msg): self.key, self.msg = key, msg
class Prune(Exception): pass
class Skip(Exception): pass
MAXD = 1024
MAXKEYS, MAXVIOL, MAXDIED = int(os.environ.get("VC_MAXKEYS", 40)), int(os.environ.get("VC_MAXVIOL", 3000)), 40
HDR = struct.Struct("=QQQQQ")   # execs, steps, nontrivial, progress, unit
class Vc:
    def __init__(self, tier, split):
        self.tier, self.split = tier, split; self.seq = []; self.ar = []; self.pos = 0; self.owned = True; self.replaying = False
        self.notes = []; self.context = ""; self.nt = False; self.states = set(); self.nsteps = 0; self.unit = 0; self.progress = 0; self.shm = None
    @property
    def thorough(self): return self.tier == "thorough"
    def choose(self, n):
        if n == 0: raise Prune()
        if not self.replaying and self.pos == self.split and not self.owned: raise Skip()
        if self.pos < len(self.seq):
            c = self.seq[self.pos]
            if not self.replaying and self.ar[self.pos] is not None and self.ar[self.pos] != n:
                print("vcpy: nondeterministic harness: arity %s vs %s at %d\n%s" % (self.ar[self.pos], n, self.pos, "\n".join(self.notes)), file=sys.stderr); sys.stderr.flush(); os._exit(77)
            self.ar[self.pos] = n
        else: c = 0; self.seq.append(0); self.ar.append(n)
        if c >= n: print("bad replay choice"); os._exit(77)
        self.pos += 1
        if self.shm is not None:
            self.progress += 1
            struct.pack_into("=QI", self.shm, 24, self.progress, 0)
            struct.pack_into("=HH", self.shm, 64 + 4 * (self.pos - 1), c, n)
            struct.pack_into("=I", self.shm, 48, self.pos)
        return c
    def pick(self, l): return l[self.choose(len(l))]
    def flip(self): return bool(self.choose(2))
    def note(self, s): self.notes.append(str(s)); self._save()
    def ctx(self, s): self.context = s; self._save()
    def _save(self):
        if self.shm is None: return
        b = self.context.encode()[:400]; n = "\n".join(self.notes).encode(errors="replace")[-3000:]
        o = 64 + 4 * MAXD
        struct.pack_into("=HH", self.shm, 56, len(b), len(n)); self.shm[o:o + len(b)] = b; self.shm[o + 512:o + 512 + len(n)] = n
    def step(self, n=1): self.nsteps += n
    def state(self, x): self.states.add(hash_(x))
    def nontrivial(self): self.nt = True
    def fail(self, key, msg): raise Failure(key, msg)
    def check(self, cond, key, msg=""):
        if not cond: raise Failure(key, msg() if callable(msg) else str(msg))
    def prune(self): raise Prune()
    def begin(self):
        self.pos = 0; self.notes = []; self.context = ""; self.nt = False
        if self.shm is not None: struct.pack_into("=IIHH", self.shm, 48, 0, 0, 0, 0)
    def advance(self):
        while self.seq:
            if self.seq[-1] + 1 < self.ar[-1]:
                self.seq[-1] += 1
                if len(self.seq) - 1 < self.split: self.unit += 1
                return True
            self.seq.pop(); self.ar.pop()
        return False
def hash_(x): return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")

def once(v, body):
    v.begin()
    try: body(v); return 0, None
    except Prune: return 1, None
    except Skip: return 2, None
    except Failure as f: return 3, dict(key=f.key, msg=f.msg, note="\n".join(v.notes), seq=v.seq[:v.pos], count=1)
    except (KeyboardInterrupt, SystemExit): raise
    except BaseException as e:
        tb = traceback.format_exc()
        # the harness catches what the code under test may legitimately raise, so anything else is a violation
        return 3, dict(key="exception:%s@%s" % (type(e).__name__, v.context), msg=tb[-1500:], note="\n".join(v.notes), seq=v.seq[:v.pos], count=1)

def main(body, split=2, rule="", workers=8, hang=120, init=None):
    ap = argparse.ArgumentParser(); ap.add_argument("--out"); ap.add_argument("--tier", default="quick"); ap.add_argument("--budget", type=float, default=780)
    ap.add_argument("--replay"); ap.add_argument("--workers", type=int, default=workers); ap.add_argument("--mode", default="")
    a = ap.parse_args(); W = a.workers
    if a.replay:
        seq = [l for l in open(a.replay) if l.startswith("seq:")][0][4:].strip()
        v = Vc(a.tier, split); v.mode = a.mode; v.replaying = True; v.wid = 0; v.seq = [int(x) for x in seq.split(",") if x]; v.ar = [None] * len(v.seq)
        if init: init(v)
        r, f = once(v, body); print("\n".join(v.notes))
        if r == 3: print("FAIL %s: %s" % (f["key"], f["msg"])); sys.exit(1)
        print("no violation on replay"); sys.exit(0)
    t0 = time.time(); scratch = os.environ.get("VC_SCRATCH", "/tmp"); shms = []; sups = []
    for w in range(W): shms.append(mmap.mmap(-1, 64 + 4 * MAXD + 4096))
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(W):
        pid = os.fork()
        if pid: sups.append(pid); continue
        rc = 70
        try: rc = supervise(w, W, shms[w], body, split, a, scratch, t0, hang, init)
        except BaseException: traceback.print_exc()
        finally: sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
    exh, internal = True, False
    for p in sups:
        _, st = os.waitpid(p, 0)
        c = os.waitstatus_to_exitcode(st)
        if c == 3: exh = False
        elif c: internal = True
    out = dict(executions=0, steps=0, nontrivial=0, states=0, exhaustive=exh and not internal, internal_error=internal, rule=rule, wall=time.time() - t0, samples=[], violations=[])
    S = set()
    for w in range(W):
        f = os.path.join(scratch, "res.%d" % w)
        if not os.path.exists(f): continue
        for l in open(f):
            r = json.loads(l)
            if "v" in r: out["violations"].append(r["v"]); continue
            for k in ("executions", "steps", "nontrivial"): out[k] += r[k]
            S.update(r["states"])
            if w < 3: out["samples"] += r["samples"]
    if internal:
        for w in range(W):
            f = os.path.join(scratch, "err.%d" % w)
            if os.path.exists(f): out["internal_msg"] = open(f, errors="replace").read()[-1500:]
    out["states"] = len(S); out["samples"] = out["samples"][:6]
    json.dump(out, open(a.out, "w") if a.out else sys.stdout)
    sys.exit(2 if internal else 0)

def supervise(w, W, shm, body, split, a, scratch, t0, hang, init):
    res = os.path.join(scratch, "res.%d" % w); seq, ar, unit = [], [], 0; nviol = 0; seen = {}
    open(res, "w").close()
    while True:
        struct.pack_into("=Q", shm, 24, 0); struct.pack_into("=Q", shm, 40, 0)
        pid = os.fork()
        if pid == 0:
            rc = 76
            try: rc = work(w, W, shm, body, split, a, scratch, t0, seq, ar, unit, seen, init)
            except BaseException: traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
        last, lt, hung = -1, time.time(), False
        while True:
            q, st = os.waitpid(pid, os.WNOHANG)
            if q: break
            pr = struct.unpack_from("=Q", shm, 24)[0]
            if pr != last: last, lt = pr, time.time()
            elif time.time() - lt > hang: hung = True; os.kill(pid, signal.SIGKILL); _, st = os.waitpid(pid, 0); break
            time.sleep(0.02)
        c = os.waitstatus_to_exitcode(st)
        if c == 0: return 0
        if c == 3: return 3
        if c in (76, 77): return 70
        # died: attribute to the current sequence
        depth = struct.unpack_from("=I", shm, 48)[0]; unit = struct.unpack_from("=Q", shm, 32)[0]
        sq = [struct.unpack_from("=HH", shm, 64 + 4 * i) for i in range(depth)]
        nb, nn = struct.unpack_from("=HH", shm, 56); o = 64 + 4 * MAXD
        ctx = bytes(shm[o:o + nb]).decode(errors="replace"); note = bytes(shm[o + 512:o + 512 + nn]).decode(errors="replace")
        err = open(os.path.join(scratch, "err.%d" % w), errors="replace").read()[-2500:]
        kind = "hang" if hung else "crash:%s" % (signal.Signals(-c).name if c < 0 else "exit%d" % c)
        import re
        m = re.search(r"SUMMARY: \w+: (\S+).*? in (\S+)", err)
        if m: kind = "sanitizer:%s:%s" % (m.group(1), m.group(2))
        if unit % W == w:
            key = kind + "@" + ctx; seen[key] = seen.get(key, 0) + 1; nviol += 1
            with open(res, "a") as f:
                if seen[key] <= 3: f.write(json.dumps(dict(v=dict(key=key, msg="process died: %s\n%s" % (kind, err), note=note, seq=[x for x, _ in sq], count=1))) + "\n")
                f.write(json.dumps(dict(executions=1, steps=0, nontrivial=1, states=[], samples=[])) + "\n")
        v = Vc(a.tier, split); v.seq = [x for x, _ in sq]; v.ar = [n for _, n in sq]; v.unit = unit
        if not v.advance(): return 0
        seq, ar, unit = v.seq, v.ar, v.unit
        if nviol > MAXDIED or time.time() - t0 > a.budget: return 3

def work(w, W, shm, body, split, a, scratch, t0, seq, ar, unit, seen, init):
    fd = os.open(os.path.join(scratch, "err.%d" % w), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600); os.dup2(fd, 1); os.dup2(fd, 2)
    v = Vc(a.tier, split); v.mode = a.mode; v.seq, v.ar, v.unit, v.shm = list(seq), list(ar), unit, shm
    v.wid = w; v.home = os.path.join(scratch, "w%d" % w); os.makedirs(v.home, exist_ok=True)
    if init: init(v)
    ex = nt = 0; samples = []; nxt = 1; nviol = 0; rc = 0; cur = dict()
    f = open(os.path.join(scratch, "res.%d" % w), "a")
    def flush():
        f.write(json.dumps(dict(executions=ex - cur.get("e", 0), steps=v.nsteps - cur.get("s", 0), nontrivial=nt - cur.get("n", 0), states=list(v.states), samples=samples[:])) + "\n"); f.flush()
        cur.update(e=ex, s=v.nsteps, n=nt); samples.clear(); v.states = set()
    lastflush = time.time()
    while True:
        v.owned = v.unit % W == w
        struct.pack_into("=Q", shm, 32, v.unit)
        r, fl = once(v, body)
        del v.seq[v.pos:], v.ar[v.pos:]
        if v.owned and r != 1 and r != 2:
            ex += 1
            if v.nt: nt += 1
            if ex >= nxt and len(samples) < 4 and cur.get("ns", 0) < 4: samples.append("\n".join(v.notes)[:1200]); nxt = ex * 17 + 3; cur["ns"] = cur.get("ns", 0) + 1
            if r == 3:
                seen[fl["key"]] = seen.get(fl["key"], 0) + 1; nviol += 1
                if seen[fl["key"]] <= 3: f.write(json.dumps(dict(v=fl)) + "\n"); f.flush()
                if len(seen) > MAXKEYS or nviol > MAXVIOL: rc = 3; break
        if time.time() - lastflush > 1: flush(); lastflush = time.time()
        if not v.advance(): break
        if time.time() - t0 > a.budget: rc = 3; break
    flush(); f.close()
    return rc
