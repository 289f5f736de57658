"""The checks: what is built from /repo, which explorer runs, within which bounds."""
import os, json, subprocess, time, sys, shutil
import vbuild
from vbuild import VERIF, REPO, ASAN, LLVM_LD, LLVMDEF, BUILD
RT = "src/Runtime/"
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0", "UBSAN_OPTIONS": "print_stacktrace=0"}

def merge(rs):
    out = {"executions": 0, "steps": 0, "states": 0, "nontrivial": 0, "exhaustive": True, "samples": [], "violations": [], "rule": "", "internal_error": False, "extra": {}}
    rules = []
    for r in rs:
        for k in ("executions", "steps", "states", "nontrivial"): out[k] += r[k]
        out["exhaustive"] = out["exhaustive"] and r["exhaustive"]
        out["samples"] += r["samples"][:3]; out["violations"] += r["violations"]
        if r.get("rule"): rules.append(r["rule"])
        if r.get("internal_error"): out["internal_error"] = True; out["internal_msg"] = r.get("internal_msg", "")
        out["extra"].update(r.get("extra", {}))
    out["rule"] = " | ".join(rules)
    return out

class Part:
    """One explorer binary (C/C++ harness compiled with /repo's sources)."""
    def __init__(self, name, sources, env=None, args=(), exe=None, pre=None, **bk):
        self.name, self.sources, self.bk, self.args = name, sources, bk, args; self.env = env or {}; self.exe = exe or name; self.pre = pre
    def build(self):
        if self.pre: self.pre()
        return vbuild.build(self.exe, self.sources, **self.bk)
    def run(self, tier, scratch, seed, budget):
        exe = self.build(); d = os.path.join(scratch, self.name); os.makedirs(d)
        os.chmod(d, 0o755)
        out = os.path.join(d, "out.json")
        e = dict(os.environ, **ASAN_ENV, **self.env, VC_SCRATCH=d, VERIF_SEED=str(seed), VERIF_REPO=REPO, VERIF_HOME=VERIF)
        p = subprocess.run([exe, "--out", out, "--tier", tier, "--scratch", d, "--budget", str(budget), *self.args], env=e, cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(out): return dict(executions=0, steps=0, states=0, nontrivial=0, exhaustive=False, samples=[], violations=[], internal_error=True, internal_msg=self.name + ": " + p.stdout.decode(errors="replace")[-3000:])
        r = json.load(open(out, encoding="latin-1"))
        if r["internal_error"]:
            r["internal_msg"] = self.name + p.stdout.decode(errors="replace")[-2000:]
            for f in os.listdir(d):
                if f.startswith("err."): r["internal_msg"] += open(os.path.join(d, f), errors="replace").read()[:500]
        for v in r["violations"]: v["part"] = self.name
        r["extra"] = {"executions_" + self.name: r["executions"]}
        return r
    def replay(self, f):
        import tempfile
        exe = self.build(); d = tempfile.mkdtemp(prefix="vc_replay_")
        e = dict(os.environ, **ASAN_ENV, **self.env, VC_SCRATCH=d, VERIF_REPO=REPO, VERIF_HOME=VERIF)
        try: return subprocess.run([exe, "--replay", f, *self.args], env=e, cwd=d).returncode
        finally: shutil.rmtree(d, ignore_errors=True)

class PyPart:
    """One Python explorer module (harness/<mod>.py), run in a process of its own."""
    def __init__(self, name, script, python="/usr/bin/python3", env=None, prebuild=None):
        self.name, self.script, self.python, self.env, self.prebuild = name, script, python, env or {}, prebuild
    def build(self):
        if self.prebuild: self.prebuild()
    def _env(self, d):
        return dict(os.environ, **self.env, VC_SCRATCH=d, VERIF_REPO=REPO, VERIF_HOME=VERIF, PYTHONDONTWRITEBYTECODE="1",
                    PYTHONPATH=os.path.join(VERIF, "lib"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    def run(self, tier, scratch, seed, budget):
        t0 = time.time(); self.build(); budget = max(20, budget - (time.time() - t0)); d = os.path.join(scratch, self.name); os.makedirs(d); out = os.path.join(d, "out.json")
        p = subprocess.run([self.python, os.path.join(VERIF, self.script), "--out", out, "--tier", getattr(self, "tier", None) or tier, "--budget", str(budget)], env=self._env(d), cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(out): return dict(executions=0, steps=0, states=0, nontrivial=0, exhaustive=False, samples=[], violations=[], internal_error=True, internal_msg=self.name + ": " + p.stdout.decode(errors="replace")[-3000:])
        r = json.load(open(out))
        for v in r["violations"]: v["part"] = self.name
        r["extra"] = {"executions_" + self.name: r["executions"]}
        return r
    def replay(self, f):
        import tempfile
        self.build(); d = tempfile.mkdtemp(prefix="vc_replay_")
        try: return subprocess.run([self.python, os.path.join(VERIF, self.script), "--replay", f], env=self._env(d), cwd=d).returncode
        finally: shutil.rmtree(d, ignore_errors=True)

class Check:
    def __init__(self, parts, level="model_checking", assumptions=(), technique="", note=""):
        self.parts, self.level, self.assumptions, self.technique, self.note = parts, level, list(assumptions), technique, note
    def run(self, tier, scratch, seed):
        total = 780 if tier == "quick" else 4 * 3600; t0 = time.time(); rs = []
        for p in self.parts:
            rs.append(p.run(tier, scratch, seed, max(20, total - (time.time() - t0))))
        return merge(rs)
    def replay(self, f):
        part = [l[6:].strip() for l in open(f) if l.startswith("part: ")][0]
        return [p for p in self.parts if p.name == part][0].replay(f)

CHECKS = {}
def setup():
    os.makedirs(BUILD, exist_ok=True); rc = 0; done = set()
    for c in CHECKS.values():
        for p in c.parts:
            if p.name in done: continue
            done.add(p.name); t = time.time()
            try: p.build(); print("built", p.name, "%.1fs" % (time.time() - t), flush=True)
            except vbuild.BuildError as e: print("FAILED", p.name, e, flush=True); rc = 1
    return rc
import checks_def  # fills CHECKS
