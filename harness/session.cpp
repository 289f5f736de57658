// C13 (session histories) and C14 (faulty models) on the real ExecutionSession, with stand-in model libraries
#include "vc.hpp"
#include "src/Runtime/ExecutionSession.hpp"
#include <dirent.h>
extern char **environ;
using namespace onnx_mlir;
static std::vector<std::pair<std::string, std::string>> EV;
extern "C" __attribute__((visibility("default"))) void vc_event(const char *w, const char *d) { EV.push_back({w, d}); }
static int openBalance;
extern "C" { void *__real_dlopen(const char *, int); int __real_dlclose(void *);
void *__wrap_dlopen(const char *p, int f) { void *h = __real_dlopen(p, f); if (h) openBalance++; return h; }
int __wrap_dlclose(void *h) { openBalance--; return __real_dlclose(h); } }
static std::string MD; // model directory
struct Model { const char *file, *load, *tag; bool ok, main, info, print, alias; }; // alias: both entry points are the same function
static const Model M[] = {
  {"good.so", "", "_good", true, true, true, true}, {"Upper.v2.so", "", "_upper.v2", false, true, true, true}, {"notag.so", "NONE", "", true, true, true, true}, {"noinfo.so", "", "_noinfo", true, true, false, true}, {"noprint.so", "", "_noprint", true, true, true, false},
  {"nomain.so", "", "_nomain", true, false, true, true}, {"noquery.so", "", "_noquery", false, true, true, true}, {"noinsig.so", "", "_noinsig", false, true, true, true}, {"nooutsig.so", "", "_nooutsig", false, true, true, true}, {"text.so", "", "_text", false, false, false, false}, {"absent.so", "", "_absent", false, false, false, false},
  {"good.so", "wrong", "_wrong", false, true, true, true}, {"MiXed.so", "", "_mixed", true, true, true, true}, {"good.so", "good", "_good", true, true, true, true}, {"alias.so", "", "_alias", true, true, true, true, true}};
static const int NM = sizeof(M) / sizeof(M[0]);
struct Ses { ExecutionSession *s = nullptr; int m = -1; int entry = -1; bool unsure = false; bool failedLoad = false; };
static std::string env0() { std::string r; for (char **e = environ; *e; e++) r += std::string(*e) + "\n"; return r; }
template <class F> static bool threw(F f, std::string *msg = nullptr) { try { f(); return false; } catch (const ExecutionSessionException &e) { VC_CHECK(strlen(e.what()) > 0, "empty-error", "an exception without a message"); if (msg) *msg = e.what(); return true; } }
static OMTensorList *mkin(int64_t cmd, int n) { OMTensor *t[2]; int64_t sh[1] = {2}; for (int i = 0; i < n; i++) { t[i] = omTensorCreateEmpty(sh, 1, ONNX_TYPE_INT64); int64_t *d = (int64_t *)omTensorGetDataPtr(t[i]); d[0] = cmd; d[1] = 5; } return omTensorListCreate(t, n); }
static std::string path(int m) { return MD + "/" + M[m].file; }
struct World {
  Ses s[2]; std::string e0;
  World() { MD = getenv("VC_MODELS"); unsetenv("OM_CONSTANT_PATH"); openBalance = 0; EV.clear(); e0 = env0(); }
  ~World() { for (auto &x : s) if (x.s) { x.s->~ExecutionSession(); free((void *)x.s); x.s = nullptr; } }
  bool live(const Ses &x) { return x.s && x.m >= 0; }
  void settle(const char *what) { int n = 0; for (auto &x : s) n += live(x); VC_CHECK(openBalance == n, "handle-balance", "after %s %d libraries are open for %d loaded sessions", what, openBalance, n); VC_CHECK(env0() == e0, "environment", "after %s the environment differs:\n%s", what, env0().c_str()); }
};
static void expectLoad(World &w, Ses &x, int m, bool def, bool t) {
  bool ok = M[m].ok && (!def || M[m].main); VC_CHECK(t == !ok, ok ? "load-failed" : "load-accepted", "loading %s%s %s", M[m].file, def ? " with its default entry point" : "", t ? "failed" : "succeeded");
  if (ok) { x.m = m; x.entry = def ? 0 : -1; x.unsure = false; } else x.failedLoad = true;
  for (auto &e : EV) if (e.first == "constants") VC_CHECK(e.second == MD, "constants-path", "the model is loaded with OM_CONSTANT_PATH=%s, expected %s", e.second.c_str(), MD.c_str());
}
static void construct(World &w, int i, const std::vector<int> &ms) {
  Ses &x = w.s[i]; int c = vc::choose(ms.size() * 2 + 1); vc::step(); EV.clear();
  if (c == (int)ms.size() * 2) { vc::note("session %d: default constructed", i); void *mem = malloc(sizeof(ExecutionSession)); memset(mem, 0xAB, sizeof(ExecutionSession)); x = Ses(); x.s = new (mem) ExecutionSession(); return; }
  int m = ms[c / 2]; bool def = !(c % 2); vc::note("session %d: construct from %s tag '%s'%s", i, M[m].file, M[m].load, def ? "" : " without entry point"); x = Ses(); ExecutionSession *s = nullptr; void *mem = malloc(sizeof(ExecutionSession)); memset(mem, 0xAB, sizeof(ExecutionSession));
  bool t = threw([&] { s = new (mem) ExecutionSession(path(m), M[m].load, def); }); if (t) free(mem); x.s = s; expectLoad(w, x, m, def, t); if (t) x = Ses(); else VC_CHECK(s->getSharedLibPath() == path(m), "path", "wrong path of the loaded library");
}
static void destroy(World &w, Ses &x) { x.s->~ExecutionSession(); free(x.s); x = Ses(); }
static std::string tagged(const Ses &x, const char *p) { return std::string(p) + M[x.m].tag; }
// what an execution of the current entry point must give
static void checkRun(World &w, Ses &x, int64_t cmd, int how) {
  EV.clear(); vc::step(); vc::nontrivial(); std::string msg; bool noEntry = !w.live(x) || x.entry < 0; bool t; std::vector<int64_t> got; int nIn = 1;
  if (how == 0) { std::vector<OMTensorUniquePtr> in, out; OMTensorList *l = mkin(cmd, nIn); for (int k = 0; k < nIn; k++) in.emplace_back(omTensorListGetOmtByIndex(l, k), omTensorDestroy); omTensorListDestroyShallow(l);
    t = threw([&] { out = x.s->run(std::move(in)); }, &msg); for (auto &o : out) for (int k = 0; k < 2; k++) got.push_back(((int64_t *)omTensorGetDataPtr(o.get()))[k]); }
  else { OMTensorList *l = mkin(cmd, nIn), *o = nullptr; t = threw([&] { o = how == 1 ? x.s->run(l) : x.s->runDebug(l, how == 3); }, &msg); VC_CHECK(((int64_t *)omTensorGetDataPtr(omTensorListGetOmtByIndex(l, 0)))[1] == 5, "inputs", "inputs changed"); omTensorListDestroy(l);
    if (o) { for (int i = 0; i < omTensorListGetSize(o); i++) for (int k = 0; k < 2; k++) got.push_back(((int64_t *)omTensorGetDataPtr(omTensorListGetOmtByIndex(o, i)))[k]); omTensorListDestroy(o); } }
  int runs = 0, prints = 0; std::string which; for (auto &e : EV) { if (e.first == "run") { runs++; which = e.second; } if (e.first == "print") prints++; }
  if (noEntry) { VC_CHECK(t && !runs, "run-without-entry", "run without a model or entry point: %s", t ? "executed something" : "no error"); return; }
  if (x.unsure && t && !runs) return;
  VC_CHECK(runs == 1 && which == tagged(x, x.entry && !M[x.m].alias ? "second" : "main"), "wrong-entry", "ran '%s' (%d times), expected the selected entry point", which.c_str(), runs);
  if (cmd == 0) { int64_t o = M[x.m].alias ? 0 : 100 * x.entry; std::vector<int64_t> want = {o, 1, o + 1, 1}; VC_CHECK(!t && got == want, "outputs", "run %s", t ? ("failed: " + msg).c_str() : "gave other outputs"); VC_CHECK(prints == (M[x.m].print ? 1 : 0), "instrumentation", "instrumentation printed %d times", prints); VC_CHECK(errno == 0, "errno", "errno %d after a successful run", errno); }
  else { VC_CHECK(t, "failure-ignored", "the model failed (%ld) but run reported success", (long)cmd); if (cmd == 1) VC_CHECK(msg.find(strerror(EPERM)) != std::string::npos, "error-text", "the error message '%s' does not tell the reason", msg.c_str());
    int sg[] = {SIGSEGV, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGFPE}; if (cmd >= 10) VC_CHECK(msg.find(strsignal(sg[cmd - 10])) != std::string::npos, "error-text", "the error message '%s' does not name the signal", msg.c_str()); }
}
static void hist() {
  bool two = vc::flip(); static const std::vector<int> PAIR = {0, 10}, ALL = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, FEW = {0, 5, 10}; auto &ms = two ? (vc::thorough() ? FEW : PAIR) : ALL; int depth = vc::thorough() ? 5 : two ? 3 : 4; World w; uint64_t h = two; int prev = -1;
  construct(w, 0, ms); w.settle("construction");
  for (int d = 1; d < depth; d++) {
    int i = two ? vc::choose(2) : 0; Ses &x = w.s[i]; if (!x.s) { vc::ctx("construct"); construct(w, i, ms); w.settle("construction"); h = h * 37 + 1; continue; }
    int op = vc::choose(17); vc::step(); EV.clear(); bool ini = w.live(x); std::string r;
    if (!vc::thorough()) { // queries commute: one order of adjacent ones is enough
      auto getter = [](int o) { return o == 1 || (o >= 5 && o <= 7) || o == 14; }; if (getter(op) && getter(prev) && op <= prev) vc::prune(); prev = op; if (op == 0 && ini && d > 1) vc::prune(); if (op == 15 && d + 1 < depth && d > 1) vc::prune(); }
    switch (op) {
    case 0: { vc::ctx("load"); int c = vc::choose(vc::thorough() ? FEW.size() * 2 : 3); int m = FEW[vc::thorough() ? c / 2 : c]; if (!vc::thorough()) c = c == 1 && d > 1 ? 1 : 0; bool def = !(c % 2); vc::note("session %d: load %s%s", i, M[m].file, def ? "" : " without entry point"); bool t = threw([&] { x.s->loadModel(path(m), M[m].load, def); });
      if (ini) VC_CHECK(t, "loaded-twice", "a second model was loaded into a session"); else { expectLoad(w, x, m, def, t); if (!t) VC_CHECK(x.s->getSharedLibPath() == path(m), "path", "library path is '%s'", x.s->getSharedLibPath().c_str()); } break; }
    case 1: { vc::ctx("query"); vc::note("session %d: query entry points", i); int64_t n = -1; const char **p = nullptr; bool t = threw([&] { p = (const char **)(void *)x.s->queryEntryPoints(&n); }); VC_CHECK(t == !ini, "query", "query %s", t ? "failed" : "worked without a model"); if (!t) VC_CHECK(n == 2 && p[0] == tagged(x, "run_main_graph") && p[1] == tagged(x, "run_second") && !p[2], "query", "wrong entry points"); break; }
    case 2: case 3: case 4: { vc::ctx("setEntryPoint"); std::string nm = (op == 2 ? "run_main_graph" : op == 3 ? "run_second" : "run_nothing"); if (ini) nm += M[x.m].tag; vc::note("session %d: set entry point %s", i, nm.c_str()); bool ok = ini && (op == 3 || (op == 2 && M[x.m].main)); bool t = threw([&] { x.s->setEntryPoint(nm); }); VC_CHECK(t == !ok, "set-entry", "setting entry point %s %s", nm.c_str(), t ? "failed" : "succeeded");
      if (ok) { x.entry = op - 2; x.unsure = false; } else if (ini) x.unsure = true; break; }
    case 5: case 6: { vc::ctx("signature"); vc::note("session %d: %s signature", i, op == 5 ? "input" : "output"); bool t = threw([&] { r = op == 5 ? x.s->inputSignature() : x.s->outputSignature(); }); bool ok = ini && x.entry >= 0; if (t && x.unsure) break; VC_CHECK(t == !ok, "signature", "signature query %s", t ? "failed" : "worked without an entry point");
      if (ok) VC_CHECK(op == 5 ? r.find(x.entry ? "\"second\"" : (std::string(M[x.m].tag) + "in").c_str()) != std::string::npos : r == tagged(x, x.entry ? "out second" : "out main"), "signature", "wrong signature '%s'", r.c_str()); break; }
    case 7: { vc::ctx("info"); vc::note("session %d: compilation info", i); bool t = threw([&] { r = x.s->compilationInfo(); }); VC_CHECK(t == !ini, "info", "compilation info %s", t ? "failed" : "without a model"); if (ini) VC_CHECK(r == (M[x.m].info ? "{info" + std::string(M[x.m].tag) + "}" : "{}"), "info", "compilation info '%s'", r.c_str()); break; }
    case 8: { vc::ctx("print"); vc::note("session %d: print instrumentation", i); bool t = threw([&] { x.s->printInstrumentation(); }); VC_CHECK(t == !ini, "print", "print"); VC_CHECK((int)EV.size() == (ini && M[x.m].print), "print", "%zu reports printed", EV.size()); break; }
    case 9: case 10: case 11: case 12: case 13: { vc::ctx("run"); int how = op < 13 ? op - 9 : 0; int64_t cmd = op == 13 ? 1 : 0; vc::note("session %d: run (%d)%s", i, how, cmd ? " failing" : ""); checkRun(w, x, cmd, how); break; }
    case 14: { vc::ctx("fill"); vc::note("session %d: fill inputs", i); OMTensorList *l = nullptr; bool t = threw([&] { l = x.s->fillInputDebug(nullptr, nullptr, nullptr, nullptr, 1); }); bool ok = ini && x.entry >= 0; if (t && x.unsure) break; VC_CHECK(t == !ok, "fill", "fillInputDebug %s", t ? "failed" : "worked without an entry point"); if (l) { VC_CHECK(omTensorListGetSize(l) == 1 && omTensorGetShape(omTensorListGetOmtByIndex(l, 0))[0] == 2 + x.entry, "fill", "inputs do not fit the entry point"); omTensorListDestroy(l); } break; }
    case 15: vc::ctx("runDebug"); vc::note("session %d: run crashing model", i); checkRun(w, x, 11, 3); break;
    case 16: vc::ctx("destroy"); vc::note("session %d: destroy", i); destroy(w, x); break;
    }
    w.settle("the call"); h = h * 37 + op; vc::state(vc::hash(&x.m, 8, h));
  }
  for (auto &x : w.s) if (x.s) destroy(w, x); w.settle("destroying everything");
}
// ---- C14
static const int SIG[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
static void h1(int) { _exit(88); } static void h2(int, siginfo_t *, void *) { _exit(89); }
static std::string sigs() { std::string r; for (int s : SIG) { struct sigaction a; memset(&a, 0, sizeof a); sigaction(s, nullptr, &a); r += std::to_string(s) + ":" + std::to_string((uintptr_t)a.sa_handler) + "/" + std::to_string(a.sa_flags & ~0x04000000) + "/"; for (int k = 1; k < 32; k++) r += sigismember(&a.sa_mask, k) ? '1' : '0'; r += ' '; } sigset_t m; sigprocmask(SIG_SETMASK, nullptr, &m); for (int k = 1; k < 65; k++) r += sigismember(&m, k) == 1 ? '1' : '0'; return r; }
static void faulty() {
  int setup = vc::choose(4), depth = vc::thorough() ? 4 : 3; World w; if (setup == 3) { setenv("OM_CONSTANT_PATH", "/elsewhere", 1); w.e0 = env0(); }
  for (int i = 0; i < 5; i++) { struct sigaction a; memset(&a, 0, sizeof a); sigemptyset(&a.sa_mask); // distinct previous handlers
    if (setup == 0) { a.sa_handler = SIG_DFL; } else if (setup == 1) { a.sa_sigaction = h2; a.sa_flags = SA_SIGINFO | (i % 2 ? SA_RESTART : 0); sigaddset(&a.sa_mask, SIGUSR1 + i); } else { a.sa_handler = i == 0 ? h1 : i == 1 ? SIG_DFL : i == 2 ? SIG_IGN : i == 3 ? h1 : SIG_DFL; a.sa_flags = i == 3 ? SA_NODEFER : 0; }
    sigaction(SIG[i], &a, nullptr); }
  sigset_t m, old; sigemptyset(&m); if (setup == 2) sigaddset(&m, SIGUSR2); sigprocmask(SIG_SETMASK, &m, &old); std::string before = sigs(); uint64_t h = setup; vc::note("previous handlers %d", setup);
  struct R { sigset_t o; World *w; ~R() { sigprocmask(SIG_SETMASK, &o, nullptr); for (int s : SIG) signal(s, SIG_DFL); for (auto &x : w->s) if (x.s) { x.s->~ExecutionSession(); free(x.s); x.s = nullptr; } } } rest{old, &w};
  for (int i = 0; i < 2; i++) { Ses &x = w.s[i]; void *mem = malloc(sizeof(ExecutionSession)); if (i == 1 && setup == 0) vc::note("second session"); x.s = new (mem) ExecutionSession(path(i ? 2 : 0), M[i ? 2 : 0].load, true); x.m = i ? 2 : 0; x.entry = 0; }
  for (int d = 0; d < depth; d++) {
    int c = vc::choose(21); vc::step();
    if (c < 18) { int i = c / 9; static const int CMD[] = {10, 11, 12, 13, 14, 15, 16, 1, 0}; int cmd = CMD[c % 9]; vc::ctx("crash%d", cmd); vc::note("session %d: model %s %d", i, cmd >= 10 ? "crashes with" : "returns", cmd); bool sh = cmd >= 10 || !vc::flip(); checkRun(w, w.s[i], cmd, sh ? 3 : 2); }
    else { int mm = (int[]){10, 6, 5}[c - 18]; vc::ctx("load"); vc::note("load faulty %s", M[mm].file); bool t = threw([&] { ExecutionSession s(path(mm), M[mm].load); }); vc::nontrivial(); VC_CHECK(t, "load-accepted", "loading %s succeeded", M[mm].file); }
    std::string now = sigs(); VC_CHECK(now == before, "signals", "signal handlers or mask differ afterwards:\n before %s\n after  %s", before.c_str(), now.c_str());
    VC_CHECK(env0() == w.e0, "environment", "the environment differs afterwards"); w.settle("the call"); h = h * 31 + c; vc::state(h);
  }
}
int main(int argc, char **argv) {
  vc::Options o; o.splitDepth = 3; std::string m; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--mode")) m = argv[i + 1];
  if (m == "hist") { o.rule = "an execution is non-trivial if a model run was attempted"; return vc::main(argc, argv, o, hist); }
  o.rule = "an execution is non-trivial if a model was run or a faulty one loaded"; return vc::main(argc, argv, o, faulty);
}
