// C12: every sequence of instrumentation calls to a depth, under every configuration, against a model of the report
#include "vc.hpp"
#include <dirent.h>
#include <sys/time.h>
extern "C" {
void OMInstrumentPointInit(int64_t, const char *); void OMInstrumentPoint(const char *, int64_t, const char *); void omInstrumentPrint(); extern const char *OMCurrentOpName, *OMCurrentNodeName; extern int64_t OMCurrentTag;
static int64_t T_now; static int P_mode; // 0 ps works, 1 ps cannot be started, 2 ps prints too much
int __wrap_gettimeofday(struct timeval *t, void *) { t->tv_sec = T_now / 1000000; t->tv_usec = T_now % 1000000; return 0; }
FILE *__wrap_popen(const char *c, const char *) { if (P_mode == 1) return nullptr; static char ok[] = " 4711\n", bad[] = "1\n2\n3\n"; return P_mode == 2 ? fmemopen(bad, 6, "r") : fmemopen(ok, 6, "r"); }
int __wrap_pclose(FILE *f) { return fclose(f); }
}
static std::string D, F_out, F_std; static int out_fd = -1;
static void init() { if (!D.empty()) return; D = std::string(getenv("VC_SCRATCH") ? getenv("VC_SCRATCH") : "/tmp") + "/w" + std::to_string(getpid()); mkdir(D.c_str(), 0700); F_out = D + "/report"; F_std = D + "/stdout"; fflush(stdout); out_fd = open(F_std.c_str(), O_CREAT | O_RDWR | O_APPEND, 0600); dup2(out_fd, 1); }
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static std::vector<std::string> lines(const std::string &f) { std::vector<std::string> r; FILE *i = fopen(f.c_str(), "r"); if (!i) return r; char b[4096]; while (fgets(b, sizeof b, i)) { std::string s = b; if (!s.empty() && s.back() == '\n') s.pop_back(); else s += "<no newline>"; r.push_back(s); } fclose(i); return r; }
struct Op { const char *op; int ol; const char *node; int nl; };
static char LONGOP[100], LONGNODE[600];
static Op OPS[] = {{"onnx.AddXYZ", 8, "node1garbage", 5}, {nullptr, 8, "n2", 2}, {LONGOP, 63, LONGNODE, 511}, {"onnx.Mul", 8, "", 0}};
static uint64_t tagOf(const Op &o, bool before, bool time, bool mem, bool ini) { return (before ? 1 : 2) | (time ? 4 : 0) | (mem ? 8 : 0) | (ini ? 16 : 0) | ((uint64_t)o.ol << 8) | ((uint64_t)o.nl << 24); }
// the model of what has to be reported
struct Cfg { bool off, notime, nomem; int dest; }; // dest: 0 file, 1 stdout, 2 file that cannot be opened
struct Model {
  Cfg env{}, cur{}; bool latched = false, started = false; const char *info = nullptr; int64_t t0 = 0; int errs = 0;
  std::vector<std::string> pending; std::vector<std::string> seq[2]; // expected lines per destination (file, stdout)
  std::vector<std::string> perf[2], mem[2]; std::vector<std::string> head[2]; int64_t last = 0; size_t recs = 0; bool anyInRun = false;
  static std::string sec(int64_t d) { char b[64]; snprintf(b, 64, "%ld.%06ld", (long)(d / 1000000), (long)(d % 1000000)); return b; }
  int dst() const { return cur.dest == 0 ? 0 : 1; }
  void start(const char *i) { info = i; if (!latched) { latched = true; cur = env; if (cur.off) cur.notime = cur.nomem = true; } pending.clear(); anyInRun = false; if (!cur.off) t0 = last = T_now; }
  void headLine() { if (anyInRun) return; anyInRun = true; head[dst()].push_back("==START-REPORT=="); if (info) head[dst()].push_back(std::string("==COMPILE-INFO-REPORT==, ") + info); }
  void point(const Op &o, bool before, bool time, bool mm) {
    std::string nm = std::string(o.op, o.ol) + ", " + std::string(o.node, o.nl) + ", " + (before ? "before" : "after");
    if (time && !cur.notime) { pending.push_back("==PERF-REPORT==, " + nm + ", " + sec(T_now - last) + ", " + sec(T_now - t0)); last = T_now; }
    if (mm && !cur.nomem && errs < 20) { headLine(); std::string v = P_mode == 0 ? ",  4711" : P_mode == 1 ? ", error-failed-to-execute-ps" : ", error-unexpected-output-from-pipe"; if (P_mode) errs++; mem[dst()].push_back("==MEM-REPORT==, " + nm + v); }
  }
  void flush() { if (pending.empty()) return; headLine(); for (auto &s : pending) perf[dst()].push_back(s); pending.clear(); }
  void print() { flush(); latched = false; info = nullptr; anyInRun = false; errs = 0; cur = Cfg{}; }
};
static void compare(const std::vector<std::string> &got, Model &m, int d) {
  std::vector<std::string> p, mm, h; bool inRun = false; 
  for (auto &l : got) { if (l.rfind("==PERF-REPORT==", 0) == 0) { VC_CHECK(inRun, "header", "a report line comes before the start line"); p.push_back(l); } else if (l.rfind("==MEM-REPORT==", 0) == 0) { VC_CHECK(inRun, "header", "a report line comes before the start line"); mm.push_back(l); } else { h.push_back(l); inRun = true; } }
  auto cmp = [&](const char *key, const std::vector<std::string> &g, const std::vector<std::string> &w) {
    for (size_t i = 0; i < std::max(g.size(), w.size()); i++) { const char *a = i < g.size() ? g[i].c_str() : "(nothing)", *b = i < w.size() ? w[i].c_str() : "(nothing)"; VC_CHECK(!strcmp(a, b), key, "%s line %zu of %zu (%zu expected) is '%.200s', expected '%.200s'", d ? "standard output" : "report file", i, g.size(), w.size(), a, b); } };
  cmp("time-records", p, m.perf[d]); cmp("memory-records", mm, m.mem[d]); cmp("headers", h, m.head[d]);
}
static void setenvs(const Cfg &c) {
  auto s = [](const char *n, bool on) { if (on) setenv(n, "1", 1); else unsetenv(n); }; s("ONNX_MLIR_NO_INSTRUMENT", c.off); s("ONNX_MLIR_NO_INSTRUMENT_TIME", c.notime); s("ONNX_MLIR_NO_INSTRUMENT_MEMORY", c.nomem);
  if (c.dest == 0) setenv("ONNX_MLIR_INSTRUMENT_FILE", F_out.c_str(), 1); else if (c.dest == 1) unsetenv("ONNX_MLIR_INSTRUMENT_FILE"); else setenv("ONNX_MLIR_INSTRUMENT_FILE", (D + "/no/such/dir/f").c_str(), 1);
}
static const std::vector<Cfg> CFG = {{false, false, false, 0}, {false, false, false, 1}, {false, false, false, 2}, {true, false, false, 0}, {false, true, false, 0}, {false, false, true, 0}, {false, true, true, 0}, {true, false, false, 1}};
static int64_t DT[] = {3, 999998, 1, 1000000, 7};
struct Sys { Model m; int fd0; bool fileBefore = false;
  Sys() { init(); OPS[1].op = OPS[0].op; memset(LONGOP, 'o', 99); memset(LONGNODE, 'n', 599); fflush(stdout); unlink(F_out.c_str()); if (ftruncate(out_fd, 0)) abort(); T_now = 1700000000999990ll; P_mode = 0; omInstrumentPrint(); fd0 = fds(); }
  ~Sys() { omInstrumentPrint(); }
  void tick(int i) { T_now += DT[i % 5]; }
  void env(const Cfg &c) { setenvs(c); m.env = c; }
  void begin(const char *info) { vc::step(); OMInstrumentPointInit(16, info); m.start(info); }
  void point(int o, bool before, bool t, bool mm, bool ini) { vc::step(); Op &q = OPS[o]; uint64_t tag = tagOf(q, before, t, mm, ini); if (ini && !(m.latched && m.cur.off)) m.start(nullptr); bool skip = m.latched && m.cur.off; OMInstrumentPoint(q.op, tag, q.node); if (!skip) m.point(q, before, t, mm);
    VC_CHECK(OMCurrentOpName == q.op && OMCurrentNodeName == q.node && (uint64_t)OMCurrentTag == tag, "marker", "the current operation marker is not that of the last point"); }
  void print() { vc::step(); int d = m.dst(); omInstrumentPrint(); m.print(); check(d); }
  void check(int d) { fflush(stdout); (void)d; bool any = m.perf[0].size() + m.mem[0].size(); compare(lines(F_out), m, 0); compare(lines(F_std), m, 1); if (any) vc::nontrivial(); VC_CHECK(fds() == fd0, "descriptor", "%d descriptors open after the report was printed, %d before", fds(), fd0); }
};
static void seqs() {
  Sys s; int ci = vc::choose(CFG.size()); int kind = vc::choose(3); bool t = kind != 1, mm = kind != 0; int depth = vc::thorough() ? 6 : 4; if (ci == 6 && kind == 2) depth--;
  s.env(CFG[ci]); vc::note("config %d (off %d notime %d nomem %d dest %d), %s%s", ci, CFG[ci].off, CFG[ci].notime, CFG[ci].nomem, CFG[ci].dest, t ? "time " : "", mm ? "memory" : ""); bool running = false, changed = false; int prints = 0; uint64_t h = ci * 3 + kind;
  for (int d = 0; d < depth; d++) {
    int a = vc::choose(running ? 10 : 6); s.tick(d + a); // not running: only starts
    if (a == 0) { bool info = true; vc::note("run starts (compile info)"); s.begin(info ? "arch z16, O3" : nullptr); running = true; }
    else if (a <= 1) { vc::note("run starts (no info)"); s.begin(nullptr); running = true; }
    else if (a <= 5) { int o = (a - 2) / 2; bool b = a % 2 == 0; vc::note("%s op%d%s", b ? "before" : "after", o, running ? "" : " (init)"); s.point(o, b, t, mm, !running); running = true; }
    else if (a <= 7) { vc::note("before op%d with init", a - 6); s.point(a - 6, true, t, mm, true); }
    else if (a == 8) { vc::note("print"); vc::ctx("print"); s.print(); running = false; if (++prints == 1 && !vc::flip()) { Cfg c = CFG[ci == 0 ? 3 : 0]; s.env(c); changed = true; vc::note("configuration changes to off=%d", c.off); } }
    else { vc::note("before and after of op0"); s.point(0, true, t, mm, false); s.tick(d); s.point(0, false, t, mm, false); }
    h = h * 31 + a; vc::state(h);
  }
  vc::note("print"); s.print(); VC_CHECK(!(CFG[ci].off && !changed && s.m.perf[0].empty() && s.m.mem[0].empty() && access(F_out.c_str(), F_OK) == 0), "touched", "report file created although instrumentation is off");
}
// long runs: the record buffer overflows and is flushed on the way; failing memory queries
static void longruns() {
  Sys s; int shape = vc::choose(4); int n = vc::thorough() ? vc::pick({4095, 4096, 8190, 8191, 8192, 8193, 16384, 16385, 20000}) : vc::pick({4096, 8191, 8192, 8193}); Cfg c = CFG[vc::choose(vc::thorough() ? 3 : 2)]; s.env(c); vc::note("shape %d, %d iterations", shape, n); s.begin("i"); vc::nontrivial();
  for (int i = 0; i < n; i++) { s.tick(i);
    if (shape == 0) { s.point(i % 2, true, true, false, false); s.tick(i + 1); s.point(i % 2, false, true, false, false); }
    else if (shape == 1) { s.point(2, true, true, false, false); s.tick(i + 2); s.point(2, false, true, false, false); } // loop over one op, long names
    else if (shape == 2) s.point(i % 4, i % 3, true, false, false);
    else { if (i == 0) s.point(3, true, true, false, false); s.point(0, true, true, false, false); s.point(0, false, true, false, false); if (i == n - 1) s.point(3, false, true, false, false); } } // nested in an outer op
  vc::state(shape * 100000 + n); s.print(); s.begin(nullptr); s.point(0, true, true, true, false); s.print();
}
static void psfail() {
  Sys s; P_mode = vc::choose(2) + 1; int n = vc::pick({1, 3, 19}); s.env(CFG[vc::choose(2)]); vc::note("ps failure mode %d, %d points", P_mode, n); s.begin(nullptr); vc::nontrivial(); vc::state(P_mode * 100 + n);
  for (int i = 0; i < n; i++) { s.tick(i); s.point(i % 2, i % 2, vc::choose(n < 4 ? 2 : 1), true, false); } s.print(); P_mode = 0; s.begin("x"); s.point(1, false, true, true, false); s.print();
}
static void body() { int m = vc::choose(3); if (m == 0) longruns(); else if (m == 1) psfail(); else seqs(); }
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 4; o.rule = "an execution is non-trivial if at least one record had to be reported"; return vc::main(argc, argv, o, body); }
