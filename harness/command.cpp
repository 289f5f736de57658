// C27: external commands are run faithfully and their outcome reported.
#include "vc.hpp"
#include "src/Compiler/Command.hpp"
#include <filesystem>
#include <fstream>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
namespace fs = std::filesystem; using namespace onnx_mlir; typedef std::vector<std::string> VS;
// ---- the program that is run: reports what it got, then behaves as told
static int child(int argc, char **argv) {
  std::string r = fs::current_path().string() + "\n"; int fds = 0; DIR *d = opendir("/proc/self/fd"); while (auto *e = readdir(d)) if (isdigit(e->d_name[0]) && atoi(e->d_name) != dirfd(d) && atoi(e->d_name) > 2) fds++; closedir(d);
  r += std::to_string(fds) + "\n"; for (int i = 0; i < argc; i++) r += std::to_string(strlen(argv[i])) + ":" + argv[i] + "\n";
  int fd = open(getenv("CHILD_OUT"), O_WRONLY | O_CREAT | O_APPEND, 0644); if (write(fd, r.data(), r.size()) < 0) return 99; close(fd); if (write(1, "to-out\n", 7) < 0 || write(2, "to-err\n", 7) < 0) return 99;
  const char *w = getenv("CHILD_DO"); int k = atoi(w + 1); if (*w == 's') { signal(k, SIG_DFL); sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, nullptr); kill(getpid(), k); pause(); } _exit(k);
}
// ---- faults in the system calls of exec()
static int G_fork = 0, G_wait = 0, G_waitErr = 0; static bool G_sawFork;
extern "C" { pid_t __real_fork(); pid_t __real_waitpid(pid_t, int *, int);
pid_t __wrap_fork() { if (G_fork) { errno = EAGAIN; return -1; } G_sawFork = true; return __real_fork(); }
pid_t __wrap_waitpid(pid_t p, int *s, int o) { if (G_wait > 0) { G_wait--; if (G_waitErr == ECHILD) __real_waitpid(p, nullptr, 0); if (s) *s = 0; errno = G_waitErr; return -1; } return __real_waitpid(p, s, o); } }
static std::string D, exe; static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static std::string slurp(const std::string &f) { std::ifstream i(f); return std::string(std::istreambuf_iterator<char>(i), {}); }
static void setup() {
  D = std::string(getenv("VC_SCRATCH")) + "/w" + std::to_string(getpid()); fs::create_directories(D + "/bin"); fs::create_directories(D + "/wd/sub"); fs::create_directories(D + "/home"); exe = fs::read_symlink("/proc/self/exe").string();
  fs::create_symlink(exe, D + "/bin/prog"); fs::create_symlink(exe, D + "/wd/a prog"); std::ofstream(D + "/bin/plain") << "x"; fs::permissions(D + "/bin/plain", fs::perms::owner_read); setenv("PATH", (D + "/bin:/usr/bin:/bin").c_str(), 1); setenv("VC_CHILD", "1", 1);
  for (int fd = 3; fd < 256; fd++) fcntl(fd, F_SETFD, FD_CLOEXEC); struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); fs::current_path(D + "/home"); setenv("CHILD_OUT", (D + "/report").c_str(), 1);
}
struct Out { int code; int sig; const char *prog; int err; }; // err: expected code when it cannot be started
static const VS ARG{"a", "", "two words", "\"q'\\", "-o=x", "$HOME;*`", "\n\t", "\xc3\xa9\xff"};
static VS G_want; // arguments the command must have now
static void build(Command &c, bool light) {
  int n = vc::choose(light ? 2 : 4);
  for (int i = 0; i < n; i++) { const std::string &a = light ? ARG[vc::choose(3)] : n == 3 ? ARG[vc::choose(5)] : vc::pick(ARG); if (vc::flip()) { c.appendStr(a); if (!a.empty()) G_want.push_back(a); } else { std::string b = light ? "z" : vc::pick<const char *>({"z", ""}); c.appendList({a, b}); if (!a.empty()) G_want.push_back(a); if (!b.empty()) G_want.push_back(b); } vc::note("append <%s>", a.c_str()); }
}
static void once(Command &c, const std::string &prog, const std::string &path, int how, int val, int wd, int log, int fault, bool verbose) {
  // how: 0 exit val, 1 signal val, 2 cannot start (expect code val)
  std::string report = D + "/report", logf = D + "/log", so = D + "/so"; for (auto &f : {report, logf, so}) unlink(f.c_str()); if (log == 1) { std::ofstream(logf) << "old contents that are longer than what the program writes\n"; c.redirectExecStreams(logf); } else if (log == 2) c.redirectExecStreams(D + "/nodir/log");
  setenv("CHILD_DO", ((how == 1 ? "s" : "e") + std::to_string(val)).c_str(), 1); std::string wdir = wd == 0 ? "" : wd == 1 ? D + "/wd" : wd == 2 ? "../wd/sub" : D + "/missing", cwd = fs::current_path().string(), inDir = wd == 1 ? D + "/wd" : wd == 2 ? D + "/wd/sub" : cwd;
  G_fork = fault == 1; G_wait = fault == 2 ? 1 : fault == 3 ? 3 : fault == 4 ? 1 : 0; G_waitErr = fault == 4 ? ECHILD : EINTR; G_sawFork = false; int f0 = nfds(), r = -1; bool threw = false; std::string what;
  fflush(stdout); fflush(stderr); int o1 = dup(1), o2 = dup(2), so1 = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(so1, 1); dup2(so1, 2); close(so1); printf("PARENT-BUFFERED\n");
  for (int fd : {o1, o2}) fcntl(fd, F_SETFD, FD_CLOEXEC);
  try { r = c.exec(wdir); } catch (const CommandException &e) { threw = true; what = e.what(); }
  fflush(stdout); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); clearerr(stdout);
  std::string out = slurp(so); G_fork = G_wait = 0; std::string now = fs::current_path().string(); if (now != cwd) fs::current_path(cwd);
  VC_CHECK(now == cwd, "cwd", "the caller's directory changed to %s", now.c_str()); VC_CHECK(nfds() == f0, "fds", "descriptors of the caller: %d before, %d after", f0, nfds());
  int st; pid_t z = __real_waitpid(-1, &st, WNOHANG); VC_CHECK(z <= 0, "zombie", "a finished child was left behind");
  size_t p = out.find("PARENT-BUFFERED"); VC_CHECK(p != std::string::npos && out.find("PARENT-BUFFERED", p + 1) == std::string::npos, "stdio", "the caller's buffered output appears not exactly once: <%s>", out.c_str());
  if (wd == 3) { VC_CHECK(threw && !G_sawFork, "wdir", "a missing working directory gave status %d", r); return; }
  if (fault == 1) { VC_CHECK(threw, "fork", "a failing fork gave status %d", r); return; }
  if (fault == 4) { VC_CHECK(threw, "wait", "a failing wait gave status %d", r); return; }
  if (log == 2) { VC_CHECK(threw || r != 0, "nolog", "the log could not be written but the command reported success"); return; }
  std::string both = "to-out\nto-err\n";
  if (how == 2) { VC_CHECK(!threw && r == val, "start", "a program that cannot be started gives %s %d instead of %d", threw ? what.c_str() : "status", r, val); if (log == 1) VC_CHECK(slurp(logf).find(path) != std::string::npos, "startlog", "the log <%s> does not say what failed", slurp(logf).c_str()); }
  else {
    std::string rep = inDir + "\n"; size_t nl; std::string got = slurp(report); VC_CHECK(got.compare(0, rep.size(), rep) == 0, "dir", "the program ran in <%s> instead of <%s>", got.substr(0, got.find('\n')).c_str(), inDir.c_str()); (void)nl;
    std::string w = "0\n" + std::to_string(prog.size()) + ":" + prog + "\n"; for (auto &a : G_want) w += std::to_string(a.size()) + ":" + a + "\n"; VC_CHECK(got.substr(rep.size()) == w, "args", "the program got (extra descriptors, arguments)\n%s instead of\n%s", got.substr(rep.size()).c_str(), w.c_str());
    if (how == 1) { VC_CHECK(threw, "signal", "a program killed by signal %d gave status %d", val, r); static const std::pair<int, const char *> names[] = {{SIGSEGV, "SIGSEGV"}, {SIGABRT, "SIGABRT"}, {SIGKILL, "SIGKILL"}, {SIGTERM, "SIGTERM"}, {SIGFPE, "SIGFPE"}, {SIGILL, "SIGILL"}, {SIGBUS, "SIGBUS"}, {SIGINT, "SIGINT"}}; bool named = false; for (auto &n : names) if (n.first == val) { named = true; VC_CHECK(what.find(n.second) != std::string::npos, "signame", "killed by %s but reported as: %s", n.second, what.c_str()); } if (!named) VC_CHECK(what.find(std::to_string(val)) != std::string::npos, "signame", "killed by signal %d but reported as: %s", val, what.c_str()); }
    else VC_CHECK(!threw && r == val, "status", "a program that exits with %d gives %s %d", val, threw ? what.c_str() : "status", r);
    if (log == 1) { VC_CHECK(slurp(logf) == both, "log", "the log contains <%s>", slurp(logf).c_str()); VC_CHECK(out.find("to-") == std::string::npos, "leak", "logged output also went to the caller's stdout/stderr"); } else VC_CHECK(out.find("to-out\n") != std::string::npos && out.find("to-err\n") != std::string::npos, "inherit", "without a log the program's output is <%s>", out.c_str());
  }
  vc::step(); vc::nontrivial(); vc::state(vc::hash(out + slurp(report), r * 1000 + how * 10 + val));
}
static const struct { const char *path, *name; int how, val; } PROGS[] = {{"prog", "prog", 0, 0}, {"/bin/../", "", 2, 0}, {"wd/a prog", "a prog", 0, 0}, {"no-such-program", "", 2, 16}, {"bin/plain", "", 2, 17}, {"wd/sub", "", 2, 17}, {"missing/x", "", 2, 16}};
static void body() {
  static pid_t me = 0; if (me != getpid()) { me = getpid(); setup(); }
  G_want.clear(); int mode = vc::choose(3); bool verbose = mode == 2 && !vc::thorough() ? false : vc::flip();
  auto abs = [](const std::string &p) { return p.find('/') == std::string::npos ? p : D + "/" + p; };
  if (mode == 0) { // every status and signal
    Command c("prog", verbose); bool sig = vc::flip(); static const std::vector<int> S{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31, 34, 64}; int v = sig ? vc::pick(S) : vc::choose(256); int log = vc::choose(2), fault = vc::pick({0, 2}); vc::note("%s %d, log %d, fault %d", sig ? "signal" : "exit", v, log, fault); once(c, "prog", "prog", sig, v, 0, log, fault, verbose);
  } else if (mode == 1) { // arguments
    int pi = vc::pick({0, 2}); auto &p = PROGS[pi]; Command c(abs(p.path), verbose); build(c, false); if (vc::thorough() ? vc::flip() : 0) { c.resetArgs(); G_want.clear(); build(c, true); } VS a = c.getArgs(); once(c, p.name, p.path, 0, vc::pick({0, 3}), 0, 1, 0, verbose); VS b = c.getArgs(); VC_CHECK(a == b, "changed", "running the command changed its arguments");
  } else { // directory x log x faults x programs, twice with the same command
    static const std::vector<int> P{0, 2, 3, 4, 5, 6}; auto &p = PROGS[vc::pick(P)]; Command c(abs(p.path), verbose); build(c, true); int n = 2; bool hadLog = false;
    for (int i = 0; i < n; i++) { int how = p.how, val = p.val; if (!how) { int k = vc::choose(3); how = k == 2; val = k == 0 ? 0 : k == 1 ? 5 : 9; } int wd = vc::choose(4), log = i ? (hadLog ? 1 : vc::choose(2)) : vc::choose(3), fault = i ? (vc::thorough() ? vc::pick({0, 2}) : 0) : vc::choose(5); vc::note("run %s: %s %d, dir %d, log %d, fault %d", p.path, how == 1 ? "signal" : how == 2 ? "cannot start" : "exit", val, wd, log, fault);
      once(c, p.name, p.path, how, val, wd, log, fault, verbose); if (log == 2) return; if (log) hadLog = true; if (!i && vc::flip()) { c.resetArgs(); G_want.clear(); c.appendStr("again"); G_want.push_back("again"); vc::note("reset"); } }
  }
}
int main(int argc, char **argv) { if (getenv("VC_CHILD")) return child(argc, argv); vc::Options o; o.splitDepth = 4; o.rule = "every exit status and 25 signals; all lists of up to 3 appends of 8 argument texts by both calls; all pairs of runs of one command over 6 programs x outcomes x 4 directories x 3 logs x 5 faults of fork and waitpid"; return vc::main(argc, argv, o, body); }
