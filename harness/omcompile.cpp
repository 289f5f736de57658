// C28: a compile session reports success exactly when the compiled model exists.
// C29: container-based compilation mounts and names exactly the files involved.
// The compiler, docker and podman are this program under another name: they record what
// they are given and do what the real ones would do with it.
#include "vc.hpp"
#include "src/Compiler/OMCompile.hpp"
#include <csignal>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace fs = std::filesystem; using namespace onnx_mlir; typedef std::vector<std::string> VS;
static std::string slurp(const std::string &f) { std::ifstream i(f); return std::string(std::istreambuf_iterator<char>(i), {}); }
static std::string env(const char *n) { const char *v = getenv(n); return v ? v : ""; }
static void append(const std::string &f, const std::string &s) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd >= 0) { if (write(fd, s.data(), s.size()) < 0) _exit(98); close(fd); } }
static std::string enc(const VS &v) { std::string s; for (auto &a : v) s += "<" + a + ">"; return s; }
// ---- naming rule of the compiler (checked against its main() by C26)
struct Cl { std::string in, base, ext = ".so", tag; bool two = false; };
static Cl cl(const VS &a) { Cl c; std::string o; for (size_t i = 1; i < a.size(); i++) { if (a[i] == "-o") { if (++i < a.size()) o = a[i]; } else if (a[i].rfind("-o=", 0) == 0) o = a[i].substr(3); else if (a[i].find("-EmitObj") != a[i].npos) c.ext = ".o"; else if (a[i].find("-EmitMLIR") != a[i].npos) c.ext = ".onnx.mlir"; else if (a[i].find("-EmitJNI") != a[i].npos) c.ext = ".jar"; else if (a[i].rfind("--tag=", 0) == 0) c.tag = a[i].substr(6); else if (a[i][0] != '-') { if (!c.in.empty()) c.two = true; c.in = a[i]; } } c.base = o.empty() ? c.in.substr(0, c.in.rfind('.')) : o; return c; }
// the compiler, seeing its files through map (path as it names it -> real path, empty if not visible)
static int compiler(const VS &a, const std::function<std::string(const std::string &)> &map) {
  append(env("STUB_LOG"), "compiler " + enc(a) + "\n"); std::string d = env("STUB_DO"); printf("compiler output\n"); fflush(stdout); if (a.size() == 2 && a[1] == "--version") return d == "badversion";
  Cl c = cl(a); if (c.two || c.in.empty()) return 3; std::string in = map(c.in); if (in.empty() || !fs::exists(in)) return 4; if (d[0] == 'f') return atoi(d.c_str() + 1); if (d[0] == 's') { signal(atoi(d.c_str() + 1), SIG_DFL); kill(getpid(), atoi(d.c_str() + 1)); pause(); }
  std::string out = map(c.base + c.ext), k = map(c.base + ".constants.bin"); if (d != "noout" && !out.empty()) { std::ofstream o(out); o << "compiled " << slurp(in); if (!o) return 5; } if (d == "const" && !k.empty()) std::ofstream(k) << "constants"; return 0;
}
static int engine(const std::string &name, const VS &a) {
  append(env("STUB_LOG"), name + " " + enc(a) + "\n"); std::string W = env("STUB_WORLD"); VS imgs; { std::ifstream f(W + "/images"); std::string l; while (std::getline(f, l)) imgs.push_back(l); } auto have = [&](const std::string &i) { return std::find(imgs.begin(), imgs.end(), i) != imgs.end(); };
  if (a.size() < 2) return 1; if (a[1] == "--version" || a[1] == "version") return env("STUB_ENGINE_BAD") == name; if (a[1] == "info") return env("STUB_INFO_BAD") == "1";
  if (a[1] == "images") { for (auto &i : imgs) if (i == a.back()) printf("0123456789ab\n"); return 0; }
  if (a[1] == "image" && (a[2] == "inspect" || a[2] == "exists")) { printf("[...]\n"); return have(a[3]) ? 0 : 1; } if (a[1] == "inspect") return have(a.back()) ? 0 : 1;
  if (a[1] == "pull") { if (env("STUB_PULL_BAD") == "1") return 1; append(W + "/images", a[2] + "\n"); return 0; }
  if (a[1] != "run") return 1; size_t i = 2; std::string ep, wd = "/"; std::vector<std::pair<std::string, std::string>> mounts; std::string mlog;
  for (; i < a.size() && a[i][0] == '-'; i++) { if (a[i] == "--rm") ; else if (a[i] == "--entrypoint") ep = a[++i]; else if (a[i] == "-w" || a[i] == "--workdir") wd = a[++i]; else if (a[i] == "-v" || a[i] == "--volume") { std::string v = a[++i]; size_t p = v.find(':'), q = v.find(':', p + 1); std::string h = v.substr(0, p), c = v.substr(p + 1, q == v.npos ? q : q - p - 1); mlog += "<" + h + "|" + c + (q == v.npos || v.substr(q) == ":rw" ? "" : v.substr(q)) + ">"; std::string pre = env("STUB_HOSTPREFIX"); if (!pre.empty()) { if (h.compare(0, pre.size(), pre) != 0) h = "/nonexistent-on-host"; else h = h.substr(pre.size()); } mounts.push_back({h, c}); } else return 125; }
  if (i >= a.size()) return 125; std::string img = a[i++]; append(env("STUB_LOG"), "mounts " + mlog + "\nimage " + img + "\n"); if (!have(img)) { if (env("STUB_PULL_BAD") == "1") return 125; }
  VS rest(a.begin() + i, a.end()), argv; std::string where = env("STUB_COMPILER");
  if (ep.empty()) { argv = rest; argv.insert(argv.begin(), "ENTRYPOINT"); if (where != "ENTRYPOINT") { // image without compiler entry point runs the command itself
      if (rest.empty()) return 127; argv = rest; if (argv[0] != where) return 127; } }
  else if (ep == "sh") { if (rest.size() != 2 || rest[0] != "-c") return 127; // let a real shell split the command
    int pp[2]; if (pipe(pp)) return 98; pid_t p = fork(); if (!p) { dup2(pp[1], 1); close(pp[0]); execl("/bin/sh", "sh", "-c", ("printf '%s\\0' " + rest[1]).c_str(), (char *)0); _exit(97); } close(pp[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) s.append(b, n); int st; waitpid(p, &st, 0); if (st) return 2; for (size_t k = 0; k < s.size();) { argv.push_back(s.c_str() + k); k += argv.back().size() + 1; } if (argv.empty() || argv[0] != where) { append(env("STUB_LOG"), "notfound <" + (argv.empty() ? "" : argv[0]) + ">\n"); return 127; } }
  else return 127;
  return compiler(argv, [&](const std::string &p) { std::string q = fs::path(p[0] == '/' ? p : wd + "/" + p).lexically_normal().string(); std::string best; size_t bl = 0; for (auto &m : mounts) { std::string c = fs::path(m.second).lexically_normal().string(); if (c.size() >= bl && q.compare(0, c.size(), c) == 0 && (q.size() == c.size() || q[c.size()] == '/' || c == "/")) { bl = c.size(); best = m.first + q.substr(c.size()); } } return best; });
}
// ---- what the library sees of the system it runs in
static bool G_dockerenv, G_containerenv, G_sock; static std::string G_cgroup = "0::/init.scope\n", G_host = "myhost";
static const char *redir(const char *p, std::string &tmp) { const char *y = "/", *n = "/nonexistent/x"; if (!p) return p; if (!strcmp(p, "/.dockerenv")) return G_dockerenv ? y : n; if (!strcmp(p, "/run/.containerenv")) return G_containerenv ? y : n; if (!strcmp(p, "/var/run/docker.sock")) return G_sock ? y : n; if (!strcmp(p, "/proc/1/cgroup")) { tmp = env("STUB_WORLD") + "/cgroup"; return tmp.c_str(); } return p; }
extern "C" { int stat(const char *p, struct stat *s) noexcept { static auto f = (int (*)(const char *, struct stat *))dlsym(RTLD_NEXT, "stat"); std::string t; return f(redir(p, t), s); }
FILE *fopen64(const char *p, const char *m) { static auto f = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64"); std::string t; return f(redir(p, t), m); }
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); static auto f = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64"); std::string t; return f(redir(p, t), fl, md); }
int gethostname(char *b, size_t n) noexcept { snprintf(b, n, "%s", G_host.c_str()); return 0; } }
static std::string D, H; // scratch of this worker, working directory of the caller
static std::string G_mode;
static void world() { // fresh directories for each execution
  static pid_t me = 0; if (me != getpid()) { me = getpid(); D = fs::canonical(env("VC_SCRATCH")).string() + "/w" + std::to_string(getpid()); fs::create_directories(D); std::string exe = fs::read_symlink("/proc/self/exe").string(); for (auto b : {"bin", "dbin", "pbin"}) fs::create_directories(D + "/" + b); fs::create_symlink(exe, D + "/bin/onnx-mlir"); fs::create_symlink(exe, D + "/bin/other cc"); fs::create_symlink(exe, D + "/dbin/docker"); fs::create_symlink(exe, D + "/pbin/podman");
    setenv("VC_CHILD", "1", 1); setenv("STUB_WORLD", D.c_str(), 1); setenv("STUB_LOG", (D + "/calls").c_str(), 1); struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); for (int fd = 3; fd < 256; fd++) fcntl(fd, F_SETFD, FD_CLOEXEC); }
  H = D + "/home"; fs::current_path(D); fs::remove_all(H); for (auto d : {"", "/sub", "/sp ace", "/od", "/q'$x"}) fs::create_directories(H + d); for (auto m : {"m.onnx", "sub/a.b.onnx", "sp ace/n.mlir", "q'$x/k.onnx"}) std::ofstream(H + "/" + m) << m; fs::current_path(H); unlink((D + "/calls").c_str()); for (auto v : {"OM_DIND_DISABLE", "OM_DOCKER_HOST_PATH_PREFIX", "container", "STUB_ENGINE_BAD", "STUB_INFO_BAD", "STUB_PULL_BAD", "STUB_HOSTPREFIX", "STUB_COMPILER"}) unsetenv(v); G_dockerenv = G_containerenv = G_sock = false; G_host = "myhost"; std::ofstream(D + "/cgroup") << "0::/init.scope\n"; std::ofstream(D + "/images").flush();
  setenv("PATH", (D + "/bin").c_str(), 1); setenv("STUB_DO", "ok", 1);
}
struct Quiet { int e, o; Quiet() { fflush(stdout); fflush(stderr); e = fcntl(2, F_DUPFD_CLOEXEC, 3); o = fcntl(1, F_DUPFD_CLOEXEC, 3); int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); close(n); } ~Quiet() { fflush(stdout); dup2(e, 2); dup2(o, 1); close(e); close(o); } };
struct Call { std::string model, flags, od; VS fv; bool inFlags; }; // fv: the flags split
static std::string absH(const std::string &p) { return p[0] == '/' ? p : H + "/" + p; }
// the file the compiler is to write for a call, and the compiler's tag
static Cl expectOut(const Call &c) { VS a = c.fv; a.insert(a.begin(), "x"); if (!c.inFlags && !c.model.empty()) a.push_back(c.model); Cl r = cl(a); bool hasO = false; for (auto &f : c.fv) hasO |= f == "-o" || f.rfind("-o=", 0) == 0; if (!c.od.empty()) { if (!hasO) r.base = c.od + "/" + fs::path(r.in).stem().string(); else if (r.base.find('/') == r.base.npos) r.base = c.od + "/" + r.base; } return r; }
static std::string lines(const char *what) { std::string s = slurp(D + "/calls"), out; size_t p = 0, q; while ((q = s.find('\n', p)) != s.npos) { std::string l = s.substr(p, q - p); if (l.rfind(what, 0) == 0) out += l + "\n"; p = q + 1; } return out; }
// one compile call and every query after it
static void doCall(OMCompile &s, const Call &c, const std::string &outcome, const std::string &compilerParam, int log, bool willStart, const std::string &exp0) {
  setenv("STUB_DO", outcome.c_str(), 1); unlink((D + "/calls").c_str()); std::string logf = log ? D + "/logfile" : ""; unlink((D + "/logfile").c_str()); bool threw = false, wrong = false; std::string what;
  { Quiet q; try { s.compile(c.inFlags ? "" : c.model, c.flags, c.od, compilerParam, logf); } catch (const OMCompileException &e) { threw = true; what = e.what(); } catch (const std::exception &e) { wrong = true; what = e.what(); } }
  VC_CHECK(!wrong, "exception", "compile raised something other than OMCompileException: %s", what.c_str()); Cl x = expectOut(c); std::string out = absH(x.base + x.ext), kf = absH(x.base + ".constants.bin");
  bool inputOk = !c.model.empty() && fs::exists(absH(c.model)); bool ran = inputOk && willStart; bool ok = ran && (outcome == "ok" || outcome == "const" || outcome == "noout") && fs::exists(out);
  VC_CHECK(threw == !ok, "verdict", "compile %s, but %s (%s)", threw ? "failed" : "succeeded", ok ? "the compiler succeeded and wrote the model" : "the compiler did not produce the model", what.c_str());
  VC_CHECK(s.isSuccessfullyCompiled() == ok, "state", "after a %s compile isSuccessfullyCompiled() is %d", ok ? "successful" : "failed", (int)s.isSuccessfullyCompiled());
  std::string calls = lines("compiler "); if (!inputOk) VC_CHECK(calls.empty(), "ran", "the compiler was run without an input: %s", calls.c_str());
  if (ran && G_mode == "C28") { VS want = c.fv; std::string w; if (c.od.empty()) { want.insert(want.begin(), exp0); if (!c.inFlags) want.push_back(c.model); w = "compiler " + enc(want) + "\n"; VC_CHECK(calls == w, "args", "the compiler got %s instead of %s", calls.c_str(), w.c_str()); } else { size_t from = calls.find('\n'); VC_CHECK(from == calls.size() - 1, "args", "the compiler was run more or less than once: %s", calls.c_str()); std::string noO; bool skip = false; for (auto &f : c.fv) { if (skip) { skip = false; continue; } if (f == "-o") { skip = true; continue; } if (f.rfind("-o=", 0) == 0) continue; VC_CHECK(calls.find("<" + f + ">") != calls.npos, "args", "flag %s was not passed: %s", f.c_str(), calls.c_str()); } } }
  if (ok) VC_CHECK(slurp(out) == "compiled " + slurp(absH(c.model)), "content", "the output is not made from the given model");
  if (ran && log && outcome[0] != 's') VC_CHECK(slurp(logf).find("compiler output") != std::string::npos, "log", "the log does not have the compiler's output");
  // queries, also from another directory
  for (int rep = 0; rep < 2; rep++) { if (rep) fs::current_path(D); bool t1 = false, t2 = false, t3 = false; std::string o, k, t; try { o = s.getOutputFilename(); } catch (const std::exception &) { t1 = true; } try { k = s.getOutputConstantFilename(); } catch (const std::exception &) { t2 = true; } try { t = s.getModelTag(); } catch (const std::exception &) { t3 = true; }
    if (!ok) { VC_CHECK(t1 && t2 && t3, "stale", "after a failed compile a query answers (output %s, constants %s, tag %s)", o.c_str(), k.c_str(), t.c_str()); VC_CHECK(!s.hasOutputConstantFilename(), "stalek", "after a failed compile hasOutputConstantFilename() is true"); }
    else { VC_CHECK(!t1 && !t2 && !t3, "throws", "after a successful compile a query raises an error"); VC_CHECK(fs::path(o).is_absolute() && fs::path(o).lexically_normal() == fs::path(out).lexically_normal(), "output", "getOutputFilename() is %s instead of %s", o.c_str(), out.c_str()); bool hk = x.ext != ".onnx.mlir" && fs::exists(kf);
      VC_CHECK(s.hasOutputConstantFilename() == !k.empty() && (x.ext == ".onnx.mlir" || !k.empty() == hk), "constants", "constants file %s: getOutputConstantFilename() is \"%s\"", hk ? "exists" : "does not exist", k.c_str()); if (hk) VC_CHECK(fs::path(k).is_absolute() && fs::path(k).lexically_normal() == fs::path(kf).lexically_normal(), "constants", "getOutputConstantFilename() is %s instead of %s", k.c_str(), kf.c_str()); VC_CHECK(t == x.tag, "tag", "getModelTag() is \"%s\" instead of \"%s\"", t.c_str(), x.tag.c_str()); } }
  VC_CHECK(fs::current_path() == D, "cwd", "the caller's directory changed"); fs::current_path(H); vc::step(); vc::nontrivial(); vc::state(vc::hash(calls + what));
}
static const std::vector<VS> FL{{"-O3"}, {"-O3", "-o", "out"}, {"-o=sp ace/o ut", "--tag=t1"}, {"--EmitObj", "-o", "sub/x"}, {"--EmitMLIR"}, {"-o=a.b", "--EmitJNI"}, {}};
static const VS MD{"m.onnx", "sub/a.b.onnx", "/H/sp ace/n.mlir", "missing.onnx", ""};
static Call mkCall(int m, int f, int o, bool inFlags) { Call c; c.model = MD[m]; if (c.model.rfind("/H", 0) == 0) c.model = H + c.model.substr(2); c.fv = FL[f]; c.inFlags = inFlags && !c.model.empty(); if (c.inFlags) c.fv.insert(c.fv.begin() + c.fv.size() / 2, c.model); if (c.fv.size() > 1 && c.inFlags && c.fv[c.fv.size() / 2] == "out") std::swap(c.fv[0], c.fv[0]); c.od = o == 0 ? "" : o == 1 ? "od" : H + "/sub";
  if (c.inFlags) { c.fv = FL[f]; c.fv.push_back(c.model); } for (auto &a : c.fv) c.flags += (c.flags.empty() ? "" : " ") + (a.find_first_of(" '") == a.npos ? a : "\"" + a + "\""); return c; }
static void c28() {
  world(); static const VS OUT{"ok", "const", "noout", "f1", "f4", "s11", "s9", "f255"}; int ctor = vc::choose(4), mode = vc::choose(2); std::string exp0 = "onnx-mlir"; std::unique_ptr<OMCompile> s; bool start = true;
  { Quiet q; if (ctor == 0) s.reset(new OMCompile()); else if (ctor == 1) { s.reset(new OMCompile(D + "/bin/other cc")); exp0 = "other cc"; } else if (ctor == 2) { s.reset(new OMCompile("no-such-compiler")); start = false; exp0 = ""; } else { bool bad = vc::flip(); if (bad) setenv("STUB_DO", "badversion", 1); bool threw = false; try { s.reset(new OMCompile("", true)); } catch (const OMCompileException &) { threw = true; } VC_CHECK(threw == bad, "verify", "verification of the compiler %s", threw ? "failed" : "passed"); if (bad) { Quiet q2; threw = false; try { OMCompile x("no-such-compiler", true); } catch (const OMCompileException &) { threw = true; } VC_CHECK(threw, "verify", "a missing compiler was verified"); return; } } }
  VC_CHECK(!s->isSuccessfullyCompiled() && !s->hasOutputConstantFilename() && s->getMode() == OMCompile::CompilationMode::Local && s->getContainerEngineName() == "", "fresh", "a new session claims a compiled model"); bool t = false; try { s->getOutputFilename(); } catch (const std::exception &) { t = true; } VC_CHECK(t, "fresh", "a new session names an output");
  if (mode == 0) { int m = vc::choose(5), f = vc::choose(FL.size()), o = vc::choose(3); bool inF = vc::flip(); if (m == 4 && inF) return; std::string oc = ctor == 1 || ctor == 3 ? OUT[vc::choose(3)] : vc::pick(OUT); int log = vc::choose(2); int par = ctor == 3 ? 0 : vc::choose(3); Call c = mkCall(m, f, o, inF); std::string pp = par == 0 ? "" : par == 1 ? D + "/bin/other cc" : "missing-cc"; vc::note("session %d: compile(\"%s\", <%s>, \"%s\", \"%s\", log %d), compiler does %s", ctor, inF ? "" : c.model.c_str(), c.flags.c_str(), c.od.c_str(), pp.c_str(), log, oc.c_str()); doCall(*s, c, oc, pp, log, par == 0 ? start : par == 1, par == 1 ? "other cc" : exp0); return; }
  if (ctor == 2 || ctor == 3) return; int n = vc::thorough() ? 4 : 3; // histories of one session
  static const struct { int m, f, o, oc; } A[] = {{0, 0, 0, 0}, {0, 1, 0, 1}, {1, 2, 0, 0}, {0, 0, 0, 3}, {0, 1, 0, 2}, {3, 0, 0, 0}, {4, 0, 0, 0}, {1, 3, 0, 5}, {0, 4, 0, 0}, {0, 0, 1, 1}, {0, 1, 2, 0}, {2, 2, 0, 3}};
  for (int i = 0; i < n; i++) { auto &a = A[vc::choose(ctor == 0 ? 12 : 6)]; Call c = mkCall(a.m, a.f, a.o, false); vc::note("compile(\"%s\", <%s>, \"%s\"), compiler does %s", c.model.c_str(), c.flags.c_str(), c.od.c_str(), OUT[a.oc].c_str()); doCall(*s, c, OUT[a.oc], "", 0, true, exp0); }
}
static void c29() {
  world(); int mode = vc::choose(3); static const struct { const char *img, *where; bool known; } IM[] = {{"ghcr.io/onnxmlir/onnx-mlir", "onnx-mlir", true}, {"ghcr.io/onnxmlir/onnx-mlir-dev", "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir", true}, {"onnxmlir/onnx-mlir-dev", "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir", true}, {"icr.io/ibmz/zdlc:5.0.0", "ENTRYPOINT", true}, {"my/image:1", "", false}, {"", "onnx-mlir", true}};
  typedef OMCompile::ContainerEngine E; int have = mode == 0 ? vc::choose(4) : vc::pick({1, 2}), bad = mode == 0 ? vc::choose(3) : 0, want = mode == 0 ? vc::choose(3) : 2; // 0 docker 1 podman 2 auto
  std::string path; if (have & 1) path += D + "/dbin:"; if (have & 2) path += D + "/pbin:"; path += D + "/none"; setenv("PATH", path.c_str(), 1); if (bad) setenv("STUB_ENGINE_BAD", bad == 1 ? "docker" : "podman", 1); bool dok = (have & 1) && bad != 1, pok = (have & 2) && bad != 2; std::string engine = want == 0 ? (dok ? "docker" : "") : want == 1 ? (pok ? "podman" : "") : dok ? "docker" : pok ? "podman" : "";
  int ii = mode == 0 ? vc::pick({1, 3, 4}) : vc::choose(6); auto &im = IM[ii]; bool explicitCc = mode == 2 ? vc::flip() : ii == 4; std::string cc = explicitCc ? "/opt/c c/onnx-mlir" : ""; std::string where = explicitCc ? cc : im.where; setenv("STUB_COMPILER", where.c_str(), 1); std::string img = im.img[0] ? im.img : "ghcr.io/onnxmlir/onnx-mlir";
  bool present = mode == 0 ? vc::flip() : true, autoPull = mode == 0 ? vc::flip() : true, pullBad = mode == 0 && !present && autoPull ? vc::flip() : false; if (present) std::ofstream(D + "/images") << img << "\n"; else std::ofstream(D + "/images") << "some/other\n"; if (pullBad) setenv("STUB_PULL_BAD", "1", 1);
  int dind = mode == 1 ? vc::choose(9) : 0; bool off = dind && vc::flip(), sock = dind ? vc::choose(2) == 0 : false, infoBad = dind && sock ? vc::flip() : false; static const char *PRE[] = {"", "/host", "HOMEPREFIX", "/host/"}; int pi = dind && !off && sock && !infoBad ? vc::choose(4) : 0; bool inside = false;
  switch (dind) { case 1: G_dockerenv = true; inside = true; break; case 2: G_containerenv = true; inside = true; break; case 3: setenv("container", "oci", 1); inside = true; break; case 4: std::ofstream(D + "/cgroup") << "12:pids:/docker/0123\n"; inside = true; break; case 5: std::ofstream(D + "/cgroup") << "1:x:/a\n0::/system.slice/containerd.service\n"; inside = true; break; case 6: std::ofstream(D + "/cgroup") << "0::/\n"; G_host = "0123456789ab"; inside = true; break; case 7: std::ofstream(D + "/cgroup") << "0::/\n"; G_host = "build-server"; break; case 8: std::ofstream(D + "/cgroup") << "0::/libpod-podman-1\n"; inside = true; break; }
  G_sock = sock; if (infoBad) setenv("STUB_INFO_BAD", "1", 1); if (off) setenv("OM_DIND_DISABLE", "1", 1); bool din = inside && !off; std::string pre = pi == 2 ? D.substr(0, 4) : PRE[pi]; if (!pre.empty()) setenv("OM_DOCKER_HOST_PATH_PREFIX", pre.c_str(), 1); std::string preN = pre; if (!preN.empty() && preN.back() == '/') preN.pop_back();
  bool verbose = mode != 2 && vc::flip(); vc::note("engines: %s%s%s, asked for %s; image \"%s\" %s, compiler \"%s\", autopull %d%s; inside container %d (way %d)%s, socket %d%s, prefix \"%s\"%s", have & 1 ? "docker " : "", have & 2 ? "podman" : "", bad ? " (one broken)" : "", want == 0 ? "docker" : want == 1 ? "podman" : "auto", im.img, present ? "present" : "absent", cc.c_str(), autoPull, pullBad ? " fails" : "", inside, dind, off ? " disabled" : "", sock, infoBad ? " unusable" : "", pre.c_str(), verbose ? ", verbose" : "");
  bool okSetup = !engine.empty() && (!din || (sock && !infoBad)) && (present || (autoPull && !pullBad)) && !(where.empty());
  std::unique_ptr<OMCompile> s; bool threw = false, wrong = false; std::string what; { Quiet q; try { s.reset(new OMCompile(im.img, cc, want == 0 ? E::Docker : want == 1 ? E::Podman : E::Auto, autoPull, verbose)); } catch (const OMCompileException &e) { threw = true; what = e.what(); } catch (const std::exception &e) { wrong = true; what = e.what(); } }
  VC_CHECK(!wrong, "exception", "set-up raised something other than OMCompileException: %s", what.c_str()); VC_CHECK(threw == !okSetup, "setup", "set-up %s (%s)", threw ? "failed" : "succeeded", what.c_str()); vc::step(); vc::state(vc::hash(lines("") + what)); if (threw) return;
  VC_CHECK(s->getContainerEngineName() == engine && s->getMode() == OMCompile::CompilationMode::Container, "engine", "engine %s instead of %s", s->getContainerEngineName().c_str(), engine.c_str()); VC_CHECK(s->isRunningInContainer() == din, "dind", "isRunningInContainer() is %d", (int)s->isRunningInContainer());
  VC_CHECK((lines(engine.c_str()).find("<pull>") != std::string::npos) == !present, "pull", "image %s, but %s", present ? "present" : "absent", present ? "pulled" : "not pulled"); std::string other = engine == "docker" ? "podman" : "docker"; for (auto &l : {lines((other + " <run>").c_str()), lines((other + " <pull>").c_str())}) VC_CHECK(l.empty(), "otherengine", "the other engine was used: %s", l.c_str()); if (mode == 0) return;
  // compile in it
  static const std::vector<VS> F2{{"-O3"}, {"-O3", "-o", "out"}, {"-o=sp ace/o ut", "--tag=t1"}, {"--EmitObj", "-o", "sub/x"}, {"-mcpu=a;b", "--x=\"$HOME\" `id` 'q' \\ *"}, {"-o", "/H/q'$x/z"}, {}}; static const VS M2{"m.onnx", "sub/a.b.onnx", "/H/sp ace/n.mlir", "q'$x/k.onnx", "missing.onnx"};
  int n = mode == 2 ? 1 : 1; for (int i = 0; i < n; i++) { Call c; int m = mode == 1 ? vc::pick({0, 2}) : vc::choose(5); c.model = M2[m]; if (c.model[0] == '/') c.model = H + c.model.substr(2); c.fv = F2[mode == 1 ? vc::pick({0, 3}) : vc::choose(F2.size())]; for (auto &a : c.fv) if (a.rfind("/H", 0) == 0) a = H + a.substr(2); c.inFlags = mode == 2 && vc::flip(); if (c.inFlags) c.fv.push_back(c.model); c.od = mode == 2 ? vc::pick<const char *>({"", "od"}) : ""; std::string oc = mode == 2 ? vc::pick<const char *>({"ok", "const", "f3", "noout", "s9"}) : "ok";
    for (auto &a : c.fv) { std::string q; for (char ch : a) { if (strchr("\\\"' ", ch)) q += '\\'; q += ch; } c.flags += (c.flags.empty() ? "" : " ") + q; } vc::note("compile(\"%s\", <%s>, \"%s\"), compiler does %s", c.inFlags ? "" : c.model.c_str(), c.flags.c_str(), c.od.c_str(), oc.c_str());
    if (din && !preN.empty()) { bool already = (H + "/").compare(0, preN.size() + 1, preN + "/") == 0; setenv("STUB_HOSTPREFIX", already ? "" : preN.c_str(), 1); } else setenv("STUB_HOSTPREFIX", "", 1);
    doCall(*s, c, oc, "", vc::flip(), true, "");
    if (fs::exists(absH(c.model))) { // exactly the two directories are visible, and every other flag arrives unchanged
      Cl x = expectOut(c); std::string md = fs::path(absH(c.model)).parent_path().string(), out = fs::path(absH(x.base)).parent_path().string(); std::string h = din && !preN.empty() && (H + "/").compare(0, preN.size() + 1, preN + "/") != 0 ? preN : ""; std::set<std::string> want{"<" + h + md + "|" + md + ">", "<" + h + out + "|" + out + ">"}, got; std::string l = lines("mounts "); size_t p = 0; while ((p = l.find('<', p)) != l.npos) { size_t q = l.find('>', p); got.insert(l.substr(p, q - p + 1)); p = q; } VC_CHECK(got == want, "mounts", "mounted %s instead of %s and %s", l.c_str(), want.begin()->c_str(), want.rbegin()->c_str());
      VC_CHECK(lines("image ") == "image " + img + "\n", "image", "ran %s instead of %s", lines("image ").c_str(), img.c_str()); std::string cl = lines("compiler "); VC_CHECK(!cl.empty(), "ran", "the compiler of the image was not run: %s", slurp(D + "/calls").c_str()); bool skip = false; for (auto &f : c.fv) { if (skip) { skip = false; continue; } if (f == "-o") skip = true; else if (f.rfind("-o=", 0) && f != c.model) VC_CHECK(cl.find("<" + f + ">") != cl.npos, "flags", "flag %s did not arrive: %s", f.c_str(), cl.c_str()); } } }
}
static void body() { if (G_mode == "C28") c28(); else c29(); }
int main(int argc, char **argv) {
  if (getenv("VC_CHILD")) { VS a(argv, argv + argc); std::string n = a[0]; if (n == "docker" || n == "podman") return engine(n, a); return compiler(a, [](const std::string &p) { return p; }); }
  vc::Options o; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--mode")) { G_mode = argv[i + 1]; for (int k = i; k + 2 < argc; k++) argv[k] = argv[k + 2]; argc -= 2; break; }
  o.splitDepth = 4; o.rule = G_mode == "C28" ? "single compile calls over 4 sessions x 5 models x 7 flag lists x 3 output directories x model in flags x 8 compiler outcomes x log x compiler argument; all histories of 3 (4) calls of one session over 12 calls" : "all set-ups over engines present/broken/asked for x images x presence x pulling; 9 ways of being in a container x disabled x socket x prefix; 6 images x 5 models x 7 flag lists x output directory x outcome";
  return vc::main(argc, argv, o, body);
}
