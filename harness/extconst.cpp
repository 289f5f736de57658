// C09 (histories) and C10 (faults) of external constant loading; also built with -D__MVS__ to reach the malloc+read loader.
#include "vc.hpp"
#include "vcalloc.hpp"
#include <dirent.h>
#include <sys/mman.h>
extern "C" {
bool omLoadConstantData(void **, char *, int64_t, int64_t); void omGetExternalConstantAddr(void **, void **, int64_t); bool omUnloadConstantData(void **, int64_t);
static bool F_on; static int F_at = -1, F_n; static int F_kind; static const char *F_what;
// one fault at the F_at-th system call; F_kind selects among the failures that call can have
static bool fault(const char *w) { if (!F_on) return false; if (F_n++ == F_at) { F_what = w; return true; } return false; }
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int f, ...) { if (fault("open")) { errno = F_kind == 0 ? EMFILE : EINTR; return -1; } return __real_open(p, f, 0600); }
void *__real_mmap(void *, size_t, int, int, int, off_t); void *__wrap_mmap(void *a, size_t l, int p, int f, int d, off_t o) { if (fault("mmap")) { errno = ENOMEM; return MAP_FAILED; } return __real_mmap(a, l, p, f, d, o); }
int __real_fstat(int, struct stat *); int __wrap_fstat(int d, struct stat *s) { if (fault("fstat")) { errno = EIO; return -1; } return __real_fstat(d, s); }
off_t __real_lseek(int, off_t, int); off_t __wrap_lseek(int d, off_t o, int w) { if (fault("lseek")) { errno = EIO; return -1; } return __real_lseek(d, o, w); }
ssize_t __real_read(int, void *, size_t); static int R_chunk;
ssize_t __wrap_read(int d, void *b, size_t n) { if (fault("read")) { if (F_kind == 0) { errno = EIO; return -1; } return 0; } if (R_chunk && n > (size_t)R_chunk) n = R_chunk; return __real_read(d, b, n); }
int __real_posix_memalign(void **, size_t, size_t); 
int __wrap_posix_memalign(void **p, size_t a, size_t s) { if (fault("posix_memalign")) return ENOMEM; int r = __real_posix_memalign(p, a, s); if (!r && va::on) va::add(*p, s); return r; }
}
#ifdef __MVS__
static const bool mvs = true;
#else
static const bool mvs = false;
#endif
static std::string D; // private working directory of this worker
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static std::string maps() { std::string s; int f = __real_open("/proc/self/maps", O_RDONLY); char b[4096]; ssize_t n; while ((n = __real_read(f, b, 4096)) > 0) s.append(b, n); close(f); return s; }
static int mapped(const std::string &nm) { std::string s = maps(); int n = 0; for (size_t i = 0; (i = s.find(nm, i)) != std::string::npos; i++) n++; return n; }
static std::vector<char> content(int seed, int64_t n) { std::vector<char> v(n); for (int64_t i = 0; i < n; i++) v[i] = (char)(i * 31 + (i >> 8) * 7 + seed * 101 + 1); return v; }
static void put(const std::string &p, const std::vector<char> &v) { unlink(p.c_str()); FILE *f = fopen(p.c_str(), "wb"); fwrite(v.data(), 1, v.size(), f); fclose(f); }
static void init() { if (!D.empty()) return; D = std::string(getenv("VC_SCRATCH") ? getenv("VC_SCRATCH") : "/tmp") + "/w" + std::to_string(getpid()); mkdir(D.c_str(), 0700); mkdir((D + "/cwd").c_str(), 0700); mkdir((D + "/base").c_str(), 0700); mkdir((D + "/a b").c_str(), 0700); if (chdir((D + "/cwd").c_str())) abort(); }
struct Cwd { ~Cwd() { for (auto d : {"/cwd/", "/base/", "/a b/"}) for (auto n : {"m.constants.bin", "n.constants.bin"}) unlink((D + d + n).c_str()); } };
static const char *NM[] = {"m.constants.bin", "n.constants.bin"};
static const std::vector<int64_t> SIZES = {1, 100, 4096, 4097, 20000};
struct Pack { void *addr = nullptr; bool loaded = false; int64_t size = 0; std::vector<char> bytes; };
static void use(Pack &p) {
  for (int64_t off : {(int64_t)0, p.size / 2, p.size - 1}) { void *o = nullptr; omGetExternalConstantAddr(&o, &p.addr, off); vc::step(); VC_CHECK(o == (char *)p.addr + off, "address", "address of offset %ld", (long)off); VC_CHECK(*(char *)o == p.bytes[off], "bytes", "byte at offset %ld differs", (long)off);
    void *keep = o; omGetExternalConstantAddr(&o, &p.addr, off); VC_CHECK(o == keep, "address", "asking again moved the address"); }
  VC_CHECK(!memcmp(p.addr, p.bytes.data(), p.size), "bytes", "loaded bytes differ from the file");
}
static void hist() {
  init(); Cwd c; int depth = vc::thorough() ? 5 : 3; int np = vc::choose(2) + 1; Pack pk[2]; unsetenv("OM_CONSTANT_PATH"); R_chunk = mvs ? vc::pick({0, 3000}) : 0;
  struct Loc { std::vector<char> v; bool present = false; }; Loc loc[3][2]; int env = 0; // 0 unset, 1 base, 2 "a b"
  static const char *DIRS[] = {"/cwd/", "/base/", "/a b/"};
  struct Un { Pack *p; ~Un() { for (int i = 0; i < 2; i++) if (p[i].addr) { omUnloadConstantData(&p[i].addr, p[i].size); } } } un{pk};
  int64_t size = vc::thorough() ? vc::pick(SIZES) : vc::pick<int64_t>({100, 4097}); if (np == 2 && size != 4097) vc::prune();
  // initial files: in each place absent, complete or too short
  for (int where = 0; where < 3; where++) { int var = np == 2 ? (where < 2 ? 1 : 0) : vc::choose(3); for (int k = 0; k < np; k++) { Loc &l = loc[where][k]; l.present = var; l.v = content(50 + where * 7 + k * 3, var == 2 ? size - 1 : size); if (var) { put(D + DIRS[where] + NM[k], l.v); vc::note("initially %s%s %s", DIRS[where], NM[k], var == 2 ? "too short" : "complete"); } } }
  int fd0 = fds(), m0 = mapped(D);
  uint64_t h = size * 2 + np; int lastW = -1;
  for (int d = 0; d < depth; d++) {
    int op = vc::pick({0, 1, 2, 4}); if (op > 1) lastW = -1; int k = np == 2 ? vc::choose(2) : 0; Pack &p = pk[k];
    if (op == 0) { int where = vc::choose(3); if (where * 2 + k <= lastW) vc::prune(); lastW = where * 2 + k; int var = vc::choose(3); // exact, short, gone
      if (d + 1 == depth) vc::prune(); Loc &l = loc[where][k]; int64_t n = var == 1 ? std::max<int64_t>(size - (size > 5000 ? 5000 : 1), 0) : size; vc::note("file %s%s: %s", DIRS[where], NM[k], var == 0 ? "written" : var == 1 ? "written too short" : "removed");
      l.present = var != 2; l.v = content(where * 7 + k * 3 + d, n); if (l.present) put(D + DIRS[where] + NM[k], l.v); else unlink((D + DIRS[where] + NM[k]).c_str()); }
    else if (op == 1) { if (k || lastW == 99) vc::prune(); lastW = 99; env = vc::choose(3); if (d + 1 == depth) vc::prune(); vc::note("OM_CONSTANT_PATH = %s", env ? DIRS[env] : "(unset)"); if (env) setenv("OM_CONSTANT_PATH", (D + (env == 1 ? "/base" : "/a b")).c_str(), 1); else unsetenv("OM_CONSTANT_PATH"); }
    else if (op == 2) { bool le = !vc::flip(); char nm[64]; strcpy(nm, NM[k]); vc::ctx("load"); Loc &l = loc[env][k]; vc::note("load %s%s", nm, le ? "" : " as big endian"); bool ok = omLoadConstantData(&p.addr, nm, size, le); vc::step(); vc::nontrivial();
      bool want = p.loaded || (le && l.present && (int64_t)l.v.size() >= size);
      VC_CHECK(ok == want, want ? "load-failed" : "load-accepted", "load returned %d, expected %d", ok, want); VC_CHECK(!strcmp(nm, NM[k]), "name", "file name modified");
      if (ok && !p.loaded) { p.loaded = true; p.size = size; p.bytes = l.v; VC_CHECK(p.addr, "address", "loaded at null"); }
      if (!ok) VC_CHECK(p.addr == nullptr, "dangling", "failed load left the address %p", p.addr); }
    else { vc::ctx("unload"); vc::note("unload %d", k); bool ok = omUnloadConstantData(&p.addr, size); vc::step(); VC_CHECK(ok == p.loaded, "unload", "unload returned %d while %sloaded", ok, p.loaded ? "" : "not "); p.loaded = false; VC_CHECK(p.addr == nullptr, "stale", "address %p after unloading", p.addr); }
    VC_CHECK(fds() == fd0, "fd-leak", "%d descriptors, %d before", fds(), fd0);
    if (!mvs) { int want = m0; for (auto &q : pk) if (q.loaded) want++; int got = mapped(D); VC_CHECK(got == want, "mapping-leak", "%d file mappings, expected %d", got, want); }
    for (auto &q : pk) if (q.loaded) use(q);
    h = vc::hash(&op, 4, h * 31 + k + env * 3 + p.loaded); vc::state(h);
  }
}
static void faults() {
  init(); Cwd c; R_chunk = 0; int64_t size = vc::pick(SIZES); bool base = vc::flip(); if (base) setenv("OM_CONSTANT_PATH", (D + "/base").c_str(), 1); else unsetenv("OM_CONSTANT_PATH");
  auto v = content(5, size); put(D + (base ? "/base/" : "/cwd/") + NM[0], v); if (mvs) R_chunk = vc::pick({0, 1000}); if (R_chunk && size > 5000) R_chunk = 7000;
  int at = vc::choose(9), kind = vc::flip(); bool mem = vc::flip(); vc::note("size %ld, %s %d fails (%d), path %s", (long)size, mem ? "allocation" : "system call", at, kind, base ? "configured" : "current directory"); if (mem && kind) vc::prune();
  void *addr = nullptr; char nm[64]; strcpy(nm, NM[0]); int fd0 = fds(), m0 = mapped(D); F_what = nullptr; bool ok; bool allocFault = false; size_t leaked;
  { va::reset(); va::Scope s(mem ? at + 1 : 0); F_on = !mem; F_at = at; F_n = 0; F_kind = kind; ok = omLoadConstantData(&addr, nm, size, 1); F_on = false; allocFault = va::failed; leaked = va::live.size(); }
  vc::step(); vc::ctx("%s", F_what ? F_what : allocFault ? "allocation" : "none"); vc::nontrivial(); vc::note("fault hit: %s", vc::S->ctx); vc::state(vc::hash(vc::S->note, vc::S->notelen));
  bool hit = F_what || allocFault; bool mayRetry = F_what && kind == 1; // an interrupted or short call may be retried
  if (!hit) VC_CHECK(ok, "load-failed", "load failed without a fault"); else if (!mayRetry) VC_CHECK(!ok, "fault-ignored", "load succeeded although %s failed", vc::S->ctx);
  VC_CHECK(fds() == fd0, "fd-leak", "descriptor leaked after %s", vc::S->ctx);
  if (!ok) { VC_CHECK(addr == nullptr, "dangling", "failed load left the address set"); VC_CHECK(mapped(D) == m0, "mapping-leak", "mapping leaked"); VC_CHECK(leaked == 0, "memory-leak", "%zu blocks leaked after %s", leaked, vc::S->ctx);
    ok = omLoadConstantData(&addr, nm, size, 1); vc::step(); VC_CHECK(ok, "retry", "retry after %s failed", vc::S->ctx); }
  VC_CHECK(addr && !memcmp(addr, v.data(), size), "bytes", "loaded bytes differ"); VC_CHECK(omUnloadConstantData(&addr, size), "unload", "unload failed"); VC_CHECK(addr == nullptr, "stale", "address after unloading"); VC_CHECK(mapped(D) == m0 && fds() == fd0, "leak", "something stays open or mapped after unloading");
  VC_CHECK(!omLoadConstantData(nullptr, nm, size, 1) && !omUnloadConstantData(nullptr, size) && !omLoadConstantData(&addr, nm, 0, 1) && !omLoadConstantData(&addr, nm, -1, 1) && !addr, "null", "bad arguments accepted");
}
int main(int argc, char **argv) {
  vc::Options o; o.splitDepth = 4; std::string m; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--mode")) m = argv[i + 1];
  if (m == "hist") { o.rule = "an execution is non-trivial if a load was attempted"; return vc::main(argc, argv, o, hist); }
  o.rule = "every execution loads with one (or no) injected fault, then retries"; return vc::main(argc, argv, o, faults);
}
