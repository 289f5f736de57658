#include "vcsched.hpp"
#include "vc.hpp"
#include <ucontext.h>
#include <pthread.h>
#include <link.h>
#include <unordered_map>
#include <unordered_set>
#include <exception>
namespace vcs {
struct Fib { ucontext_t uc; char *stack; std::function<void()> f; bool done = false, started = false; void *waits = nullptr; std::exception_ptr ex; };
static const size_t STK = 512 * 1024;
static std::vector<char *> stacks;
static ucontext_t mainCtx; static std::vector<Fib *> fibs; static int cur = -1; static bool profiling, exploring, all, rr; static uint64_t nPoints;
static std::unordered_map<void *, int> owner; // mutex -> fiber
struct Acc { uint32_t readers = 0, writers = 0; std::vector<void *> pcs; };
static std::unordered_map<uintptr_t, Acc> *accs; static int profTask; static std::unordered_set<void *> sites;
static bool wantSwitch; // the running fiber arrived at a voluntary point
bool inFiber() { return cur >= 0; }
uint64_t points() { return nPoints; }
size_t conflictSites() { return sites.size(); }
void dumpSites() { for (void *p : sites) fprintf(stderr, "%p\n", p); }
static void entry(unsigned lo, unsigned hi) { Fib *f = (Fib *)((uintptr_t)lo | (uintptr_t)hi << 32); try { f->f(); } catch (...) { f->ex = std::current_exception(); } f->done = true; swapcontext(&f->uc, &mainCtx); abort(); }
static void toMain() { Fib *f = fibs[cur]; swapcontext(&f->uc, &mainCtx); }
static std::vector<std::pair<uintptr_t, uintptr_t>> *tls; // thread-local storage counts as private although all fibers share it: no switch point lies between its uses
static bool isTls(uintptr_t a) { if (!tls) { tls = new std::vector<std::pair<uintptr_t, uintptr_t>>; dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) { if (i->dlpi_tls_data) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) tls->push_back({(uintptr_t)i->dlpi_tls_data, (uintptr_t)i->dlpi_tls_data + i->dlpi_phdr[k].p_memsz}); return 0; }, nullptr); }
  for (auto &r : *tls) if (a >= r.first && a < r.second) return true; return false; }
static inline bool onStack(uintptr_t a) { uintptr_t b = (uintptr_t)fibs[cur]->stack; return a >= b && a < b + STK; }
static void access(uintptr_t a, size_t n, bool write, void *pc) {
  if (cur < 0) return;
  if (profiling) { if (onStack(a) || isTls(a)) return; for (uintptr_t x = a & ~(uintptr_t)7; x < a + n; x += 8) { Acc &c = (*accs)[x]; (write ? c.writers : c.readers) |= 1u << profTask; if (std::find(c.pcs.begin(), c.pcs.end(), pc) == c.pcs.end()) c.pcs.push_back(pc); } return; }
  if (!exploring || onStack(a)) return;
  if ((all || sites.count(pc)) && !isTls(a)) { nPoints++; wantSwitch = true; toMain(); }
}
static void point() { if (cur < 0) return; if (rr) { toMain(); return; } if (!exploring) return; nPoints++; wantSwitch = true; toMain(); }
static void atom(uintptr_t a, size_t n, bool write, void *pc) { access(a, n, write, pc); if (rr && cur >= 0) toMain(); } // an atomic: a switch point if contended
static Fib *start(std::function<void()> f, size_t i) { while (stacks.size() <= i) stacks.push_back((char *)malloc(STK)); Fib *b = new Fib; b->stack = stacks[i]; b->f = std::move(f); getcontext(&b->uc); b->uc.uc_stack.ss_sp = b->stack; b->uc.uc_stack.ss_size = STK; b->uc.uc_link = nullptr; uintptr_t p = (uintptr_t)b; makecontext(&b->uc, (void (*)())entry, 2, (unsigned)p, (unsigned)(p >> 32)); return b; }
static void cleanup() { for (Fib *f : fibs) delete f; fibs.clear(); cur = -1; exploring = profiling = rr = false; owner.clear(); }
struct Clean { ~Clean() { cleanup(); } };
void profile(std::vector<std::function<void()>> tasks, Order o) {
  accs = new std::unordered_map<uintptr_t, Acc>; Clean c; for (size_t i = 0; i < tasks.size(); i++) fibs.push_back(start(tasks[i], i)); profiling = true; rr = o == ROTATE;
  auto go = [&](size_t i) { cur = i; profTask = i; swapcontext(&mainCtx, &fibs[i]->uc); cur = -1; if (fibs[i]->ex) std::rethrow_exception(fibs[i]->ex); };
  if (rr) for (bool any = true; any;) { any = false; for (size_t i = 0; i < tasks.size(); i++) if (!fibs[i]->done && !(fibs[i]->waits && owner.count(fibs[i]->waits))) { any = true; go(i); } }
  else for (size_t k = 0; k < tasks.size(); k++) { size_t i = o == BACKWARDS ? tasks.size() - 1 - k : k; go(i); if (!fibs[i]->done) abort(); }
  profiling = rr = false;
  for (auto &[a, x] : *accs) { uint32_t any = x.readers | x.writers; if (x.writers && (any & (any - 1))) for (void *pc : x.pcs) sites.insert(pc); }
  delete accs; accs = nullptr;
}
void profileIn(std::function<void()> f) {
  int pp[2]; if (pipe(pp)) abort(); fflush(stdout); pid_t p = fork();
  if (!p) { close(pp[0]); int n = open("/dev/null", O_WRONLY); dup2(n, 2); alarm(30); try { f(); } catch (...) {} for (void *s : sites) if (write(pp[1], &s, sizeof s) != sizeof s) break; _exit(0); }
  close(pp[1]); void *s; while (read(pp[0], &s, sizeof s) == sizeof s) sites.insert(s); close(pp[0]); int st; waitpid(p, &st, 0);
}
int run(std::vector<std::function<void()>> tasks, const Options &o) {
  Clean c; nPoints = 0; for (size_t i = 0; i < tasks.size(); i++) fibs.push_back(start(tasks[i], i));
  exploring = true; all = o.allAccesses; int left = o.preemptions, last = -1;
  for (;;) {
    std::vector<int> en; bool lastRuns = last >= 0 && !fibs[last]->done && !(fibs[last]->waits && owner.count(fibs[last]->waits));
    if (lastRuns) en.push_back(last);
    if (!lastRuns || left > 0) for (int i = 0; i < (int)fibs.size(); i++) if (i != last && !fibs[i]->done && !(o.symmetric && !fibs[i]->started && i > 0 && !fibs[i - 1]->started && !fibs[i - 1]->done) && !(fibs[i]->waits && owner.count(fibs[i]->waits))) en.push_back(i);
    if (en.empty()) { bool fin = true; for (Fib *f : fibs) fin = fin && f->done; if (fin) break; vc::fail("deadlock", "all unfinished threads wait for a mutex"); }
    int k = en.size() == 1 ? 0 : (int)vc::choose(en.size()); int nx = en[k];
    if (lastRuns && nx != last) { left--; vc::note("  preempt thread %d at point %llu, run %d", last, (unsigned long long)nPoints, nx); } else if (nx != last) vc::note("  run thread %d", nx);
    vc::step(); fibs[nx]->started = true; cur = last = nx; swapcontext(&mainCtx, &fibs[nx]->uc); cur = -1;
    if (fibs[nx]->ex) { auto e = fibs[nx]->ex; std::rethrow_exception(e); }
  }
  return o.preemptions - left;
}
static void lockFib(void *m) { point(); while (owner.count(m)) { fibs[cur]->waits = m; toMain(); } fibs[cur]->waits = nullptr; owner[m] = cur; }
}
using namespace vcs;
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (cur < 0 || (profiling && !rr)) return __real_pthread_mutex_lock(m); lockFib(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (cur < 0 || (profiling && !rr)) return __real_pthread_mutex_trylock(m); point(); if (owner.count(m)) return 16; owner[m] = cur; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (cur < 0 || (profiling && !rr)) return __real_pthread_mutex_unlock(m); owner.erase(m); return 0; }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RA __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *p) { access((uintptr_t)p, n, false, RA); } void __tsan_write##n(void *p) { access((uintptr_t)p, n, true, RA); } \
  void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false, RA); } void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true, RA); } \
  void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false, RA); } void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access((uintptr_t)p, n, false, RA); } void __tsan_write_range(void *p, unsigned long n) { access((uintptr_t)p, n, true, RA); }
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, true, RA); } void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false, RA); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { access((uintptr_t)s, n, false, RA); access((uintptr_t)d, n, true, RA); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { access((uintptr_t)s, n, false, RA); access((uintptr_t)d, n, true, RA); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { access((uintptr_t)d, n, true, RA); return memset(d, c, n); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int) { atom((uintptr_t)a, sizeof(T), false, RA); return __atomic_load_n(a, 5); } void __tsan_atomic##b##_store(volatile T *a, T v, int) { atom((uintptr_t)a, sizeof(T), true, RA); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { atom((uintptr_t)a, sizeof(T), true, RA); return __atomic_exchange_n(a, v, 5); } T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { atom((uintptr_t)a, sizeof(T), true, RA); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { atom((uintptr_t)a, sizeof(T), true, RA); return __atomic_fetch_sub(a, v, 5); } T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { atom((uintptr_t)a, sizeof(T), true, RA); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { atom((uintptr_t)a, sizeof(T), true, RA); return __atomic_fetch_or(a, v, 5); } T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { atom((uintptr_t)a, sizeof(T), true, RA); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { atom((uintptr_t)a, sizeof(T), true, RA); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atom((uintptr_t)a, sizeof(T), true, RA); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atom((uintptr_t)a, sizeof(T), true, RA); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atom((uintptr_t)a, sizeof(T), true, RA); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(); } void __tsan_atomic_signal_fence(int) {}
}
