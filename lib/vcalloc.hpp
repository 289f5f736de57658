// Allocation monitor and fault injector; link with -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=strdup
#pragma once
#include <cstdlib>
#include <cstring>
#include <map>
extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *); }
namespace va {
inline bool on = false, busy = false;
inline int calls = 0, failAt = 0;        // failAt: 1-based index of the allocation call that fails
inline bool failed = false;
inline std::map<void *, size_t> live;
inline std::map<void *, int> freed;      // pointers freed while monitoring (since reset)
inline int badFree = 0;
struct Scope { int f; Scope(int failIdx = 0) { on = true; calls = 0; failAt = failIdx; failed = false; freed.clear(); } ~Scope() { on = false; failAt = 0; } };
inline void reset() { live.clear(); freed.clear(); badFree = 0; on = false; }
inline void add(void *p, size_t n) { busy = true; live[p] = n; busy = false; }
inline bool fault() { calls++; if (failAt && calls == failAt) { failed = true; return true; } return false; }
}
extern "C" {
void *__wrap_malloc(size_t n) { if (!va::on || va::busy) return __real_malloc(n); if (va::fault()) { errno = ENOMEM; return nullptr; } void *p = __real_malloc(n); if (p) va::add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (!va::on || va::busy) return __real_calloc(a, b); if (va::fault()) { errno = ENOMEM; return nullptr; } void *p = __real_calloc(a, b); if (p) va::add(p, a * b); return p; }
char *__wrap_strdup(const char *s) { if (!va::on || va::busy) return __real_strdup(s); if (va::fault()) { errno = ENOMEM; return nullptr; } char *p = __real_strdup(s); if (p) va::add(p, strlen(s) + 1); return p; }
void *__wrap_realloc(void *q, size_t n) { if (!va::on || va::busy) return __real_realloc(q, n); if (va::fault()) { errno = ENOMEM; return nullptr; } void *p = __real_realloc(q, n); if (p) { va::busy = true; va::live.erase(q); va::live[p] = n; va::busy = false; } return p; }
void __wrap_free(void *p) {
  if (p && va::on && !va::busy) { va::busy = true; va::freed[p]++; if (!va::live.erase(p)) va::badFree++; va::busy = false; }
  __real_free(p);
}
}
