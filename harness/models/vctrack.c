/* allocation tracker shared by the stand-in model and the runtime under test: redzones, poison on free,
 * double/foreign free detection, optional failure of the n-th allocation */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAXB 65536
static struct B { unsigned char *raw; size_t n; int freed; } b[MAXB];
static int nb, errors, freedCount; static long live, count, failAt; static char why[256];
void *vct_alloc(size_t n) {
  count++;
  if (failAt && count == failAt) return NULL;
  if (nb >= MAXB) abort();
  unsigned char *r = malloc(n + 32); memset(r, 0xA5, n + 32);
  b[nb].raw = r; b[nb].n = n; b[nb].freed = 0; nb++; live++;
  return r + 16;
}
static struct B *find(void *p) { for (int i = nb - 1; i >= 0; i--) if (b[i].raw && b[i].raw + 16 == (unsigned char *)p) return &b[i]; return NULL; }
static void bad(const char *m) { if (!errors++) snprintf(why, sizeof why, "%s", m); }
static void zones(struct B *x) { for (int i = 0; i < 16; i++) if (x->raw[i] != 0xA5 || x->raw[16 + x->n + i] != 0xA5) { bad("write outside an allocated block"); return; } }
void vct_free(void *p) {
  if (!p) return;
  struct B *x = find(p);
  if (!x) { bad("free of a pointer that was not allocated by the model or the runtime"); return; }
  if (x->freed) { bad("double free"); return; }
  zones(x); memset(x->raw + 16, 0xDD, x->n); x->freed = 1; live--;
}
void *vct_calloc(size_t a, size_t c) { void *p = vct_alloc(a * c); if (p) memset(p, 0, a * c); return p; }
char *vct_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = vct_alloc(n); if (p) memcpy(p, s, n); return p; }
void *vct_realloc(void *p, size_t n) {
  void *q = vct_alloc(n); if (!q) return NULL;
  if (p) { struct B *x = find(p); if (x) memcpy(q, p, x->n < n ? x->n : n); vct_free(p); }
  return q;
}
void *__wrap_malloc(size_t n) { return vct_alloc(n); }
void __wrap_free(void *p) { vct_free(p); }
void *__wrap_calloc(size_t a, size_t c) { return vct_calloc(a, c); }
void *__wrap_realloc(void *p, size_t n) { return vct_realloc(p, n); }
char *__wrap_strdup(const char *s) { return vct_strdup(s); }
long vct_live(void) { return live; }
long vct_count(void) { return count; }
void vct_fail_at(long n) { failAt = n ? count + n : 0; }
int vct_errors(void) { for (int i = 0; i < nb; i++) if (b[i].raw && !b[i].freed) zones(&b[i]); return errors; }
const char *vct_why(void) { return why; }
/* forget freed blocks (and leaks), clear errors */
void vct_reset(void) { int k = 0; for (int i = 0; i < nb; i++) { if (b[i].freed) free(b[i].raw); else b[k++] = b[i]; } nb = k; errors = 0; why[0] = 0; failAt = 0; }
void vct_dump(void) { for (int i = 0; i < nb; i++) if (b[i].raw && !b[i].freed) printf("live %zu bytes\n", b[i].n); fflush(stdout); }
char *__cxa_demangle(const char *, char *, size_t *, int *);
char *__wrap___cxa_demangle(const char *m, char *buf, size_t *n, int *st) { /* its result is released with free() */
  char *r = __cxa_demangle(m, NULL, NULL, st); if (!r) return NULL;
  char *c = vct_strdup(r); free(r); return c;
}
