/* stand-in model for the Python interface: records the tensors it receives, returns the tensors it was told to */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "OnnxMlirRuntime.h"
extern void *__real_malloc(size_t); extern void __real_free(void *); /* bookkeeping outside the tracked heap */
#define API __attribute__((visibility("default")))
static struct In { int type; int64_t rank, shape[8], strides[8], n, esize; unsigned char *lin, *str; size_t linN; } ins[8];
static int64_t nin = -1;
static struct Out { int type, mode, arg; int64_t rank, shape[8]; unsigned char *data; int64_t nbytes; } outs[8];
static int nout; static char sig[4096] = "[]";
static unsigned char statics[8][4096];
API void echo_reset(void) { for (int i = 0; i < nin; i++) { __real_free(ins[i].lin); __real_free(ins[i].str); } nin = -1; for (int i = 0; i < nout; i++) __real_free(outs[i].data); nout = 0; }
API void echo_out(int type, int64_t rank, const int64_t *shape, const void *data, int64_t nbytes, int mode, int arg) {
  struct Out *o = &outs[nout++]; o->type = type; o->mode = mode; o->arg = arg; o->rank = rank; memcpy(o->shape, shape, 8 * rank); o->data = __real_malloc(nbytes + 1); memcpy(o->data, data, nbytes); o->nbytes = nbytes;
}
API void echo_sig(const char *s) { strncpy(sig, s, sizeof sig - 1); }
API int64_t echo_nin(void) { return nin; }
API int echo_type(int i) { return ins[i].type; }
API int64_t echo_rank(int i) { return ins[i].rank; }
API int64_t *echo_shape(int i) { return ins[i].shape; }
API int64_t echo_n(int i) { return ins[i].linN; }
API void *echo_lin(int i) { return ins[i].lin; }
API void *echo_str(int i) { return ins[i].str; }
static void grab(struct In *x, OMTensor *t) {
  memset(x, 0, sizeof *x); x->type = omTensorGetDataType(t); x->rank = omTensorGetRank(t); int64_t n = 1;
  for (int i = 0; i < x->rank; i++) { x->shape[i] = omTensorGetShape(t)[i]; x->strides[i] = omTensorGetStrides(t)[i]; n *= x->shape[i]; }
  x->n = n; unsigned char *d = omTensorGetDataPtr(t); int64_t es = n ? omTensorGetBufferSize(t) / n : 1; size_t tot = 0;
  if (x->type == ONNX_TYPE_STRING) { for (int64_t k = 0; k < n; k++) tot += strlen(((char **)d)[k]) + 1; } else tot = n * es;
  x->lin = __real_malloc(tot + 1); x->str = __real_malloc(tot + 1); x->linN = tot; unsigned char *w = x->lin, *v = x->str;
  for (int64_t k = 0; k < n; k++) { /* k-th element in row-major order: linear, and by strides */
    int64_t off = 0, r = k; for (int i = x->rank - 1; i >= 0; i--) { off += (r % x->shape[i]) * x->strides[i]; r /= x->shape[i]; }
    if (x->type == ONNX_TYPE_STRING) {
      const char *s = ((char **)d)[k]; memcpy(w, s, strlen(s) + 1); w += strlen(s) + 1;
      if (off >= 0 && off < n) { s = ((char **)d)[off]; if (v + strlen(s) + 1 <= x->str + tot) { memcpy(v, s, strlen(s) + 1); v += strlen(s) + 1; } }
    } else {
      memcpy(w, d + k * es, es); w += es;
      if (off >= 0 && off < n) memcpy(v, d + off * es, es); else memset(v, 0xEE, es);
      v += es;
    }
  }
}
static OMTensor *made[8];
static void *fillbuf(struct Out *o, unsigned char *p) { /* strings: nbytes of NUL-terminated strings, laid out behind a pointer array */
  if (o->type != ONNX_TYPE_STRING) { memcpy(p, o->data, o->nbytes); return p; }
  int64_t n = 1; for (int i = 0; i < o->rank; i++) n *= o->shape[i];
  char *s = (char *)p + 8 * n; memcpy(s, o->data, o->nbytes);
  for (int64_t i = 0; i < n; i++) { ((char **)p)[i] = s; s += strlen(s) + 1; }
  return p;
}
static size_t bufsize(struct Out *o) { int64_t n = 1; for (int i = 0; i < o->rank; i++) n *= o->shape[i]; return o->nbytes + (o->type == ONNX_TYPE_STRING ? 8 * n : 0); }
API OMTensorList *run_main_graph(OMTensorList *in) {
  memset(statics, 0xEE, sizeof statics); /* a constant of the previous run may not be referred to any more by arrays */
  nin = omTensorListGetSize(in); for (int i = 0; i < nin; i++) grab(&ins[i], omTensorListGetOmtByIndex(in, i));
  OMTensor **arr = malloc(sizeof(OMTensor *) * (nout + 1));
  for (int i = 0; i < nout; i++) {
    struct Out *o = &outs[i]; OMTensor *t = NULL;
    if (o->mode == 7 || o->mode == 8) { free(arr); return NULL; }
    switch (o->mode) {
    case 0: t = omTensorCreateWithOwnership(fillbuf(o, malloc(bufsize(o) + 1)), o->shape, o->rank, o->type, 1); break;
    case 1: { unsigned char *a = malloc(bufsize(o) + 48); unsigned char *d = fillbuf(o, a + 16); t = omTensorCreateWithOwnership(a, o->shape, o->rank, o->type, 0); omTensorSetDataPtr(t, 1, a, d); break; }
    case 2: t = omTensorCreateWithOwnership(fillbuf(o, statics[i]), o->shape, o->rank, o->type, 0); break;
    case 3: t = omTensorCreateWithOwnership(omTensorGetAllocatedPtr(made[o->arg]), o->shape, o->rank, o->type, 0); omTensorSetDataPtr(t, 1, omTensorGetAllocatedPtr(made[o->arg]), omTensorGetDataPtr(made[o->arg])); break;
    case 4: t = omTensorCreateWithOwnership(omTensorGetDataPtr(omTensorListGetOmtByIndex(in, o->arg)), o->shape, o->rank, o->type, 0); break;
    case 5: t = omTensorCreateWithOwnership(omTensorGetAllocatedPtr(made[o->arg]), o->shape, o->rank, o->type, 0); omTensorSetDataPtr(t, 1, omTensorGetAllocatedPtr(made[o->arg]), (char *)omTensorGetDataPtr(made[o->arg]) + outs[o->arg].nbytes - o->nbytes); break;
    case 6: t = NULL; break;
    }
    made[i] = t; arr[i] = t;
  }
  OMTensorList *l = omTensorListCreate(arr, nout); free(arr); return l;
}
static const char *const names[] = {"run_main_graph", NULL};
API const char *const *omQueryEntryPoints(int64_t *n) { if (n) *n = 1; return names; }
API const char *omInputSignature(const char *e) { (void)e; return sig; }
API const char *omOutputSignature(const char *e) { (void)e; return "out sig"; }
API const char *omCompilationInfo(void) { return "{}"; }
#define AL(r, n, p) API r n##_echo p __attribute__((alias(#n)))
AL(OMTensorList *, run_main_graph, (OMTensorList *));
AL(const char *const *, omQueryEntryPoints, (int64_t *)); AL(const char *, omInputSignature, (const char *)); AL(const char *, omOutputSignature, (const char *)); AL(const char *, omCompilationInfo, (void));
