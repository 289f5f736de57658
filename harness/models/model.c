/* a stand-in for a compiled model library; TAG and the NO_* macros select its exported symbols */
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "OnnxMlirRuntime.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(x) #x
#define STR(x) STR2(x)
#ifndef TAG
#define TAG
#endif
extern void vc_event(const char *what, const char *detail); /* in the harness */
static const char *const names[] = {"run_main_graph" STR(TAG), "run_second" STR(TAG), NULL};
__attribute__((constructor)) static void ctor(void) { const char *p = getenv("OM_CONSTANT_PATH"); vc_event("constants", p ? p : "(unset)"); }
#ifndef NO_QUERY
const char *const *CAT(omQueryEntryPoints, TAG)(int64_t *n) { if (n) *n = 2; return names; }
#endif
#ifndef NO_INSIG
const char *CAT(omInputSignature, TAG)(const char *e) { return !strcmp(e, names[0]) ? "[ { \"type\" : \"i64\" , \"dims\" : [2] , \"name\" : \"" STR(TAG) "in\" } ]" : !strcmp(e, names[1]) ? "[ { \"type\" : \"i64\" , \"dims\" : [3] , \"name\" : \"second\" } ]" : NULL; }
#endif
#ifndef NO_OUTSIG
const char *CAT(omOutputSignature, TAG)(const char *e) { return !strcmp(e, names[0]) ? "out main" STR(TAG) : !strcmp(e, names[1]) ? "out second" STR(TAG) : NULL; }
#endif
#ifndef NO_INFO
const char *CAT(omCompilationInfo, TAG)(void) { return "{info" STR(TAG) "}"; }
#endif
#ifndef NO_PRINT
void omInstrumentPrint(void) { vc_event("print", STR(TAG)); }
#endif
static OMTensorList *go(OMTensorList *in, int which) {
  OMTensor *t = omTensorListGetOmtByIndex(in, 0); int64_t cmd = ((int64_t *)omTensorGetDataPtr(t))[0];
  vc_event("run", which ? "second" STR(TAG) : "main" STR(TAG));
  switch (cmd) {
  case 1: errno = EPERM; return NULL;
  case 2: return NULL;
  case 10: *(volatile int *)0 = 1; break;
  case 11: raise(SIGSEGV); break;
  case 12: raise(SIGBUS); break;
  case 13: raise(SIGFPE); break;
  case 14: raise(SIGILL); break;
  case 15: abort();
  case 16: { volatile int z = 0; volatile int q = 7 / z; (void)q; break; }
  }
  int64_t sh[1] = {2}; OMTensor *o[2];
  for (int i = 0; i < 2; i++) { o[i] = omTensorCreateEmpty(sh, 1, ONNX_TYPE_INT64); int64_t *d = (int64_t *)omTensorGetDataPtr(o[i]); d[0] = cmd + 100 * which + i; d[1] = omTensorListGetSize(in); }
  errno = 7; /* left-overs must not count as errors */
  return omTensorListCreate(o, 2);
}
#ifndef NO_MAIN
OMTensorList *CAT(run_main_graph, TAG)(OMTensorList *in) { return go(in, 0); }
#endif
#ifdef ALIAS
OMTensorList *CAT(run_second, TAG)(OMTensorList *in) __attribute__((alias("run_main_graph" STR(TAG))));
#else
OMTensorList *CAT(run_second, TAG)(OMTensorList *in) { return go(in, 1); }
#endif
