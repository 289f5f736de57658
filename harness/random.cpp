// C11: every history of generator calls to a depth; each call must depend on its own request only
#include "vc.hpp"
#include "OnnxMlirRuntime.h"
#include <cmath>
extern "C" {
void get_random_normal_value_f32(float *, long long, float, float, float); void get_random_normal_value_f64(double *, long long, double, double, double);
OMTensor *run_uniform_random_f32(OMTensor *, float, float, float); OMTensor *run_uniform_random_f64(OMTensor *, double, double, double); OMTensor *run_uniform_random(OMTensor *, float, float, float);
static int G_mode; static int G_ext; // 0 real rand, 1 constant extreme
int __real_rand(); int __wrap_rand() { static const int E[] = {0, 1, 2, 1 << 30, RAND_MAX - 64, RAND_MAX - 63, RAND_MAX - 1, RAND_MAX}; return G_mode ? E[G_ext >= 0 ? G_ext : vc::choose(8)] : __real_rand(); }
}
struct Req { int kind; int n; double a, b, seed; }; // kind: 0 normal f32, 1 normal f64, 2 uniform f32, 3 uniform f64, 4/5 generic f32/f64
static std::vector<double> call(const Req &q) {
  bool f64 = q.kind == 1 || q.kind == 3 || q.kind == 5; int sz = f64 ? 8 : 4; int guard = 16; char *raw = (char *)malloc(q.n * sz + 2 * guard); memset(raw, 0xEE, q.n * sz + 2 * guard); char *p = raw + guard;
  struct F { char *p; ~F() { free(p); } } fr{raw}; vc::step(); vc::ctx("kind%d", q.kind);
  if (q.kind == 0) get_random_normal_value_f32((float *)p, q.n, q.a, q.b, q.seed); else if (q.kind == 1) get_random_normal_value_f64((double *)p, q.n, q.a, q.b, q.seed);
  else { int64_t s2[2] = {q.n / 2, 2}, s1[1] = {q.n}; bool two = q.n % 2 == 0 && q.n; OMTensor *t = omTensorCreate(p, two ? s2 : s1, two ? 2 : 1, f64 ? ONNX_TYPE_DOUBLE : ONNX_TYPE_FLOAT);
    OMTensor *r = q.kind == 2 ? run_uniform_random_f32(t, q.a, q.b, q.seed) : q.kind == 3 ? run_uniform_random_f64(t, q.a, q.b, q.seed) : run_uniform_random(t, q.a, q.b, q.seed);
    VC_CHECK(r == t, "returned", "the generator does not return the output tensor"); omTensorDestroy(t); }
  for (int i = 0; i < guard; i++) VC_CHECK((unsigned char)raw[i] == 0xEE && (unsigned char)p[q.n * sz + i] == 0xEE, "overrun", "wrote outside the requested %d elements", q.n);
  std::vector<double> o; for (int i = 0; i < q.n; i++) { double v = f64 ? ((double *)p)[i] : ((float *)p)[i]; uint64_t bits = 0; memcpy(&bits, p + i * sz, sz); VC_CHECK(bits != (f64 ? 0xEEEEEEEEEEEEEEEEull : 0xEEEEEEEEull), "unfilled", "element %d of %d was not written", i, q.n); o.push_back(v); }
  for (int i = 0; i < q.n; i++) { VC_CHECK(std::isfinite(o[i]), "finite", "element %d is %g", i, o[i]);
    if (q.kind >= 2) { double lo = f64 ? q.a : (float)q.a, hi = f64 ? q.b : (float)q.b; if (q.kind == 5) { lo = (float)q.a; hi = (float)q.b; } VC_CHECK(o[i] >= lo && o[i] <= hi, "range", "uniform value %.17g outside [%g, %g]", o[i], lo, hi); }
    else VC_CHECK(std::fabs(o[i] - q.a) <= 7 * std::fabs(q.b) + 1e-5 * (1 + std::fabs(q.a)), "spread", "normal value %g is implausibly far from mean %g (deviation %g)", o[i], q.a, q.b); }
  return o;
}
static std::string rs(const Req &q) { char b[128]; static const char *n[] = {"normal_f32", "normal_f64", "uniform_f32", "uniform_f64", "uniform(f32)", "uniform(f64)"}; snprintf(b, 128, "%s n=%d (%g, %g) seed %g", n[q.kind], q.n, q.a, q.b, q.seed); return b; }
static Req pickReq(bool full) {
  int k = vc::choose(6); int n = full ? vc::pick({0, 1, 2, 3, 64}) : vc::pick({1, 6}); double seed = full ? vc::pick({0., 1., 2., 117., 16777215.}) : vc::pick({1., 117.});
  static const std::vector<std::pair<double, double>> U = {{0, 1}, {-5, 5}, {10, 10.5}, {3, 3}}, N = {{0, 1}, {100, 0.5}, {-3, 0}}; auto ab = full ? vc::pick(k < 2 ? N : U) : (k < 2 ? N : U)[0];
  return {k, n, ab.first, ab.second, seed};
}
static void body() {
  int mode = vc::choose(3); G_mode = 0; vc::nontrivial();
  if (mode == 0) { // histories: what ran before must not matter
    int depth = vc::thorough() ? 3 : 2; std::vector<Req> h; for (int i = 0; i < depth; i++) { h.push_back(pickReq(false)); vc::note("call %s", rs(h.back()).c_str()); }
    srand(99); std::vector<std::vector<double>> got; for (auto &q : h) got.push_back(call(q));
    for (size_t i = 0; i < h.size(); i++) { srand(4321); rand(); auto alone = call(h[i]); VC_CHECK(alone == got[i], (h[i].kind == 1 ? "seed:normal_f64" : "seed"), "%s gives other values after %zu earlier calls than alone", rs(h[i]).c_str(), i); vc::state(vc::hash(alone.data(), alone.size() * 8)); }
  } else if (mode == 1) { Req q = pickReq(true); vc::note("call %s", rs(q).c_str()); auto a = call(q); srand(5); auto b = call(q); VC_CHECK(a == b, (q.kind == 1 ? "seed:normal_f64" : "seed"), "%s is not reproducible", rs(q).c_str()); vc::state(vc::hash(a.data(), a.size() * 8));
    if (q.n == 64) { Req r = q; r.seed = q.seed + 1; if (q.seed != 0 && q.b != 0 && !(q.kind >= 2 && q.a == q.b)) VC_CHECK(call(r) != a, "seed-ignored", "%s: another seed gives the same values", rs(q).c_str());
      if (q.kind < 2 && q.b != 0) { double m = 0, s = 0; for (double x : a) m += x / 64; for (double x : a) s += (x - m) * (x - m) / 63; VC_CHECK(std::fabs(m - q.a) < 0.7 * q.b, "mean", "mean %g of %s", m, rs(q).c_str()); VC_CHECK(std::sqrt(s) > 0.6 * q.b && std::sqrt(s) < 1.5 * q.b, "deviation", "deviation %g of %s", std::sqrt(s), rs(q).c_str()); }
      if (q.kind >= 2 && q.b > q.a) { double lo = 1e300, hi = -1e300; for (double x : a) { lo = std::min(lo, x); hi = std::max(hi, x); } VC_CHECK(lo < q.a + (q.b - q.a) * 0.2 && hi > q.b - (q.b - q.a) * 0.2, "spread", "64 uniform values only span [%g, %g] of [%g, %g]", lo, hi, q.a, q.b); } }
    if (q.n >= 2) { Req r = q; r.n = q.n == 64 ? 3 : 1; auto c = call(r); for (int i = 0; i < r.n; i++) VC_CHECK(c[i] == a[i], "prefix", "%s: a shorter request is not a prefix of the longer one", rs(q).c_str()); }
  } else { // every outcome of rand() among its extremes
    Req q = pickReq(true); q.n = std::min(q.n, 2); vc::note("call %s under chosen rand() outcomes", rs(q).c_str()); G_mode = 1; G_ext = -1; struct R { ~R() { G_mode = 0; } } r; auto a = call(q); vc::state(vc::hash(a.data(), a.size() * 8)); }
}
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 3; o.rule = "an execution is non-trivial if at least one generator call was checked"; return vc::main(argc, argv, o, body); }
