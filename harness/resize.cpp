// C07: the runtime resize against the ONNX definition (half_pixel, round_prefer_floor, cubic A=-0.75, edge clamping)
#include "vc.hpp"
#include "OnnxMlirRuntime.h"
#include <cmath>
extern "C" { void Resize_Scales(OMTensor *, OMTensor *, OMTensor *, char *, char *); void Resize_Size(OMTensor *, OMTensor *, OMTensor *, char *, char *); }
typedef long double D; using I = std::vector<int64_t>;
static std::string str(const I &v) { std::string s = "["; for (auto x : v) s += std::to_string(x) + ","; return s + "]"; }
static int64_t prod(const I &s) { int64_t p = 1; for (auto x : s) p *= x; return p; }
// weights of the input positions for one output coordinate of one axis
struct W { std::vector<std::pair<int64_t, D>> w, alt; };
static int64_t clampi(int64_t i, int64_t n) { return i < 0 ? 0 : i >= n ? n - 1 : i; }
static W axisWeights(int mode, int64_t x, D scale, int64_t n, bool exact) {
  D xo = ((D)x + 0.5L) / scale - 0.5L; int64_t f = (int64_t)floorl(xo); D r = xo - f; W o;
  if (mode == 0) { int64_t i = r <= 0.5L ? f : f + 1; o.w = {{clampi(i, n), 1}}; if (!exact && fabsl(r - 0.5L) < 1e-5L) o.alt = {{clampi(r <= 0.5L ? f + 1 : f, n), 1}}; }
  else if (mode == 1) o.w = {{clampi(f, n), 1 - r}, {clampi(f + 1, n), r}};
  else { D A = -0.75L; auto k = [&](D t) -> D { t = fabsl(t); return t <= 1 ? ((A + 2) * t - (A + 3)) * t * t + 1 : t < 2 ? ((A * t - 5 * A) * t + 8 * A) * t - 4 * A : 0; };
    for (int j = -1; j <= 2; j++) o.w.push_back({clampi(f + j, n), k(r - j)}); }
  return o;
}
static const char *MODES[] = {"nearest", "linear", "cubic"};
static float *dup(const std::vector<float> &v) { float *p = (float *)malloc(v.size() * 4 + !v.size()); memcpy(p, v.data(), v.size() * 4); return p; }
static void run(int mode, bool sizes, const I &in, const I &outI, const std::vector<float> &sc, int pattern) {
  int r = in.size(); I out = outI; bool exact = true;
  if (!sizes) for (int i = 0; i < r; i++) { float p = sc[i] * (float)in[i]; int64_t e = (int64_t)floorl((D)sc[i] * in[i]); out[i] = (int64_t)p; if (e != out[i]) vc::prune(); if (out[i] < 1) vc::prune(); }
  std::vector<D> scale(r); for (int i = 0; i < r; i++) { scale[i] = sizes ? (D)out[i] / in[i] : (D)sc[i]; int e; D m = frexpl(scale[i], &e); if (m != 0.5L) exact = false; }
  vc::note("%s %s input %s output %s pattern %d", MODES[mode], sizes ? "sizes" : "scales", str(in).c_str(), str(out).c_str(), pattern);
  vc::ctx("%s-%s-rank%d", MODES[mode], sizes ? "sizes" : "scales", r); vc::step(); vc::nontrivial(); vc::state(vc::hash(vc::S->note, vc::S->notelen));
  std::vector<float> d(prod(in)); for (size_t i = 0; i < d.size(); i++) d[i] = pattern == 0 ? (float)(int)((i * 7 + 3) % 11) - 4 : pattern == 1 ? (float)(i * i % 97) : (i % 2 ? 1 : -1);
  float *data = dup(d), *od = (float *)malloc(prod(out) * 4 + 1); I rs = {r};
  OMTensor *t = omTensorCreate(data, in.data(), r, ONNX_TYPE_FLOAT), *o = omTensorCreate(od, out.data(), r, ONNX_TYPE_FLOAT), *p; void *pd;
  if (sizes) { int64_t *q = (int64_t *)malloc(r * 8); memcpy(q, out.data(), r * 8); pd = q; p = omTensorCreate(q, rs.data(), 1, ONNX_TYPE_INT64); Resize_Size(o, t, p, (char *)MODES[mode], (char *)"round_prefer_floor"); }
  else { float *q = dup(sc); pd = q; p = omTensorCreate(q, rs.data(), 1, ONNX_TYPE_FLOAT); Resize_Scales(o, t, p, (char *)MODES[mode], (char *)"round_prefer_floor"); }
  struct F { void *a, *b, *c; OMTensor *x, *y, *z; ~F() { omTensorDestroy(x); omTensorDestroy(y); omTensorDestroy(z); free(a); free(b); free(c); } } fr{data, od, pd, t, o, p};
  for (size_t i = 0; i < d.size(); i++) VC_CHECK(data[i] == d[i], "input-modified", "input element %zu modified", i);
  if (sizes) for (int i = 0; i < r; i++) VC_CHECK(((int64_t *)pd)[i] == out[i], "input-modified", "sizes modified"); else for (int i = 0; i < r; i++) VC_CHECK(((float *)pd)[i] == sc[i], "input-modified", "scales modified");
  std::vector<std::vector<W>> aw(r); for (int i = 0; i < r; i++) for (int64_t x = 0; x < out[i]; x++) aw[i].push_back(axisWeights(mode, x, scale[i], in[i], exact));
  I ix(r, 0);
  for (int64_t k = 0; k < prod(out); k++) {
    std::vector<D> want; int na = 0; for (int i = 0; i < r; i++) if (!aw[i][ix[i]].alt.empty()) na++;
    for (int mask = 0; mask < (1 << na); mask++) {
      std::vector<std::pair<int64_t, D>> acc = {{0, 1}}; int a = 0;
      for (int i = 0; i < r; i++) { auto &w = aw[i][ix[i]]; auto *use = &w.w; if (!w.alt.empty()) { if (mask >> a & 1) use = &w.alt; a++; } std::vector<std::pair<int64_t, D>> n; for (auto &x : acc) for (auto &y : *use) if (y.second != 0) n.push_back({x.first * in[i] + y.first, x.second * y.second}); acc = n; }
      D s = 0; for (auto &x : acc) s += d[x.first] * x.second; want.push_back(s);
    }
    bool ok = false; for (D w : want) ok = ok || fabsl(od[k] - w) <= 2e-3L;
    VC_CHECK(ok, MODES[mode], "output %s (flat %ld) is %.9g, the definition gives %.9Lg", str(ix).c_str(), (long)k, od[k], want[0]);
    for (int i = r - 1; i >= 0; i--) { if (++ix[i] < out[i]) break; ix[i] = 0; }
  }
}
static const std::vector<float> SC = {0.25f, 0.34f, 0.5f, 0.6f, 0.8f, 1.0f, 1.25f, 1.5f, 5.0f / 3, 2.0f, 2.3f, 2.5f, 3.0f, 7.0f / 3, 4.0f};
static void body() {
  int mode = vc::choose(3); bool sizes = vc::flip(); int space = vc::choose(4); bool th = vc::thorough(); I in, out; std::vector<float> sc;
  auto axis = [&](int maxIn, int maxOut, size_t scn) { in.push_back(1 + vc::choose(maxIn)); if (sizes) { out.push_back(1 + vc::choose(maxOut)); sc.push_back(0); } else { out.push_back(0); sc.push_back(scn ? SC[(vc::choose(scn) * 5 + 2) % SC.size()] : vc::pick(SC)); } };
  auto unit = [&](int n) { in.push_back(n); out.push_back(n); sc.push_back(1.0f); };
  int pat = 0;
  if (space == 0) { pat = vc::choose(3); axis(th ? 40 : 16, th ? 60 : 24, 0); }
  else if (space == 1) { axis(5, 7, 0); axis(th ? 5 : 3, 4, 7); }
  else if (space == 2) { unit(1 + vc::choose(2)); unit(1 + vc::choose(2)); axis(th ? 4 : 3, 5, th ? 0 : 7); axis(3, 4, 5); }
  else { int r = vc::pick({3, 4, 5}); bool all = vc::flip(); for (int i = 0; i < r; i++) { if (all && i < 4) axis(2, 2, 3); else if (!all && i == (int)vc::choose(1) + r - 1) axis(6, 9, 0); else unit(2); } }
  run(mode, sizes, in, out, sc, pat);
}
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 4; o.rule = "an execution is non-trivial if the resize ran and every output element was compared"; return vc::main(argc, argv, o, body); }
