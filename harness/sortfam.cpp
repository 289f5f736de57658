// C04 sort, C05 top-k, C06 unique: the real runtime functions on every input of the stated spaces.
#include "vc.hpp"
#include "OnnxMlirRuntime.h"
#include <cmath>
extern "C" {
void omTensorSort(OMTensor *, const OMTensor *, uint64_t, uint64_t);
void omTensorTopK(OMTensor *, const OMTensor *, uint64_t, uint64_t, uint64_t, uint64_t);
void omTensorUnique(OMTensor *, OMTensor *, OMTensor *, OMTensor *, OMTensor *, const OMTensor *, int64_t, uint64_t);
void omTensorUniqueCount(OMTensor *, const OMTensor *, int64_t, uint64_t);
typedef int(cmpT)(const void *, const void *, void *);
void quick_sort_custom(void *, size_t, size_t, cmpT, void *);
cmpT *getCompareFunction(uint64_t ascending, OM_DATA_TYPE dataType);
static bool G_wrapRand; static std::vector<int> G_pat; static int G_patPos; static long G_randCalls;
int __real_rand();
int __wrap_rand() {
  if (!G_wrapRand) return __real_rand();
  G_randCalls++;
  if (G_pat.empty()) return vc::choose(6); // r % len takes every residue for len <= 6
  return G_pat[G_patPos++ % G_pat.size()];
}
}
using I = std::vector<int64_t>;
typedef long double V;
struct Ty { int code; const char *nm; int sz; };
static const std::vector<Ty> TYPES = {{9, "bool", 1}, {2, "u8", 1}, {3, "i8", 1}, {4, "u16", 2}, {5, "i16", 2}, {12, "u32", 4}, {6, "i32", 4}, {13, "u64", 8}, {7, "i64", 8}, {1, "f32", 4}, {11, "f64", 8}, {10, "f16", 2}};
struct Val { uint64_t bits; V v; };
template <class T> static Val mk(T x) { Val r{0, (V)x}; memcpy(&r.bits, &x, sizeof x); return r; }
// value alphabets: extremes, neighbours of sign/width boundaries, signed zeroes
static std::vector<Val> alphabet(int code) {
  switch (code) {
  case 9: return {mk<uint8_t>(0), mk<uint8_t>(1)};
  case 2: return {mk<uint8_t>(0), mk<uint8_t>(127), mk<uint8_t>(128), mk<uint8_t>(255)};
  case 3: return {mk<int8_t>(-128), mk<int8_t>(-1), mk<int8_t>(0), mk<int8_t>(127)};
  case 4: return {mk<uint16_t>(0), mk<uint16_t>(255), mk<uint16_t>(32768), mk<uint16_t>(65535)};
  case 5: return {mk<int16_t>(-32768), mk<int16_t>(-1), mk<int16_t>(256), mk<int16_t>(32767)};
  case 12: return {mk<uint32_t>(0), mk<uint32_t>(65536), mk<uint32_t>(0x80000000u), mk<uint32_t>(0xffffffffu)};
  case 6: return {mk<int32_t>(INT32_MIN), mk<int32_t>(-1), mk<int32_t>(16777217), mk<int32_t>(INT32_MAX)};
  case 13: return {mk<uint64_t>(0), mk<uint64_t>(1ull << 53 | 1), mk<uint64_t>(1ull << 63), mk<uint64_t>(~0ull)};
  case 7: return {mk<int64_t>(INT64_MIN), mk<int64_t>(-1), mk<int64_t>((1ll << 53) + 1), mk<int64_t>(1ll << 53)};
  case 1: return {mk<float>(-INFINITY), mk<float>(-0.0f), mk<float>(0.0f), mk<float>(1e-40f), mk<float>(3.5f)};
  case 11: return {mk<double>(-1e300), mk<double>(-0.0), mk<double>(0.0), mk<double>(1 + 0x1p-52), mk<double>(1.0)};
  case 10: return {{0xfc00, -INFINITY}, {0x8000, 0}, {0x0001, 0x1p-24L}, {0x0000, 0}, {0x7bff, 65504}};
  }
  abort();
}
static std::string str(const I &v) { std::string s = "["; for (auto x : v) s += std::to_string(x) + ","; return s + "]"; }
static int64_t prod(const I &s) { int64_t p = 1; for (auto x : s) p *= x; return p; }
struct T { OMTensor *t; T(OMTensor *x) : t(x) {} ~T() { if (t) omTensorDestroy(t); } operator OMTensor *() { return t; } };
// exact-size buffer so AddressSanitizer sees any access outside
struct Buf { char *p; size_t n; Buf(size_t n) : p((char *)malloc(n ? n : 1)), n(n) { memset(p, 0xA5, n); } ~Buf() { free(p); } };
struct In {
  Ty ty; I shape; std::vector<Val> v; Buf b; T t;
  In(Ty ty, I s, std::vector<Val> vals) : ty(ty), shape(s), v(vals), b(vals.size() * ty.sz), t(nullptr) {
    for (size_t i = 0; i < v.size(); i++) memcpy(b.p + i * ty.sz, &v[i].bits, ty.sz);
    t.t = omTensorCreate(b.p, shape.data(), shape.size(), (OM_DATA_TYPE)ty.code);
    vc::note("%s tensor %s = %s", ty.nm, str(shape).c_str(), vals_().c_str());
    vc::state(vc::hash(b.p, b.n, vc::hash(str(shape)) * 31 + ty.code));
  }
  std::string vals_() { std::string s; for (auto &x : v) { char c[64]; snprintf(c, 64, "%.20Lg ", x.v); s += c; } return s; }
  void unmodified() { for (size_t i = 0; i < v.size(); i++) VC_CHECK(!memcmp(b.p + i * ty.sz, &v[i].bits, ty.sz), "input-modified", "element %zu of the input was modified", i); }
};
static std::vector<Val> vals(const std::vector<Val> &A, int n) { std::vector<Val> r; for (int i = 0; i < n; i++) r.push_back(vc::pick(A)); return r; }
// all rank-1 inputs (inner loop without choose for speed would hide states; sizes are kept small instead)
static std::vector<Val> distinct(int code, int n) { std::vector<Val> r; for (int i = 0; i < n; i++) { int x = i * 3 - 7; r.push_back(code == 1 ? mk<float>(x) : code == 7 ? mk<int64_t>(x) : mk<int32_t>(x)); } return r; }
static std::vector<uint64_t> ref(const std::vector<Val> &v, size_t off, int n, bool asc) {
  std::vector<uint64_t> o(n); for (int i = 0; i < n; i++) o[i] = i;
  std::stable_sort(o.begin(), o.end(), [&](uint64_t a, uint64_t b) { return asc ? v[off + a].v < v[off + b].v : v[off + a].v > v[off + b].v; });
  return o;
}
static std::string ostr(const uint64_t *p, int n) { std::string s; for (int i = 0; i < n; i++) s += std::to_string(p[i]) + " "; return s; }
struct Order {
  Buf b; T t; int n;
  Order(const I &s) : b(prod(s) * 8), t(omTensorCreate(b.p, s.data(), s.size(), ONNX_TYPE_INT64)), n(s.empty() ? 1 : s.back()) { for (int64_t i = 0; i < prod(s); i++) d()[i] = i % n; }
  uint64_t *d() { return (uint64_t *)b.p; }
};
static void checkSort(In &in, bool asc, bool custom) {
  Order o(in.shape); int n = o.n; vc::ctx("%s", in.ty.nm); vc::nontrivial(); vc::step();
  if (custom) quick_sort_custom(o.d(), n, 8, getCompareFunction(asc, (OM_DATA_TYPE)in.ty.code), in.b.p);
  else omTensorSort(o.t, in.t, in.shape.size() - 1, asc);
  in.unmodified();
  for (int64_t r = 0; n && r < prod(in.shape) / n; r++) {
    auto e = ref(in.v, r * n, n, asc);
    VC_CHECK(!memcmp(e.data(), o.d() + r * n, n * 8), custom ? "custom-order" : "order", "row %ld: order %s expected %s (%s)", (long)r, ostr(o.d() + r * n, n).c_str(), ostr(e.data(), n).c_str(), asc ? "ascending" : "descending");
  }
}
static Ty tyOf(int code) { for (auto &t : TYPES) if (t.code == code) return t; abort(); }
// every input of n values is enumerated inside one execution to amortise; the choice sequence names the block
static void forAll(const std::vector<Val> &A, int n, const std::function<void(std::vector<Val> &)> &f) {
  // the first up to 3 values are choices of the engine, the rest an inner odometer (also exhaustive)
  std::vector<Val> v(n); std::vector<size_t> ix(n, 0); int fixed = std::min(n, 2);
  for (int i = 0; i < fixed; i++) ix[i] = vc::choose(A.size());
  while (true) {
    for (int i = 0; i < n; i++) v[i] = A[ix[i]];
    vc::S->notelen = 0; vc::S->progress = vc::S->progress + 1;
    f(v);
    int i = n - 1; for (; i >= fixed; i--) { if (++ix[i] < A.size()) break; ix[i] = 0; }
    if (i < fixed) break;
  }
}
static void c04() {
  int mode = vc::choose(5); bool asc = vc::flip(); bool th = vc::thorough();
  if (mode == 0) { // all rank-1 inputs
    Ty ty = vc::pick(TYPES); int n = vc::choose(th ? 8 : 6); auto A = alphabet(ty.code);
    if (th && n > 6 && A.size() > 4) A.resize(4);
    forAll(A, n, [&](std::vector<Val> &v) { In in(ty, {n}, v); checkSort(in, asc, false); });
  } else if (mode == 1) { // higher ranks, empty dims
    Ty ty = tyOf(vc::pick({1, 7, 3, 10, 13})); I s = vc::pick(std::vector<I>{{2, 3}, {3, 1}, {1, 3}, {0, 3}, {3, 0}, {2, 1, 3}, {2, 2, 2}, {1, 2, 1, 3}, {2, 1, 1, 2, 2}, {2, 1, 1, 1, 1, 3}, {1, 2, 1, 2, 1, 2}, {1, 1, 1, 1, 0, 2}, {2, 0, 2, 1, 2, 1}});
    auto A = alphabet(ty.code); A = {A[0], A[1], A.back()};
    if (prod(s) > 6) A.resize(2);
    forAll(A, prod(s), [&](std::vector<Val> &v) { In in(ty, s, v); checkSort(in, asc, false); });
    // rows that differ from each other, so that a row mix-up shows
    if (prod(s)) { std::vector<Val> v; auto B = alphabet(ty.code); for (int64_t i = 0; i < prod(s); i++) v.push_back(B[(i * i + i / s.back()) % B.size()]); In in(ty, s, v); checkSort(in, asc, false); }
  } else if (mode == 2) { // all permutations of distinct values
    Ty ty = tyOf(vc::pick({1, 6})); int n = th ? 9 : 8; auto D = distinct(ty.code, n); std::vector<int> p(n); std::vector<int> rest;
    int a = vc::choose(n), b = vc::choose(n - 1); p[0] = a; for (int i = 0; i < n; i++) if (i != a) rest.push_back(i); p[1] = rest[b]; rest.erase(rest.begin() + b);
    do { for (int i = 2; i < n; i++) p[i] = rest[i - 2]; std::vector<Val> v; for (int x : p) v.push_back(D[x]); vc::S->notelen = 0; vc::S->progress = vc::S->progress + 1; In in(ty, {n}, v); checkSort(in, asc, false); } while (std::next_permutation(rest.begin(), rest.end()));
  } else if (mode == 3) { // the portable quick sort: every input x every pivot choice
    Ty ty = tyOf(vc::pick({6, 1})); int n = vc::choose(th ? 6 : 5); auto A = alphabet(ty.code); A.resize(3);
    std::vector<Val> v = vals(A, n); In in(ty, {n}, v);
    G_wrapRand = true; G_pat.clear();
    struct R { ~R() { G_wrapRand = false; } } r; checkSort(in, asc, true);
  } else { // larger inputs x pivot strategies: the explicit work stack must suffice
    static const std::vector<int> R = {0, 1, 2, -1, -2, -3, 7}; // -k: k-th from the end (applied modulo later through a large multiple)
    int n = 1 + vc::choose(th ? 200 : 80); int a = vc::pick(R), b = vc::pick(R);
    std::vector<Val> v; int pat = vc::choose(4); for (int i = 0; i < n; i++) v.push_back(mk<int32_t>(pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? i % 3 : (i * 37) % 101));
    In in(tyOf(6), {n}, v); G_wrapRand = true; // 232792560 = lcm(1..20): residue of -k is len-k for len<=20 and some fixed pivot beyond
    auto enc = [](int x) { return x >= 0 ? x : 232792560 * 9 + x; };
    G_pat = {enc(a), enc(b)}; G_patPos = 0; struct Q { ~Q() { G_wrapRand = false; } } q; checkSort(in, asc, true);
  }
}
static void checkTopK(In &in, bool asc, int k, bool sorted) {
  Order o(in.shape); int n = o.n; vc::nontrivial(); vc::step(); vc::ctx("%s", in.ty.nm);
  omTensorTopK(o.t, in.t, in.shape.size() - 1, asc, k, sorted); in.unmodified();
  for (int64_t r = 0; n && r < prod(in.shape) / n; r++) {
    auto e = ref(in.v, r * n, n, asc); e.resize(k); std::vector<uint64_t> g(o.d() + r * n, o.d() + r * n + k);
    if (!sorted) { std::sort(e.begin(), e.end()); std::sort(g.begin(), g.end()); }
    if (g == e) continue;
    bool valuesOk = true; { auto e2 = ref(in.v, r * n, n, asc); for (int i = 0; i < k; i++) valuesOk = valuesOk && g[i] < (uint64_t)n; std::vector<V> a, b; if (valuesOk) { for (int i = 0; i < k; i++) { a.push_back(in.v[r * n + e2[i]].v); b.push_back(in.v[r * n + g[i]].v); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); valuesOk = a == b; } }
    vc::fail(valuesOk ? "tie-break" : "values", "top %d %s of row %ld, sorted=%d: indices %s expected %s", k, asc ? "smallest" : "largest", (long)r, sorted, ostr(g.data(), k).c_str(), ostr(e.data(), k).c_str());
  }
}
static void c05() {
  int mode = vc::choose(3); bool asc = vc::flip(), sorted = vc::flip(), th = vc::thorough();
  if (mode == 0) { Ty ty = vc::pick(TYPES); int n = vc::choose(th ? 8 : 7); auto A = alphabet(ty.code); if (n > 5 && A.size() > (th ? 4u : 3u)) A.resize(th ? 4 : 3);
    forAll(A, n, [&](std::vector<Val> &v) { In in(ty, {n}, v); for (int k = 0; k <= n; k++) { vc::note("k=%d", k); checkTopK(in, asc, k, sorted); } });
  } else if (mode == 1) { // longer rows with ties: deeper heaps
    int n = 7 + vc::choose(th ? 6 : 4), k = 1 + vc::choose(n - 1); Ty ty = tyOf(6); int na = n <= 8 ? 3 : 2; std::vector<Val> A; for (int i = 0; i < na; i++) A.push_back(mk<int32_t>(i));
    forAll(A, n, [&](std::vector<Val> &v) { In in(ty, {n}, v); vc::note("k=%d", k); checkTopK(in, asc, k, sorted); });
  } else { Ty ty = tyOf(vc::pick({1, 7, 10})); I s = vc::pick(std::vector<I>{{2, 3}, {3, 2}, {0, 3}, {2, 0}, {2, 1, 3}, {1, 2, 1, 3}, {2, 1, 1, 1, 3}, {1, 1, 2, 1, 1, 3}, {2, 1, 1, 1, 1, 3}}); auto A = alphabet(ty.code); A = {A[0], A[1], A.back()}; int k = vc::choose(s.back() + 1);
    forAll(A, prod(s), [&](std::vector<Val> &v) { In in(ty, s, v); vc::note("k=%d", k); checkTopK(in, asc, k, sorted); });
  }
}
// ---- unique
static bool sameV(const Val &a, const Val &b) { return a.v == b.v; }
static void checkUnique(In &in, int axis, bool sorted, int outs, int absentStyle) {
  vc::nontrivial(); vc::step(2); vc::ctx("%s axis%s", in.ty.nm, axis < 0 ? "-none" : "");
  vc::note("axis=%d sorted=%d outputs: Y=%d indices=%d inverse=%d counts=%d, others %s", axis, sorted, outs & 1, !!(outs & 2), !!(outs & 4), !!(outs & 8), absentStyle ? "passed as empty tensors" : "null");
  const I &s = in.shape; int r = s.size();
  // slices as lists of flat indices
  std::vector<std::vector<int64_t>> sl;
  int64_t tot = prod(s);
  if (axis < 0) for (int64_t i = 0; i < tot; i++) sl.push_back({i});
  else { int64_t inner = 1; for (int i = axis + 1; i < r; i++) inner *= s[i]; int64_t outer = 1; for (int i = 0; i < axis; i++) outer *= s[i];
    for (int64_t a = 0; a < s[axis]; a++) { std::vector<int64_t> x; for (int64_t o = 0; o < outer; o++) for (int64_t j = 0; j < inner; j++) x.push_back((o * s[axis] + a) * inner + j); sl.push_back(x); } }
  auto eq = [&](size_t a, size_t b) { for (size_t i = 0; i < sl[a].size(); i++) if (!sameV(in.v[sl[a][i]], in.v[sl[b][i]])) return false; return true; };
  auto lt = [&](size_t a, size_t b) { for (size_t i = 0; i < sl[a].size(); i++) { V x = in.v[sl[a][i]].v, y = in.v[sl[b][i]].v; if (x != y) return x < y; } return false; };
  std::vector<int64_t> uniq; for (size_t i = 0; i < sl.size(); i++) { bool f = false; for (auto u : uniq) f = f || eq(u, i); if (!f) uniq.push_back(i); }
  if (sorted) std::stable_sort(uniq.begin(), uniq.end(), lt);
  int64_t n = uniq.size();
  // the compiler calls count first, then allocates the outputs
  Buf totb(8); I sc; T tt(omTensorCreate(totb.p, sc.data(), 0, ONNX_TYPE_INT64));
  omTensorUniqueCount(tt, in.t, axis, sorted); in.unmodified();
  VC_CHECK(*(int64_t *)totb.p == n, "count", "count is %ld, expected %ld", (long)*(int64_t *)totb.p, (long)n);
  I ys = s; if (axis < 0) ys = {n}; else ys[axis] = n; I ns = {n}, inv = {(int64_t)sl.size()}, none = {0};
  Buf yb(prod(ys) * in.ty.sz), ib(n * 8), vb(sl.size() * 8), cb(n * 8), eb(0);
  OMTensor *E = absentStyle ? omTensorCreate(eb.p, none.data(), 1, ONNX_TYPE_INT64) : nullptr; T keepE(E);
  T y(omTensorCreate(yb.p, ys.data(), ys.size(), (OM_DATA_TYPE)in.ty.code)), ii(omTensorCreate(ib.p, ns.data(), 1, ONNX_TYPE_INT64)), vv(omTensorCreate(vb.p, inv.data(), 1, ONNX_TYPE_INT64)), cc(omTensorCreate(cb.p, ns.data(), 1, ONNX_TYPE_INT64));
  omTensorUnique(tt, outs & 1 ? y.t : E, outs & 2 ? ii.t : E, outs & 4 ? vv.t : E, outs & 8 ? cc.t : E, in.t, axis, sorted); in.unmodified();
  VC_CHECK(*(int64_t *)totb.p == n, "total", "total is %ld, expected %ld", (long)*(int64_t *)totb.p, (long)n);
  int64_t *I_ = (int64_t *)ib.p, *V_ = (int64_t *)vb.p, *C_ = (int64_t *)cb.p;
  for (int64_t u = 0; u < n; u++) {
    int64_t cnt = 0; for (size_t i = 0; i < sl.size(); i++) if (eq(uniq[u], i)) { cnt++; if (outs & 4) VC_CHECK(V_[i] == u, "inverse", "inverse index %zu is %ld, expected %ld", i, (long)V_[i], (long)u); }
    if (outs & 2) VC_CHECK(I_[u] == uniq[u], "indices", "index %ld is %ld, expected %ld", (long)u, (long)I_[u], (long)uniq[u]);
    if (outs & 8) VC_CHECK(C_[u] == cnt, "counts", "count %ld is %ld, expected %ld", (long)u, (long)C_[u], (long)cnt);
    if (outs & 1) {
      int64_t inner = 1; if (axis >= 0) for (int i = axis + 1; i < r; i++) inner *= s[i];
      for (size_t j = 0; j < sl[uniq[u]].size(); j++) {
        int64_t at = axis < 0 ? u : ((int64_t)j / inner * n + u) * inner + j % inner;
        VC_CHECK(!memcmp(yb.p + at * in.ty.sz, &in.v[sl[uniq[u]][j]].bits, in.ty.sz), "Y", "Y element %ld (unique %ld) is wrong", (long)at, (long)u);
      }
    }
  }
}
static void c06() {
  int mode = vc::choose(2); bool sorted = vc::flip(), th = vc::thorough(); int outs = vc::choose(16), absent = vc::choose(2);
  if (absent && !(outs & 1)) vc::prune(); // the compiler always requests Y
  if (outs == 15 && absent) vc::prune(); if (!th && absent && outs != 1 && outs != 5 && outs != 11) vc::prune();
  if (mode == 0) { Ty ty = TYPES[vc::choose(11)]; int n = vc::choose(th ? 7 : 6); if (!th && n >= 4 && ty.code != 1 && ty.code != 7 && ty.code != 2) vc::prune(); auto A = alphabet(ty.code); if (n > 4) A.resize(std::min<size_t>(A.size(), th ? 4 : 2)); else if (!th && n > 3 && A.size() > 4) A.resize(4);
    forAll(A, n, [&](std::vector<Val> &v) { In in(ty, {n}, v); checkUnique(in, -1, sorted, outs, absent); if (n) checkUnique(in, 0, sorted, outs, absent); });
  } else { Ty ty = tyOf(vc::pick({1, 7, 3})); I s = vc::pick(std::vector<I>{{2, 2}, {3, 2}, {2, 3}, {1, 3}, {2, 0}, {0, 2}, {2, 2, 2}, {1, 3, 2}, {2, 1, 3}, {2, 1, 2, 2}, {1, 2, 1, 1, 3}, {2, 1, 1, 2, 1, 2}, {}}); int axis = (int)vc::choose(s.size() + 1) - 1;
    auto A = alphabet(ty.code); A = {A[0], A[1], A[2]}; if (prod(s) > (th ? 6 : 4)) A = {A[1], A[2]};
    if (ty.code == 1) A = {mk<float>(2), mk<float>(-0.0f), mk<float>(0.0f)};
    if (ty.code == 1 && prod(s) > 6) A = {mk<float>(-0.0f), mk<float>(0.0f), mk<float>(-1.0f)};
    forAll(A, prod(s), [&](std::vector<Val> &v) { In in(ty, s, v); checkUnique(in, axis, sorted, outs, absent); });
  }
}
int main(int argc, char **argv) {
  vc::Options o; o.splitDepth = 4; std::string m;
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--prop")) m = argv[i + 1];
  if (m == "C04") { o.rule = "an execution is non-trivial if a sort of at least one row was compared with the stable reference order"; return vc::main(argc, argv, o, c04); }
  if (m == "C05") { o.rule = "an execution is non-trivial if a top-k result was compared with the reference"; return vc::main(argc, argv, o, c05); }
  o.rule = "an execution is non-trivial if the outputs of a unique call were compared with the reference"; return vc::main(argc, argv, o, c06);
}
