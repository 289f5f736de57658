// C17 (C++ tensor helpers) and C03 (type table + printing, built twice: C and C++ runtime)
#include "vc.hpp"
#include "OnnxMlirRuntime.h"
#include "src/Runtime/OMTensorHelper.hpp"
#include <cmath>
#include <limits>
#include <typeinfo>
#include "src/Support/SmallFPConversion.h"
using I = std::vector<int64_t>;
static std::string str(const I &v) { std::string s = "["; for (auto x : v) s += std::to_string(x) + ","; return s + "]"; }
static I rowMajor(const I &s) { I t(s.size()); int64_t a = 1; for (int i = s.size() - 1; i >= 0; i--) { t[i] = a; a *= s[i]; } return t; }
static int64_t prod(const I &s) { int64_t p = 1; for (auto x : s) p *= x; return p; }
static I anyShape(int maxRank, int maxDim) { int r = vc::choose(maxRank + 1); I s; for (int i = 0; i < r; i++) s.push_back(vc::choose(maxDim + 1)); return s; }
static std::vector<I> indices(const I &s) { std::vector<I> r = {{}}; for (auto d : s) { std::vector<I> n; for (auto &x : r) for (int k = 0; k < d; k++) { n.push_back(x); n.back().push_back(k); } r = n; } return r; }
struct T { OMTensor *t; T(OMTensor *x) : t(x) {} ~T() { omTensorDestroy(t); } operator OMTensor *() { return t; } };

template <class E> void shapeOf(const I &s, int code, const char *nm) {
  vc::ctx("rank%zu", s.size());
  T t(omTensorCreateWithShape<E>(s)); vc::step();
  VC_CHECK(t.t, "create", "omTensorCreateWithShape<%s>(%s) failed", nm, str(s).c_str());
  VC_CHECK(omTensorGetRank(t) == (int)s.size(), "rank", "rank"); VC_CHECK((int)omTensorGetDataType(t) == code, "type", "%s has type code %d", nm, (int)omTensorGetDataType(t));
  I rm = rowMajor(s);
  for (size_t i = 0; i < s.size(); i++) { VC_CHECK(omTensorGetShape(t)[i] == s[i], "shape", "shape of %s", str(s).c_str()); VC_CHECK(omTensorGetStrides(t)[i] == rm[i], "strides", "strides of %s", str(s).c_str()); }
  VC_CHECK(omTensorGetOwning(t), "owning", "not owning"); VC_CHECK(omTensorGetBufferSize(t) == prod(s) * (int)sizeof(E), "bufsize", "buffer size of %s<%s>", nm, str(s).c_str());
  VC_CHECK(omTensorComputeStridesFromShape(t) == rm, "computeStrides", "computed strides of %s", str(s).c_str());
  memset(omTensorGetDataPtr(t), 1, prod(s) * sizeof(E)); // the whole buffer is ours
  auto idx = indices(s); auto got = omTensorComputeIndexSet(t);
  VC_CHECK(got == idx, "indexset", "index set of %s has %zu entries, expected %zu in row-major order", str(s).c_str(), got.size(), idx.size());
}
static void shapes() {
  I s = anyShape(4, 3); int k = vc::choose(11); vc::note("shape %s type %d", str(s).c_str(), k); vc::nontrivial(); vc::state(vc::hash(str(s)) * 31 + k);
  switch (k) { case 0: shapeOf<bool>(s, 9, "bool"); break; case 1: shapeOf<int8_t>(s, 3, "i8"); break; case 2: shapeOf<uint8_t>(s, 2, "u8"); break; case 3: shapeOf<int16_t>(s, 5, "i16"); break;
  case 4: shapeOf<uint16_t>(s, 4, "u16"); break; case 5: shapeOf<int32_t>(s, 6, "i32"); break; case 6: shapeOf<uint32_t>(s, 12, "u32"); break; case 7: shapeOf<int64_t>(s, 7, "i64"); break;
  case 8: shapeOf<uint64_t>(s, 13, "u64"); break; case 9: shapeOf<float>(s, 1, "f32"); break; case 10: shapeOf<double>(s, 11, "f64"); break; }
}
template <class E> void elem(const I &s, int code) {
  std::vector<E> buf(4 * 512); for (size_t i = 0; i < buf.size(); i++) buf[i] = (E)i;
  E *base = buf.data() + 1024;
  T t(omTensorCreate(base, s.data(), s.size(), (OM_DATA_TYPE)code));
  I st = rowMajor(s);
  int mode = vc::choose(4); // row-major, transposed, broadcast, negative
  if (mode == 1) { int64_t a = 1; for (size_t i = 0; i < s.size(); i++) { st[i] = a; a *= s[i]; } }
  if (mode == 2) for (size_t i = 0; i < s.size(); i++) if (i % 2 == 0) st[i] = 0;
  if (mode == 3) for (auto &x : st) x = -x;
  omTensorSetStrides(t, st.data()); vc::note("shape %s strides %s type %d", str(s).c_str(), str(st).c_str(), code); vc::nontrivial();
  for (auto &ix : indices(s)) {
    int64_t off = 0; for (size_t i = 0; i < ix.size(); i++) off += ix[i] * st[i];
    vc::step();
    VC_CHECK(omTensorComputeElemOffset(t, ix) == off, "offset", "offset of %s is %ld expected %ld", str(ix).c_str(), (long)omTensorComputeElemOffset(t, ix), (long)off);
    VC_CHECK(&omTensorGetElem<E>(t, ix) == base + off, "elem", "element %s addresses the wrong place", str(ix).c_str());
    if constexpr (!std::is_same_v<E, bool>) VC_CHECK(&omTensorGetElemByOffset<E>(t, off) == base + off, "elemoff", "element at offset %ld", (long)off);
  }
}
template <> void elem<bool>(const I &s, int code) {
  static bool buf[2048]; T t(omTensorCreate(buf + 1024, s.data(), s.size(), (OM_DATA_TYPE)code)); I st = rowMajor(s);
  for (auto &ix : indices(s)) { int64_t off = 0; for (size_t i = 0; i < ix.size(); i++) off += ix[i] * st[i]; VC_CHECK(&omTensorGetElem<bool>(t, ix) == buf + 1024 + off, "elem", "bool element"); }
}
static void elems() { I s = anyShape(4, 3); switch (vc::choose(5)) { case 0: elem<bool>(s, 9); break; case 1: elem<int32_t>(s, 6); break; case 2: elem<int64_t>(s, 7); break; case 3: elem<float>(s, 1); break; case 4: elem<double>(s, 11); } }
template <class E> void rnd(int code, std::vector<std::pair<double, double>> bounds) {
  auto b = vc::pick(bounds); I s = vc::pick(std::vector<I>{{}, {1}, {7}, {0, 3}, {2, 3, 4}, {64}}); unsigned seed = 1 + vc::choose(4);
  vc::note("random type %d bounds [%g,%g] shape %s seed %u", code, b.first, b.second, str(s).c_str(), seed); vc::nontrivial();
  omDefineSeed(seed, 1); T t(omTensorCreateWithRandomData(s, (OM_DATA_TYPE)code, b.first, b.second)); vc::step();
  VC_CHECK(t.t, "random-null", "random creation failed for type %d", code);
  VC_CHECK((int)omTensorGetDataType(t) == code && omTensorGetRank(t) == (int)s.size() && omTensorGetOwning(t), "random-meta", "random tensor metadata");
  for (size_t i = 0; i < s.size(); i++) VC_CHECK(omTensorGetShape(t)[i] == s[i], "random-shape", "shape");
  E *p = (E *)omTensorGetDataPtr(t); E lo = (E)b.first, hi = (E)b.second; std::set<E> seen;
  for (int64_t i = 0; i < prod(s); i++) { seen.insert(p[i]); VC_CHECK(p[i] >= lo && p[i] <= hi, "random-bounds", "type %d element %ld outside [%.17g,%.17g]: %.17g", code, (long)i, b.first, b.second, (double)p[i]); }
  if (prod(s) >= 24 && hi > lo) VC_CHECK(seen.size() > 1, "random-constant", "type %d: all elements equal although bounds differ", code);
  omDefineSeed(seed, 1); T u(omTensorCreateWithRandomData(s, (OM_DATA_TYPE)code, b.first, b.second));
  VC_CHECK(!memcmp(omTensorGetDataPtr(u), p, prod(s) * sizeof(E)), "random-seed", "type %d: same seed, different data", code);
}
static void randoms() {
  using P = std::vector<std::pair<double, double>>;
  switch (vc::choose(13)) {
  case 0: rnd<int8_t>(3, P{{-1, 1}, {-128, 127}, {5, 5}, {-128, -128}, {0, 127}}); break;
  case 1: rnd<uint8_t>(2, P{{0, 1}, {0, 255}, {200, 255}, {255, 255}}); break;
  case 2: rnd<int16_t>(5, P{{-1, 1}, {-32768, 32767}, {7, 7}}); break;
  case 3: rnd<uint16_t>(4, P{{0, 1}, {0, 65535}, {65000, 65535}}); break;
  case 4: rnd<int32_t>(6, P{{-1, 1}, {-2147483648.0, 2147483647.0}, {-5, -5}}); break;
  case 5: rnd<uint32_t>(12, P{{0, 1}, {0, 4294967295.0}, {3000000000.0, 4000000000.0}, {0, 3000000000.0}}); break;
  case 6: rnd<int64_t>(7, P{{-1, 1}, {-9223372036854775808.0, 9223372036854774784.0}, {1e15, 1e15 + 3}}); break;
  case 7: rnd<uint64_t>(13, P{{0, 1}, {0, 18446744073709549568.0}, {1e19, 1.1e19}, {0, 1e19}}); break;
  case 8: rnd<float>(1, P{{-1, 1}, {0, 0}, {-1e30, 1e30}, {5, 6}}); break;
  case 9: rnd<double>(11, P{{-1, 1}, {0, 0}, {-1e100, 1e100}, {5, 6}}); break;
  case 10: rnd<uint8_t>(9, P{{0, 1}, {0, 0}, {1, 1}}); break; // bool
  case 11: { auto b = vc::pick(P{{-1, 1}, {2, 2}, {-100, 100}, {0.5, 0.75}}); I s = vc::pick(std::vector<I>{{}, {7}, {0}, {30}}); vc::note("f16 random"); omDefineSeed(3, 1); T t(omTensorCreateWithRandomData(s, ONNX_TYPE_FLOAT16, b.first, b.second));
    VC_CHECK(t.t && omTensorGetDataType(t) == ONNX_TYPE_FLOAT16, "random-f16", "f16"); uint16_t *p = (uint16_t *)omTensorGetDataPtr(t); for (int64_t i = 0; i < prod(s); i++) { float f = om_f16_to_f32(p[i]); VC_CHECK(f >= b.first && f <= b.second, "random-bounds", "f16 element %g outside [%g,%g]", f, b.first, b.second); } vc::step(); break; }
  case 12: { auto b = vc::pick(P{{0, 63}, {5, 5}, {-3, 3}}); I s = vc::pick(std::vector<I>{{}, {7}, {0}, {2, 3}}); vc::note("string random"); omDefineSeed(3, 1); T t(omTensorCreateWithRandomData(s, ONNX_TYPE_STRING, b.first, b.second));
    VC_CHECK(t.t && omTensorGetDataType(t) == ONNX_TYPE_STRING, "random-str", "string"); const char **p = (const char **)omTensorGetDataPtr(t); for (int64_t i = 0; i < prod(s); i++) { int v = atoi(p[i]); VC_CHECK(std::to_string(v) == p[i] && v >= b.first && v <= b.second, "random-bounds", "string element %s outside [%g,%g]", p[i], b.first, b.second); } vc::step(); break; }
  }
}
template <class E> void sozCheck(const I &s, int code, int64_t n) {
  omDefineSeed(11, 1); T t(omTensorCreateSozData(s, (OM_DATA_TYPE)code, n)); vc::step();
  if (s.empty()) { VC_CHECK(!t.t, "soz-rank0", "rank 0 accepted"); return; }
  VC_CHECK(t.t && (int)omTensorGetDataType(t) == code && omTensorGetOwning(t), "soz-create", "soz creation type %d shape %s", code, str(s).c_str());
  E *p = (E *)omTensorGetDataPtr(t); int64_t in = s.back(), rows = in ? prod(s) / in : 0;
  for (int64_t r = 0; r < rows; r++) {
    int64_t ones = 0; while (ones < in && p[r * in + ones] == (E)1) ones++;
    for (int64_t k = ones; k < in; k++) VC_CHECK(p[r * in + k] == (E)0, "soz-zero", "type %d shape %s row %ld: element %ld not zero", code, str(s).c_str(), (long)r, (long)k);
    if (n >= 0) VC_CHECK(ones == std::min(n, in), "soz-count", "type %d shape %s row %ld has %ld leading ones, expected %ld", code, str(s).c_str(), (long)r, (long)ones, (long)std::min(n, in));
    else if (in > 1) VC_CHECK(ones >= 1 && ones <= in - 1, "soz-random", "type %d row %ld has %ld ones of %ld", code, (long)r, (long)ones, (long)in);
  }
}
static void soz() {
  I s = vc::pick(std::vector<I>{{}, {1}, {4}, {2, 3}, {3, 1}, {2, 2, 3}, {0, 3}, {2, 5}}); int64_t n = (int64_t)vc::choose(7) - 1; int c = vc::choose(11); vc::note("soz %s n=%ld type#%d", str(s).c_str(), (long)n, c); vc::nontrivial();
  if (n < 0 && !s.empty() && (s.back() < 2)) vc::prune();
  switch (c) { case 0: sozCheck<uint8_t>(s, 9, n); break; case 1: sozCheck<int8_t>(s, 3, n); break; case 2: sozCheck<uint8_t>(s, 2, n); break; case 3: sozCheck<int16_t>(s, 5, n); break; case 4: sozCheck<uint16_t>(s, 4, n); break;
  case 5: sozCheck<int32_t>(s, 6, n); break; case 6: sozCheck<uint32_t>(s, 12, n); break; case 7: sozCheck<int64_t>(s, 7, n); break; case 8: sozCheck<uint64_t>(s, 13, n); break; case 9: sozCheck<float>(s, 1, n); break; case 10: sozCheck<double>(s, 11, n); }
}
static void strbuf() {
  static const std::vector<std::string> al = {"", "a", "bc", "longer string"}; std::vector<std::string> v; int n = vc::choose(5); for (int i = 0; i < n; i++) v.push_back(vc::pick(al));
  vc::nontrivial(); vc::note("string buffer of %d", n); void *b = omTensorBuildStringBuffer(v); vc::step(); VC_CHECK(b, "strbuf-null", "null"); char **p = (char **)b; size_t tot = n * sizeof(char *);
  for (int i = 0; i < n; i++) { VC_CHECK(p[i] == (char *)b + tot, "strbuf-layout", "string %d not packed", i); VC_CHECK(v[i] == p[i], "strbuf-data", "string %d is '%s' expected '%s'", i, p[i], v[i].c_str()); tot += v[i].size() + 1; }
  free(b);
}
template <class E> void closeT(int code, const std::vector<E> &al, const std::vector<std::pair<float, float>> &tol) {
  I s = vc::pick(std::vector<I>{{1}, {2}, {}, {1, 3}}), s2 = s; auto tl = vc::pick(tol); int64_t n = prod(s);
  std::vector<E> a, b; for (int i = 0; i < n; i++) a.push_back(al[n > 2 ? (i * 3) % al.size() : vc::choose(al.size())]);
  for (int i = 0; i < n; i++) b.push_back(n > 2 ? a[i] : a[i]);
  // every single element of b takes every value
  if (n) { int k = vc::choose(n); b[k] = al[vc::choose(al.size())]; }
  bool sameShape = true; if (s.size() && vc::choose(8) == 0) { int how = vc::choose(2); if (how == 0) { s2.insert(s2.begin(), 1); sameShape = false; } else { s2[0] += 1; sameShape = false; b.resize(n * 3, 0); } }
  std::string d; for (int i = 0; i < n; i++) d += std::to_string(a[i]) + "/" + std::to_string(b[i]) + " "; vc::note("close type %d shapes %s %s values %s rtol %g atol %g", code, str(s).c_str(), str(s2).c_str(), d.c_str(), tl.first, tl.second); vc::nontrivial();
  bool exp = sameShape; if (sameShape) for (int i = 0; i < n; i++) { long double l = (long double)tl.first * std::fabs((long double)b[i]) + tl.second, df = std::fabs((long double)a[i] - (long double)b[i]); if (!(l >= df)) exp = false; }
  b.push_back(0); a.push_back(0);
  T ta(omTensorCreate(a.data(), s.data(), s.size(), (OM_DATA_TYPE)code)), tb(omTensorCreate(b.data(), s2.data(), s2.size(), (OM_DATA_TYPE)code)); vc::step();
  bool got = omTensorAreTwoOmtsClose<E>(ta, tb, tl.first, tl.second);
  VC_CHECK(got == exp, code == 1 || code == 11 ? "close-float" : "close-int", "closeness verdict %d, expected %d", got, exp);
}
static void closes() {
  using P = std::vector<std::pair<float, float>>; P tol = {{0, 0}, {0.25f, 0}, {0, 1.5f}, {0.5f, 2.0f}, {0, 3}};
  switch (vc::choose(4)) {
  case 0: closeT<float>(1, {0, -0.0f, 1, -1, 1.25f, 2, -2, 3, 100, 1e30f, -1e30f, std::numeric_limits<float>::quiet_NaN()}, tol); break;
  case 1: closeT<double>(11, {0, -0.0, 1, -1, 1.25, 2, -2, 3, 100, 1e100, -1e100, std::numeric_limits<double>::quiet_NaN()}, tol); break;
  case 2: closeT<int32_t>(6, {0, 1, -1, 2, -2, 3, 4, 5, 100, 130, -100, 1000000}, tol); break;
  case 3: closeT<int64_t>(7, {0, 1, -1, 2, -2, 3, 4, 5, 100, 130, -100, 1000000000000ll}, tol); break; }
}
#ifdef NO_CPP
#endif
int main(int argc, char **argv) {
  vc::Options o; o.splitDepth = 3; o.rule = "one execution = one helper call on one enumerated shape/type/bounds/value combination, compared with a naive reference";
  return vc::main(argc, argv, o, [] { switch (vc::choose(6)) { case 0: shapes(); break; case 1: elems(); break; case 2: randoms(); break; case 3: soz(); break; case 4: strbuf(); break; case 5: closes(); break; } });
}
