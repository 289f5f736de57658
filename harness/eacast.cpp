// C21: casts of constants between every pair (and triple) of element types against an independent definition.
#include "eab.hpp"
static Env E;
struct F { BType t; int mant, bias, bits, kind; };
static const F FM[] = {{BType::FLOAT16, 10, 15, 16, 0}, {BType::BFLOAT16, 7, 127, 16, 0}, {BType::FLOAT, 23, 127, 32, 0}, {BType::DOUBLE, 52, 1023, 64, 0}, {BType::FLOAT8E4M3FN, 3, 7, 8, 1}, {BType::FLOAT8E4M3FNUZ, 3, 8, 8, 2}, {BType::FLOAT8E5M2, 2, 15, 8, 0}, {BType::FLOAT8E5M2FNUZ, 2, 16, 8, 2}};
static const F &fm(BType t) { for (auto &f : FM) if (f.t == t) return f; abort(); }
static LD maxOf(BType t) { const F &f = fm(t); int emaxcode = (1 << (f.bits - 1 - f.mant)) - 1; if (f.kind == 0) return std::ldexp((LD)2 - std::ldexp((LD)1, -f.mant), emaxcode - 1 - f.bias); if (f.kind == 1) return std::ldexp((LD)2 - 2 * std::ldexp((LD)1, -f.mant), emaxcode - f.bias); return std::ldexp((LD)2 - std::ldexp((LD)1, -f.mant), emaxcode - f.bias); }
static LD toFP(BType t, LD x) { const F &f = fm(t); if (std::isnan(x)) return x; if (std::isinf(x)) return f.kind ? (LD)NAN : x; LD a = std::fabs(x); if (a == 0) return 0; int e = std::max(std::ilogb(a), 1 - f.bias); LD q = std::nearbyint(std::ldexp(a, f.mant - e)), v = std::ldexp(q, e - f.mant); if (v > maxOf(t)) v = f.kind ? (LD)NAN : (LD)INFINITY; return std::copysign(v, x); }
static bool isS(BType t) { return isSignedIntBType(t); }
static LD wrap(BType t, LD x) { // x: integer in [-2^63, 2^64)
  uint64_t u = x < 0 ? (uint64_t)(int64_t)x : (uint64_t)x; int w = bitwidthOfBType(t); if (w < 64) u &= ((uint64_t)1 << w) - 1; if (isS(t) && u >> (w - 1)) return (LD)(int64_t)(w < 64 ? u | ~(((uint64_t)1 << w) - 1) : u); return (LD)u; }
static LD fpToInt(BType t, LD x, bool round) { if (std::isnan(x)) return 0; int w = bitwidthOfBType(t); LD lo = isS(t) ? -std::ldexp((LD)1, w - 1) : 0, hi = std::ldexp((LD)1, isS(t) ? w - 1 : w) - 1; LD r = round ? std::nearbyint(x) : std::trunc(x); return r < lo ? lo : r > hi ? hi : r + 0; }
struct Cast { BType to; int mode; }; // mode 0: default; 1: the other choice (truncate / saturate)
// the wide value (not yet narrowed to the target) of a wide value
static LD wideStep(BType from, const Cast &c, LD x) {
  if (c.to == BType::BOOL) return std::isnan(x) || x != 0;
  if (isIntBType(c.to)) { if (isFloatBType(from)) return fpToInt(c.to, x, c.mode == 0); return isS(c.to) ? wrap(BType::INT64, x) : wrap(BType::UINT64, x); }
  if (c.mode == 1) { LD m = maxOf(c.to); return x <= -m ? -m : x >= m ? m : x; }
  return x; }
static LD narrowTo(BType t, LD x, int how) { if (t == BType::BOOL) return x != 0; if (isIntBType(t)) return wrap(t, x); if (how >= 1) x = (LD)(double)x; if (how >= 2) x = (LD)(float)(double)x; return toFP(t, x); }
static bool same(LD a, LD b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static const std::vector<BType> ALL{BType::FLOAT, BType::UINT8, BType::INT8, BType::UINT16, BType::INT16, BType::INT32, BType::INT64, BType::BOOL, BType::FLOAT16, BType::DOUBLE, BType::UINT32, BType::UINT64, BType::BFLOAT16, BType::FLOAT8E4M3FN, BType::FLOAT8E4M3FNUZ, BType::FLOAT8E5M2, BType::FLOAT8E5M2FNUZ};
static std::vector<LD> values(BType t, bool full) {
  std::set<LD> s; auto put = [&](LD x) { if (t == BType::BOOL) { if (x == 0 || x == 1) s.insert(x); } else if (isIntBType(t)) { LD r = std::trunc(x); if (r >= -std::ldexp((LD)1, 63) && r < std::ldexp((LD)1, 64) && wrap(t, r) == r) s.insert(r); } else { LD r = toFP(t, x); if (!std::isnan(r)) s.insert(r); } };
  for (LD b : {(LD)0, (LD)1, (LD)2, (LD)3, (LD)5, (LD)7, (LD)9, (LD)17, (LD)19, (LD)100}) for (LD d : {(LD)0, (LD).5, (LD).25, (LD).75, (LD)1e-3}) { put(b + d); put(-b - d); }
  for (int e : {7, 8, 15, 16, 24, 25, 31, 32, 53, 54, 62, 63, 64}) for (LD d : {(LD)-2, (LD)-1, (LD)-.5, (LD)0, (LD).5, (LD)1, (LD)3}) { put(std::ldexp((LD)1, e) + d); put(-std::ldexp((LD)1, e) + d); }
  for (auto &f : FM) { LD m = maxOf(f.t), u = std::ldexp((LD)1, std::ilogb(m) - f.mant); for (LD k : {(LD)-1, (LD)0, (LD).25, (LD).5, (LD).75, (LD)1, (LD)2}) { put(m + k * u); put(-m - k * u); } LD q = std::ldexp((LD)1, 1 - f.bias - f.mant); for (LD k : {(LD).25, (LD).5, (LD).75, (LD)1, (LD)1.5, (LD)2.5, (LD)3}) { put(k * q); put(-k * q); } LD one = 1; for (LD k : {(LD).5, (LD).51, (LD)1, (LD)1.5}) put(one + k * std::ldexp((LD)1, -f.mant)); }
  std::vector<LD> v(s.begin(), s.end()); if (isFloatBType(t)) { v.push_back(NAN); if (!fm(t).kind) { v.push_back(INFINITY); v.push_back(-INFINITY); } }
  if (full && bitwidthOfBType(t) <= 16 && t != BType::BOOL) { v.clear(); int w = bitwidthOfBType(t); for (uint32_t c = 0; c < 1u << w; c++) { if (isIntBType(t)) v.push_back(wrap(t, c)); else v.push_back(dispatchByBType(t, [&](auto bt) -> LD { using X = CppType<bt>; X x; memcpy((void *)&x, &c, sizeof x); return num(bt, x); })); } }
  return v;
}
static ElementsAttr castWith(ElementsAttrBuilder &b, ElementsAttr e, const Cast &c, bool generic) { Type T = mlirTypeOfBType(c.to, e.getContext()); if (generic) return b.castElementType(e, T); if (auto i = mlir::dyn_cast<IntegerType>(T)) return b.castToIntElementType(e, i, c.mode == 0); return b.castToFPElementType(e, mlir::cast<FloatType>(T), c.mode == 1); }
// compares every element with any of the accepted values: adopts what was read, so that verify() then demands the same of every access path
static void expect(ElementsAttr e, BType t, const V &shape, const std::vector<std::vector<LD>> &ok, const std::vector<LD> &from, const char *what) {
  VC_CHECK(e && btypeOfMlirType(e.getElementType()) == t, "type", "%s has type %s", what, tn(btypeOfMlirType(e.getElementType())));
  auto d = ElementsAttrBuilder::toDenseElementsAttr(e); Ten r{t, shape, {}};
  if (isFloatBType(t)) for (APFloat f : d.getValues<APFloat>()) r.v.push_back(WideNum::fromAPFloat(f).dbl); else for (APInt i : d.getValues<APInt>()) r.v.push_back(isS(t) ? (LD)i.getSExtValue() : (LD)i.getZExtValue());
  VC_CHECK(r.v.size() == ok.size(), "count", "%s: %zu elements", what, r.v.size());
  for (size_t i = 0; i < ok.size(); i++) { bool hit = false; for (LD x : ok[i]) hit = hit || same(x, r.v[i]); VC_CHECK(hit, "value", "%s: %.20Lg becomes %.20Lg instead of %.20Lg", what, from[i], r.v[i], ok[i][0]); vc::step(); }
  // other access paths; the wide ones may hold the untruncated number
  { std::vector<LD> g; if (isFloatBType(t)) { for (APFloat f : e.getValues<APFloat>()) g.push_back(WideNum::fromAPFloat(f).dbl); } else for (APInt x : e.getValues<APInt>()) g.push_back(isS(t) ? (LD)x.getSExtValue() : (LD)x.getZExtValue()); for (size_t i = 0; i < g.size(); i++) VC_CHECK(same(g[i], r.v[i]), "paths", "%s: getValues gives %.20Lg but the dense constant holds %.20Lg", what, g[i], r.v[i]); }
  if (t == BType::FLOAT8E4M3FN || t == BType::FLOAT8E4M3FNUZ || t == BType::FLOAT8E5M2 || t == BType::FLOAT8E5M2FNUZ) return;
  dispatchByBType(t, [&](auto bt) { using X = CppType<bt>; auto a = getElementsArray<X>(e); for (size_t i = 0; i < r.v.size(); i++) VC_CHECK(same(num(bt, a.get()[i]), r.v[i]), "paths", "%s: getElementsArray gives %.20Lg but the dense constant holds %.20Lg", what, num(bt, a.get()[i]), r.v[i]); });
}
static void body() {
  bool chain = vc::choose(2); BType a = vc::pick(ALL), b = vc::pick(ALL); int mode = vc::choose(isFloatBType(b) || isFloatBType(a) ? 2 : 1); BType c = b; int mode2 = 0; if (chain) { c = vc::pick(ALL); mode2 = vc::choose(isFloatBType(c) || isFloatBType(b) ? 2 : 1); }
  int form = vc::choose(chain ? 3 : 8); if (chain && form == 2) form = 6; bool full = !chain && form < 2;
  if (!E.ctx || E.uses++ > 200 || !E.pool->isActive()) E.fresh(); if (form == 6) E.pool->close(); struct Cl { ~Cl() { if (E.pool->isActive()) E.collect(); } } cl;
  std::vector<LD> v = values(a, full); if (form == 5 && v.size() & 1) v.pop_back(); MLIRContext *ctx = E.ctx.get(); ElementsAttrBuilder B(*E.pool);
  static const char *FN[] = {"dense", "disposable", "wide disposable", "dense splats", "disposable splats", "transposed", "dense, pool closed", "lazily transformed"};
  vc::note("%s %s -> %s mode %d%s", FN[form], tn(a), tn(b), mode, chain ? (std::string(" -> ") + tn(c) + " mode " + std::to_string(mode2)).c_str() : ""); vc::ctx("%s->%s", tn(a), tn(b)); vc::nontrivial();
  auto run = [&](ElementsAttr e, V shape, const std::vector<LD> &vals) {
    Cast c1{b, mode}, c2{c, mode2}; std::vector<std::vector<LD>> ok;
    for (LD x : vals) { LD w = a == b ? x : wideStep(a, c1, x); std::vector<LD> o; if (!chain) { for (int h = 0; h < 3; h++) o.push_back(a == b ? x : narrowTo(b, w, h)); }
      else for (int h = 0; h < 3; h++) for (int m = 0; m < 2; m++) { LD mid = m ? (isFloatBType(b) ? (LD)(double)w : w) : a == b ? x : narrowTo(b, w, h); LD w2 = b == c ? mid : wideStep(b, c2, mid); for (int h2 = 0; h2 < 3; h2++) o.push_back(narrowTo(c, w2, h2)); }
      ok.push_back(o); }
    ElementsAttr r = castWith(B, e, c1, false); if (!chain) { expect(r, b, shape, ok, vals, "cast"); if (mode == 0) expect(castWith(B, e, c1, true), b, shape, ok, vals, "castElementType"); }
    else expect(castWith(B, r, c2, false), c, shape, ok, vals, "cast of cast");
    // the operand still reads the same
    std::vector<std::vector<LD>> id; for (LD x : vals) id.push_back({x}); expect(e, a, shape, id, vals, "operand"); };
  auto arr = [&](const V &s) { return dispatchByBType(a, [&](auto bt) { using X = CppType<bt>; return B.fromArray<X>(ty(ctx, a, s), [&](MutableArrayRef<X> d) { for (size_t i = 0; i < d.size(); i++) { if constexpr (isSmallFPType<X>) d[i] = X((float)v[i]); else d[i] = (X)v[i]; } }); }); };
  int64_t n = v.size();
  switch (form) {
  case 0: case 6: run(denseOf(ctx, Ten{a, {n}, v}), {n}, v); break;
  case 1: run(arr({n}), {n}, v); break;
  case 2: run(B.fromWideNums(ty(ctx, a, {n}), [&](MutableArrayRef<WideNum> d) { for (int64_t i = 0; i < n; i++) d[i] = wide(a, v[i]); }), {n}, v); break;
  case 3: case 4: for (LD x : v) { ElementsAttr e = denseOf(ctx, Ten{a, {2}, {x, x}}); if (form == 4) e = B.toDisposableElementsAttr(e); run(e, {2}, {x, x}); } break;
  case 5: { auto e = B.transpose(arr({2, n / 2}), {1, 0}); std::vector<LD> t; for (int64_t i = 0; i < n / 2; i++) { t.push_back(v[i]); t.push_back(v[n / 2 + i]); } run(e, {n / 2, 2}, t); break; }
  case 7: { auto e = arr({n}); std::vector<LD> t = v; run(B.transform(e, e.getElementType(), [](WideNum w) { return w; }), {n}, t); break; } }
  vc::state(vc::hash(std::string(vc::S->note)));
}
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 3; o.rule = "every pair and every triple of the 17 element types, every rounding and saturation choice, every representation; all codes of 8 and 16 bit types, boundary values of the others"; return vc::main(argc, argv, o, body); }
