// C18: every value of every small float format, and every 32-bit float, against an independent definition.
#include "vc.hpp"
#include <cmath>
#ifdef COMPILER_SIDE
#include "src/Support/SmallFP.hpp"
using namespace onnx_mlir;
#else
#include "src/Support/SmallFPConversion.h"
#endif
static float f32(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static uint32_t u32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
struct Fmt { const char *name; int bits, mant, bias; int kind; }; // kind 0 ieee (inf, nan), 1 FN (no inf, nan = all ones), 2 FNUZ (no inf, no -0, nan = 0x80)
static const Fmt FM[] = {{"f16", 16, 10, 15, 0}, {"bf16", 16, 7, 127, 0}, {"f8e4m3fn", 8, 3, 7, 1}, {"f8e4m3fnuz", 8, 3, 8, 2}, {"f8e5m2", 8, 2, 15, 0}, {"f8e5m2fnuz", 8, 2, 16, 2}};
// value of a code: returns false for NaN
static bool decode(const Fmt &f, uint32_t c, double *v) {
  uint32_t sign = c >> (f.bits - 1), mag = c & ((1u << (f.bits - 1)) - 1), e = mag >> f.mant, m = mag & ((1u << f.mant) - 1), emax = (1u << (f.bits - 1 - f.mant)) - 1;
  if (f.kind == 2 && c == (1u << (f.bits - 1))) return false;
  if (f.kind == 1 && mag == (1u << (f.bits - 1)) - 1) return false;
  if (f.kind == 0 && e == emax) { if (m) return false; *v = sign ? -INFINITY : INFINITY; return true; }
  double x = e ? ldexp(1.0 + m / double(1u << f.mant), (int)e - f.bias) : ldexp(m / double(1u << f.mant), 1 - f.bias);
  *v = sign ? -x : x; return true;
}
struct Enc { double maxFinite, overflow; uint32_t maxCode, special; double minQuantum; };
static Enc E[6];
static void initEnc() {
  for (int i = 0; i < 6; i++) { const Fmt &f = FM[i]; double best = 0; uint32_t bc = 0;
    for (uint32_t c = 0; c < 1u << (f.bits - 1); c++) { double v; if (decode(f, c, &v) && !std::isinf(v) && v > best) best = v, bc = c; }
    int e; frexp(best, &e); E[i] = {best, best + ldexp(1.0, e - 1 - f.mant - 1), bc, 0, ldexp(1.0, 1 - f.bias - f.mant)}; }
}
// round-to-nearest-even of a finite double; overflow: first value that rounds beyond the largest finite one
static bool refEncode(int fi, float x, uint32_t *out) { // false: NaN
  const Fmt &f = FM[fi]; uint32_t s = u32(x) >> 31; double a = fabs((double)x);
  if (std::isnan(x)) return false;
  uint32_t sb = s << (f.bits - 1);
  // magnitude codes are ordered like values: nearest of the two neighbours by counting quanta
  uint32_t code;
  if (std::isinf(x)) { if (f.kind) return false; *out = sb | (((1u << (f.bits - 1 - f.mant)) - 1) << f.mant); return true; }
  int e = (int)((u32((float)a) >> 23) & 255) - 127; int emin = 1 - f.bias; if (e < emin) e = emin;
  // quantum 2^(e - mant): n = a / quantum, exact in double
  uint64_t qb = (uint64_t)(1023 + f.mant - e) << 52; double scale; memcpy(&scale, &qb, 8);
  double n = a * scale; double fl = (double)(int64_t)n; double d = n - fl; int64_t q = (int64_t)fl; if (d > 0.5 || (d == 0.5 && (q & 1))) q++;
  // code = ((e - emin) << mant) + q   (q carries the implicit bit, so normals start at 1 << mant)
  code = ((uint32_t)(e - emin) << f.mant) + (uint32_t)q;
  if (code > E[fi].maxCode) { if (f.kind) return false; code = ((1u << (f.bits - 1 - f.mant)) - 1) << f.mant; }
  if (f.kind == 2 && code == 0) sb = 0; // no negative zero
  *out = sb | code; return true;
}
#ifdef COMPILER_SIDE
template <class T> struct Ops {
  static float up(uint32_t c) { return T::bitcastFromUInt(c).toFloat(); }
  static uint32_t down(float x) { return T::fromFloat(x).bitcastToUInt(); }
  static bool nan(uint32_t c) { return T::bitcastFromUInt(c).isNaN(); }
  static void extra(int fi, uint32_t c) { // the other ways to convert
    const Fmt &f = FM[fi]; T t = T::bitcastFromUInt(c); float x = t.toFloat(); double v = 0; bool num = decode(f, c, &v);
    float viaCast = static_cast<float>(t); double viaD = static_cast<double>(t);
    VC_CHECK(num ? (u32(viaCast) == u32((float)v) && viaD == v) : (std::isnan(viaCast) && std::isnan(viaD)), "cast", "%s 0x%x: static_cast gives %g, %g", f.name, c, viaCast, viaD);
    llvm::APFloat ap = t.toAPFloat(); VC_CHECK(num ? ap.isNaN() == false && (double)ap.convertToFloat() == v : ap.isNaN(), "apfloat", "%s 0x%x: toAPFloat differs", f.name, c);
    T back = T::fromAPFloat(ap); VC_CHECK(num ? back.bitcastToUInt() == c : back.isNaN(), "apfloat-back", "%s 0x%x: fromAPFloat(toAPFloat) gives 0x%x", f.name, c, (unsigned)back.bitcastToUInt());
    if (num && !std::isinf(v)) { T d = T::fromAPFloat(llvm::APFloat(v)); VC_CHECK(d.bitcastToUInt() == c, "apfloat-double", "%s 0x%x: fromAPFloat(double) gives 0x%x", f.name, c, (unsigned)d.bitcastToUInt()); }
    T k = static_cast<T>(x); VC_CHECK(num ? k.bitcastToUInt() == c : k.isNaN(), "ctor", "%s 0x%x: conversion from its float value gives 0x%x", f.name, c, (unsigned)k.bitcastToUInt());
    if (num && fabs(v) < 1e9) { long i = (long)v; VC_CHECK(static_cast<int32_t>(t) == i, "to-int", "%s 0x%x (%g): int cast gives %d", f.name, c, v, static_cast<int32_t>(t)); }
    if (num && fabs(v) <= 2000 && v == (int)v) { T q = static_cast<T>((int)v); uint32_t w = 0; refEncode(fi, (float)(int)v, &w); VC_CHECK(q.bitcastToUInt() == w, "from-int", "%s from int %d gives 0x%x", f.name, (int)v, (unsigned)q.bitcastToUInt()); }
    T z = T(t); VC_CHECK(z.bitcastToUInt() == c, "copy", "copy");
    VC_CHECK((double)T::max == E[fi].maxFinite, "max", "%s: max is %g, not %g", f.name, (double)T::max, E[fi].maxFinite);
  }
  static bool eq(uint32_t a, uint32_t b) { return T::bitcastFromUInt(a) == T::bitcastFromUInt(b); }
  static bool ne(uint32_t a, uint32_t b) { return T::bitcastFromUInt(a) != T::bitcastFromUInt(b); }
};
#define CALL(fi, fn, ...) (fi == 0 ? Ops<float_16>::fn(__VA_ARGS__) : fi == 1 ? Ops<bfloat_16>::fn(__VA_ARGS__) : fi == 2 ? Ops<float_8e4m3fn>::fn(__VA_ARGS__) : fi == 3 ? Ops<float_8e4m3fnuz>::fn(__VA_ARGS__) : fi == 4 ? Ops<float_8e5m2>::fn(__VA_ARGS__) : Ops<float_8e5m2fnuz>::fn(__VA_ARGS__))
static uint32_t down(int fi, float x) { return CALL(fi, down, x); }
static float up(int fi, uint32_t c) { return CALL(fi, up, c); }
static const int NF = 6;
#else
static uint32_t down(int fi, float x) { return fi ? om_f32_to_bf16(x) : om_f32_to_f16(x); }
static float up(int fi, uint32_t c) { return fi ? om_bf16_to_f32(c) : om_f16_to_f32(c); }
static const int NF = 2;
#endif
template <int FI> static void downRange(uint32_t hi9, uint32_t step, uint32_t from) {
  const Fmt &f = FM[FI];
  for (uint32_t m = from; m < 1u << 23; m += step) {
    uint32_t bits = hi9 << 23 | m; float x = f32(bits); uint32_t want = 0; bool num = refEncode(FI, x, &want); uint32_t got = down(FI, x);
    double dv;
    if (num ? got != want : decode(f, got & ((f.bits == 8) ? 0xff : 0xffff), &dv))
      vc::fail(num ? "round" : "nan", "%s: float 0x%08x (%.9g) converts to 0x%x, expected %s0x%x", f.name, bits, x, got, num ? "" : "NaN; ", want);
  }
}
static void body() {
  int fi = vc::choose(NF); const Fmt &f = FM[fi]; vc::ctx("%s", f.name);
  int what = vc::choose(3);
  if (what == 0) { // every code up, and back
    uint32_t block = vc::choose(f.bits == 16 ? 64 : 1), n = f.bits == 16 ? 1024 : 256; vc::note("%s: codes 0x%x.. to float and back", f.name, block * n);
    for (uint32_t c = block * n; c < (block + 1) * n; c++) {
      double v = 0; bool num = decode(f, c, &v); float x = up(fi, c); vc::step(); 
      VC_CHECK(num ? u32(x) == u32((float)v) : std::isnan(x), "up", "%s 0x%x converts to %.9g, expected %.9g", f.name, c, x, num ? v : NAN);
      uint32_t b = down(fi, x); double w;
      VC_CHECK(num ? b == c : !decode(f, b, &w), "round-trip", "%s 0x%x up and back gives 0x%x", f.name, c, b);
      if (!num) continue;
      vc::nontrivial();
      // exact neighbourhood: halfway to the next code, one float below and above it
#ifdef COMPILER_SIDE
      VC_CHECK(CALL(fi, nan, c) == false, "isnan", "%s 0x%x isNaN", f.name, c);
#endif
    }
#ifdef COMPILER_SIDE
    for (uint32_t c = block * n; c < (block + 1) * n; c++) { double v; bool num = decode(f, c, &v); VC_CHECK(CALL(fi, nan, c) == !num, "isnan", "%s 0x%x isNaN is %d", f.name, c, !num ? 0 : 1); CALL(fi, extra, fi, c);
      uint32_t lim = f.bits == 8 ? 256 : 1; for (uint32_t d = 0; d < lim; d++) { uint32_t o = f.bits == 8 ? d : c ^ 0x8000; double w; bool on = decode(f, o, &w); bool e = num && on && v == w;
        VC_CHECK(CALL(fi, eq, c, o) == e && CALL(fi, ne, c, o) == !e, "equal", "%s 0x%x == 0x%x", f.name, c, o); } }
#endif
  } else if (what == 1) { // every float (or, for the 8-bit formats in quick, every float up to 12 low mantissa bits, which take boundary values)
    uint32_t hi9 = vc::choose(512); bool slow = !vc::thorough(); vc::note("%s: every float with sign and exponent 0x%x%s", f.name, hi9, slow ? " and low mantissa bits 0, 1, half-1, half, half+1, all ones" : "");
    std::vector<std::pair<uint32_t, uint32_t>> rs; // step, from
    if (!slow) rs = {{1, 0}}; else { uint32_t k = f.bits == 8 ? 14 : 10, h = 1u << (k - 1); for (uint32_t lo : {0u, 1u, h - 1, h, h + 1, 2 * h - 1}) rs.push_back({1u << k, lo}); }
    for (auto &r : rs) switch (fi) {
      case 0: downRange<0>(hi9, r.first, r.second); break; case 1: downRange<1>(hi9, r.first, r.second); break;
#ifdef COMPILER_SIDE
      case 2: downRange<2>(hi9, r.first, r.second); break; case 3: downRange<3>(hi9, r.first, r.second); break; case 4: downRange<4>(hi9, r.first, r.second); break; case 5: downRange<5>(hi9, r.first, r.second); break;
#endif
    }
    vc::step(slow ? 6 << (f.bits == 8 ? 9 : 13) : 1 << 23); vc::nontrivial();
  } else { // exact boundaries: midpoint between consecutive codes, and the floats next to it
    uint32_t block = vc::choose(16), n = (1u << (f.bits - 1)) / 16; vc::note("%s: midpoints above codes 0x%x..", f.name, block * n); vc::nontrivial();
    for (uint32_t c = block * n; c < (block + 1) * n; c++) for (int s = 0; s < 2; s++) {
      double a, b; if (!decode(f, c, &a) || std::isinf(a)) continue;
      bool last = c == E[fi].maxCode; if (last) b = 2 * E[fi].overflow - a; else if (!decode(f, c + 1, &b)) continue;
      double mid = (a + b) / 2; if ((double)(float)mid != mid || mid > 3.4e38) continue;
      for (int d = -1; d <= 1; d++) {
        float x = d < 0 ? nextafterf((float)mid, 0) : d > 0 ? nextafterf((float)mid, INFINITY) : (float)mid; if (s) x = -x;
        if (std::isinf(x)) continue;
        uint32_t up1 = last ? (f.kind ? ~0u : c + 1) : c + 1, want = d < 0 ? c : d > 0 ? up1 : (c & 1) ? up1 : c, got = down(fi, x); double dv; vc::step();
        if (want == ~0u) { VC_CHECK(!decode(f, got, &dv), "boundary-nan", "%s: %.9g converts to 0x%x, expected NaN", f.name, x, got); continue; }
        uint32_t ws = want | (s && !(f.kind == 2 && want == 0) ? 1u << (f.bits - 1) : 0);
        VC_CHECK(got == ws, "boundary", "%s: %.9g (%s the middle of codes 0x%x and 0x%x) converts to 0x%x, expected 0x%x", f.name, x, d < 0 ? "just below" : d > 0 ? "just above" : "at", c, c + 1, got, ws);
      }
    }
  }
}
int main(int argc, char **argv) {
  initEnc(); vc::Options o; o.splitDepth = 3;
  o.rule = "every code of every format converted to float and back; every 32-bit float to every format (quick: every sign, exponent, top 13 (9 for the 8-bit formats) mantissa bits, and 6 boundary patterns below); both sides of every midpoint";
  return vc::main(argc, argv, o, body);
}
