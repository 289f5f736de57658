// C24: element type tables and conversions between narrow and wide numbers.
#include "eab.hpp"
#include "src/Dialect/ONNX/ElementsAttr/WideNum.hpp"
template <class T> const char *cn() { return std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, int64_t> ? "int64" : std::is_same_v<T, uint64_t> ? "uint64" : "other"; }
struct Row { BType t; int onnx; const char *mlir; const char *alias; unsigned bits; char kind; };
static const Row R[] = {{BType::FLOAT, 1, "f32", 0, 32, 'f'}, {BType::UINT8, 2, "ui8", 0, 8, 'u'}, {BType::INT8, 3, "i8", "si8", 8, 's'}, {BType::UINT16, 4, "ui16", 0, 16, 'u'}, {BType::INT16, 5, "i16", "si16", 16, 's'}, {BType::INT32, 6, "i32", "si32", 32, 's'}, {BType::INT64, 7, "i64", "si64", 64, 's'}, {BType::BOOL, 9, "i1", 0, 1, 'u'}, {BType::FLOAT16, 10, "f16", 0, 16, 'f'}, {BType::DOUBLE, 11, "f64", 0, 64, 'f'}, {BType::UINT32, 12, "ui32", 0, 32, 'u'}, {BType::UINT64, 13, "ui64", 0, 64, 'u'}, {BType::BFLOAT16, 16, "bf16", 0, 16, 'f'}, {BType::FLOAT8E4M3FN, 17, "f8E4M3FN", 0, 8, 'f'}, {BType::FLOAT8E4M3FNUZ, 18, "f8E4M3FNUZ", 0, 8, 'f'}, {BType::FLOAT8E5M2, 19, "f8E5M2", 0, 8, 'f'}, {BType::FLOAT8E5M2FNUZ, 20, "f8E5M2FNUZ", 0, 8, 'f'}};
static MLIRContext *C;
static std::string str(Type t) { std::string s; llvm::raw_string_ostream o(s); t.print(o); return s; }
static Type typeOf(const Row &r, bool alias) { Builder b(C); std::string n = alias ? r.alias : r.mlir; bool u = n[0] == 'u', s = n[0] == 's';
  if (r.kind != 'f') return IntegerType::get(C, r.bits, u ? IntegerType::Unsigned : s ? IntegerType::Signed : IntegerType::Signless);
  switch (r.onnx) { case 1: return Float32Type::get(C); case 10: return Float16Type::get(C); case 11: return Float64Type::get(C); case 16: return BFloat16Type::get(C); case 17: return Float8E4M3FNType::get(C); case 18: return Float8E4M3FNUZType::get(C); case 19: return Float8E5M2Type::get(C); default: return Float8E5M2FNUZType::get(C); } }
static unsigned bytes(const Row &r) { return r.bits == 1 ? 1 : r.bits / 8; }
static std::string SEEN; static int ARITY;
template <class OP, class... T> struct Fun; struct Two {};
template <class T> struct Fun<Two, T> { static T eval(T a, T b) { SEEN = cn<T>(); return a < b ? b : a; } };
template <class OP, class T> struct Cmp { static bool eval(T a, T b) { SEEN = cn<T>(); return a < b; } };
static void table(const Row &r) {
  Type t = typeOf(r, false); vc::ctx("%s", r.mlir); vc::note("type %s", r.mlir);
  VC_CHECK(str(t) == r.mlir, "harness", "%s", str(t).c_str());
  VC_CHECK(mlirTypeOfBType(r.t, C) == t, "to-mlir", "element type %d becomes %s instead of %s", r.onnx, str(mlirTypeOfBType(r.t, C)).c_str(), r.mlir);
  VC_CHECK(btypeOfMlirType(t) == r.t, "of-mlir", "%s becomes element type %d", r.mlir, (int)btypeOfMlirType(t));
  if (r.alias) VC_CHECK(btypeOfMlirType(typeOf(r, true)) == r.t, "of-mlir", "%s becomes element type %d", r.alias, (int)btypeOfMlirType(typeOf(r, true)));
  VC_CHECK(onnxDataTypeOfBType(r.t) == r.onnx && btypeOfOnnxDataType(r.onnx) == r.t && (int)r.t == r.onnx, "onnx", "%s has ONNX code %d", r.mlir, onnxDataTypeOfBType(r.t));
  VC_CHECK(isFloatBType(r.t) == (r.kind == 'f') && isSignedIntBType(r.t) == (r.kind == 's') && isUnsignedIntBType(r.t) == (r.kind == 'u') && isIntBType(r.t) == (r.kind != 'f') && isIntOrFloatBType(r.t), "kind", "%s is misclassified", r.mlir);
  VC_CHECK(bitwidthOfBType(r.t) == r.bits && bytewidthOfBType(r.t) == bytes(r), "width", "%s has %u bits, %u bytes", r.mlir, bitwidthOfBType(r.t), bytewidthOfBType(r.t));
  VC_CHECK(wideBTypeOfBType(r.t) == (r.kind == 'f' ? BType::DOUBLE : r.kind == 's' ? BType::INT64 : BType::UINT64), "wide", "%s widens to %s", r.mlir, tn(wideBTypeOfBType(r.t)));
  VC_CHECK(getIntOrFloatByteWidth(t) == bytes(r), "bytes", "getIntOrFloatByteWidth(%s) is %u", r.mlir, getIntOrFloatByteWidth(t));
  int calls = 0; dispatchByBType(r.t, [&](auto bt) { using X = CppType<bt>; calls++;
    VC_CHECK(bt == r.t && toBType<X> == r.t && sizeof(X) == bytes(r) && toMlirType<X>(C) == t && toBType<const X &> == r.t, "dispatch", "%s is dispatched as %d", r.mlir, (int)BType(bt));
    VC_CHECK(toBType<WideType<bt>> == wideBTypeOfBType(r.t) && BTypeTrait<bt>::btype == r.t, "dispatch", "traits of %s", r.mlir); }); VC_CHECK(calls == 1, "dispatch", "%d calls", calls);
  // functions on wide numbers work in the right C++ type
  auto want = [&](bool b) { return r.t == BType::BOOL && b ? cn<bool>() : r.kind == 'f' ? cn<double>() : r.kind == 'u' ? cn<uint64_t>() : cn<int64_t>(); };
  WideNum hi = wide(r.t, 3), lo = wide(r.t, r.kind == 'u' ? 0 : -3); if (r.t == BType::BOOL) hi = wide(r.t, 1); if (r.t == BType::UINT64) hi = WideNum::widen<BType::UINT64>(~0ull);
  auto f = getWideNumWrappedTemplateFunction<Fun, Two>(t); WideNum m = f(hi, lo), m2 = f(lo, hi); VC_CHECK(SEEN == want(true), "wrapped", "a function on %s is computed in C++ type %s", r.mlir, SEEN.c_str());
  VC_CHECK(unwide(r.t, m) == unwide(r.t, hi) && unwide(r.t, m2) == unwide(r.t, hi), "wrapped", "max of %s: %Lg", r.mlir, unwide(r.t, m));
  auto g = getWideNumWrappedTemplateFunction<Cmp, Two>(t); VC_CHECK(g(lo, hi).u64 == 1 && g(hi, lo).u64 == 0, "wrapped", "comparison of %s gives %lu, %lu", r.mlir, (unsigned long)g(lo, hi).u64, (unsigned long)g(hi, lo).u64);
  auto z = [&](auto x) -> std::string { return x == 0 ? cn<decltype(x)>() : "nonzero"; };
  VC_CHECK(wideZeroDispatch(t, z) == want(true), "zero", "wideZeroDispatch(%s)", r.mlir);
  if (r.t != BType::BOOL) VC_CHECK(wideZeroDispatchNonBool(t, z) == want(false), "zero", "wideZeroDispatchNonBool(%s)", r.mlir);
}
template <class X> static uint64_t bitsOf(X x) { uint64_t b = 0; memcpy(&b, (void *)&x, sizeof x); return b; }
static std::vector<uint64_t> codes(const Row &r) { std::vector<uint64_t> v; if (r.t == BType::BOOL) return {0, 1}; if (r.bits <= 16) { for (uint64_t c = 0; c < 1u << r.bits; c++) v.push_back(c); return v; }
  std::set<uint64_t> s; uint64_t mask = r.bits == 64 ? ~0ull : (1ull << r.bits) - 1; for (unsigned i = 0; i < r.bits; i++) for (unsigned j = 0; j <= i; j++) for (uint64_t d : {0, 1, 2}) for (int sg : {0, 1}) { uint64_t a = (1ull << i) | (1ull << j), b = ~0ull << j; for (uint64_t x : {a, b, (uint64_t)(a - 1)}) { x += sg ? d : -d; s.insert(x & mask); s.insert((x ^ (1ull << (r.bits - 1))) & mask); } }
  if (r.kind == 'f') { int mant = r.bits == 32 ? 23 : 52, ex = r.bits == 32 ? 8 : 11; for (int e = 0; e < 1 << ex; e++) for (int sg = 0; sg < 2; sg++) for (uint64_t m : {(uint64_t)0, (uint64_t)1, (uint64_t)3 << (mant - 2), ((uint64_t)1 << mant) - 1}) s.insert((uint64_t)sg << (r.bits - 1) | (uint64_t)e << mant | m); }
  return {s.begin(), s.end()}; }
static void values(const Row &r, int part) {
  vc::note("values of %s, part %d", r.mlir, part); vc::ctx("%s", r.mlir); Type t = typeOf(r, false); auto cs = codes(r); size_t n = cs.size(), b = n * part / 8, e = n * (part + 1) / 8;
  dispatchByBType(r.t, [&](auto bt) { using X = CppType<bt>; for (size_t k = b; k < e; k++) { X x; memcpy((void *)&x, &cs[k], sizeof x); vc::step();
    WideNum w = WideNum::widen<bt>(x); X y = w.template narrow<bt>();
    if (r.kind == 'f') { APFloat want(mlir::cast<FloatType>(t).getFloatSemantics(), APInt(r.bits, cs[k])); LD v = w.dbl;
      VC_CHECK((std::isnan((double)v) && want.isNaN()) || want.convertToDouble() == (double)v, "widen", "%s code %lx widens to %Lg", r.mlir, (long)cs[k], v);
      APFloat a = w.toAPFloat(bt); VC_CHECK(&a.getSemantics() == &want.getSemantics() && (want.isNaN() ? a.isNaN() : a.bitwiseIsEqual(want)), "toAPFloat", "%s code %lx", r.mlir, (long)cs[k]);
      WideNum f = WideNum::fromAPFloat(want); VC_CHECK(std::isnan(w.dbl) ? std::isnan(f.dbl) : f.u64 == w.u64, "fromAPFloat", "%s code %lx gives %g", r.mlir, (long)cs[k], f.dbl);
      if (want.isNaN()) { WideNum w2 = WideNum::widen<bt>(y); VC_CHECK(std::isnan(w2.dbl), "narrow", "%s: NaN %lx narrows to a number", r.mlir, (long)cs[k]); } else VC_CHECK(bitsOf(y) == cs[k], "narrow", "%s code %lx comes back as %lx", r.mlir, (long)cs[k], (long)bitsOf(y));
      VC_CHECK(bitsOf(w.template to<double>(bt)) == w.u64 && WideNum::from<double>(bt, w.dbl).u64 == w.u64, "to", "to<double> of %s", r.mlir);
    } else { uint64_t u = cs[k]; int64_t sv = r.bits == 64 ? (int64_t)u : r.bits == 1 ? (int64_t)u : (int64_t)(u << (64 - r.bits)) >> (64 - r.bits); bool sgn = r.kind == 's';
      VC_CHECK(sgn ? w.i64 == sv : w.u64 == u, "widen", "%s code %lx widens to %ld", r.mlir, (long)u, (long)w.i64); VC_CHECK(bitsOf(y) == u, "narrow", "%s code %lx comes back as %lx", r.mlir, (long)u, (long)bitsOf(y));
      APInt a = w.toAPInt(bt); VC_CHECK(a.getBitWidth() == r.bits && a.getZExtValue() == u, "toAPInt", "%s code %lx", r.mlir, (long)u); VC_CHECK(WideNum::fromAPInt(APInt(r.bits, u), sgn).u64 == w.u64, "fromAPInt", "%s code %lx", r.mlir, (long)u);
      VC_CHECK(sgn ? w.template to<int64_t>(bt) == sv && w.template to<double>(bt) == (double)sv : w.template to<uint64_t>(bt) == u && w.template to<double>(bt) == (double)u, "to", "to<> of %s code %lx", r.mlir, (long)u);
      VC_CHECK(sgn ? WideNum::from<int64_t>(bt, sv).u64 == w.u64 : WideNum::from<uint64_t>(bt, u).u64 == w.u64, "from", "from<> of %s code %lx", r.mlir, (long)u); }
  } });
}
static void wrapped() { // functions wrapped to wide numbers
  vc::note("wrapped functions"); for (int64_t v : {(int64_t)0, (int64_t)1, (int64_t)-1, INT64_MIN, INT64_MAX, (int64_t)12345}) {
    VC_CHECK((widenumWrapped<int64_t, int64_t>([](int64_t x) { return x / 3; })(WideNum::widen<BType::INT64>(v)).i64 == v / 3), "wrapped", "int64 %ld", (long)v); VC_CHECK((widenumWrapped<uint64_t, uint64_t>([](uint64_t x) { return x / 3; })(WideNum::widen<BType::UINT64>(v)).u64 == (uint64_t)v / 3), "wrapped", "uint64 %ld", (long)v);
    VC_CHECK((widenumWrapped<double, int64_t>([](int64_t x) { return x / 4.0; })(WideNum::widen<BType::INT64>(v)).dbl == v / 4.0), "wrapped", "int64 to double %ld", (long)v); VC_CHECK((widenumWrapped<int64_t, double>([](double x) { return (int64_t)(x / 8); })(WideNum::widen<BType::DOUBLE>(v)).i64 == (int64_t)((double)v / 8)), "wrapped", "double to int64 %ld", (long)v);
    VC_CHECK((widenumWrapped<bool, double>([](double x) { return x > 0; })(WideNum::widen<BType::DOUBLE>(v)).u64 == (v > 0)), "wrapped", "double to bool"); VC_CHECK((widenumWrapped<bool, bool>([](bool x) { return !x; })(WideNum::widen<BType::BOOL>(v != 0)).u64 == (v == 0)), "wrapped", "bool"); }
}
static void shapes() { // queries on tensor types
  int rank = vc::choose(4); V s; for (int i = 0; i < rank; i++) s.push_back(vc::pick({(int64_t)0, (int64_t)1, (int64_t)2, (int64_t)5, (int64_t)ShapedType::kDynamic})); int ei = vc::choose(sizeof R / sizeof *R + 1); bool mem = vc::flip(), vec = ei == sizeof R / sizeof *R;
  Type el = vec ? (Type)VectorType::get({3}, Float16Type::get(C)) : typeOf(R[ei], false); if (vec && !mem) return; unsigned eb = vec ? 6 : bytes(R[ei]); vc::note("%s of rank %d %s", mem ? "memref" : "tensor", rank, S_(s).c_str());
  Type t = mem ? (Type)MemRefType::get(s, el) : (Type)RankedTensorType::get(s, el); bool st = true; int64_t n = 1; for (auto d : s) { st = st && d != ShapedType::kDynamic; n *= d; }
  VC_CHECK(onnx_mlir::getElementType(t) == el && onnx_mlir::getElementType(el) == (vec ? (Type)Float16Type::get(C) : el), "element", "element type of %s", str(t).c_str()); VC_CHECK(isRankedShapedType(t) && (vec || !isRankedShapedType(el)) && !isRankedShapedType(UnrankedTensorType::get(Float32Type::get(C))), "ranked", "%s", str(t).c_str());
  VC_CHECK(onnx_mlir::hasStaticShape(t) == st && (vec || !onnx_mlir::hasStaticShape(el)) && !onnx_mlir::hasStaticShape(UnrankedTensorType::get(Float32Type::get(C))), "static", "%s", str(t).c_str()); VC_CHECK(onnx_mlir::getShape(t) == ArrayRef<int64_t>(s) && onnx_mlir::getRank(t) == rank, "shape", "%s", str(t).c_str());
  for (int i = -rank; i < rank; i++) VC_CHECK(onnx_mlir::getShape(t, i) == s[i < 0 ? i + rank : i], "dim", "dim %d of %s is %ld", i, str(t).c_str(), (long)onnx_mlir::getShape(t, i)); if (!rank) VC_CHECK(onnx_mlir::getShape(t, 0) == 1 && onnx_mlir::getShape(t, -1) == 1, "dim", "scalar dim");
  VC_CHECK(getEltSizeInBytes(t) == (vec ? 6 : eb), "bytes", "element of %s has %ld bytes", str(t).c_str(), (long)getEltSizeInBytes(t)); if (st) VC_CHECK(getNumberOfElements(mlir::cast<ShapedType>(t)) == n && getSizeInBytes(mlir::cast<ShapedType>(t)) == n * eb, "size", "%s has %ld elements, %ld bytes", str(t).c_str(), (long)getNumberOfElements(mlir::cast<ShapedType>(t)), (long)getSizeInBytes(mlir::cast<ShapedType>(t)));
  if (!mem) { Attribute e1 = StringAttr::get(C, "a"), e2 = StringAttr::get(C, "b"); auto en = [&](Attribute a) { return RankedTensorType::get(s, el, a); }; auto o = RankedTensorType::get({7}, Float32Type::get(C), e1); VC_CHECK(sameEncodingAttr(en(e1), o) && !sameEncodingAttr(en(e2), o) && !sameEncodingAttr(t, o) && sameEncodingAttr(t, t) && !sameEncodingAttr(t, el) && !sameEncodingAttr(el, t), "encoding", "%s", str(t).c_str()); }
  vc::state(vc::hash(str(t)));
}
static void body() { static bool init; if (!init) { init = true; C = new MLIRContext(MLIRContext::Threading::DISABLED); C->getOrLoadDialect<VDialect>(); } vc::nontrivial();
  switch (vc::choose(4)) { case 0: table(R[vc::choose(sizeof R / sizeof *R)]); break; case 1: { int k = vc::choose(sizeof R / sizeof *R); values(R[k], vc::choose(8)); break; } case 2: wrapped(); break; case 3: shapes(); break; }
  if (vc::G_pos < 4) vc::state(vc::hash(std::string(vc::S->note))); }
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 3; o.rule = "all 17 element types; every code of types up to 16 bits, boundary codes of the others (every exponent, every pair of bits +-2); all tensor types of rank 0..3 with dims 0,1,2,5,? over all element types"; return vc::main(argc, argv, o, body); }
