// Shared by the constant checks: a minimal dialect holding the disposable attribute and its pool, and a materialised reference tensor.
#pragma once
#include "vc.hpp"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/OpImplementation.h"
#include "mlir/IR/DialectImplementation.h"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttributeStorage.hpp"
#include "src/Support/TypeUtilities.hpp"
#include <cmath>
#include <numeric>
using namespace onnx_mlir; using namespace mlir;
typedef std::vector<int64_t> V; typedef long double LD;
struct VDialect : public Dialect {
  static constexpr StringLiteral getDialectNamespace() { return "v"; }
  explicit VDialect(MLIRContext *c) : Dialect(getDialectNamespace(), c, TypeID::get<VDialect>()) { addAttributes<DisposableElementsAttr>(); addInterface<DisposablePool>(c); allowUnknownOperations(); }
  void printAttribute(Attribute a, DialectAsmPrinter &p) const override { if (auto d = mlir::dyn_cast<DisposableElementsAttr>(a)) d.printWithoutType(p); }
};
MLIR_DECLARE_EXPLICIT_TYPE_ID(VDialect)
MLIR_DEFINE_EXPLICIT_TYPE_ID(VDialect)
struct Env {
  std::unique_ptr<MLIRContext> ctx; DisposablePool *pool = nullptr; uint64_t uses = 0;
  void fresh(bool threads = false) { ctx.reset(); ctx.reset(new MLIRContext(threads ? MLIRContext::Threading::ENABLED : MLIRContext::Threading::DISABLED)); ctx->getOrLoadDialect<VDialect>(); pool = DisposablePool::get<VDialect>(ctx.get()); uses = 0; }
  void collect() { auto m = ModuleOp::create(UnknownLoc::get(ctx.get())); pool->garbageCollectUnreachable(m, {}); m.erase(); }
};
inline std::string S_(ArrayRef<int64_t> v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
inline int64_t cnt(ArrayRef<int64_t> s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
// materialised tensor; small values, exact in every element type
struct Ten { BType t; V shape; std::vector<LD> v;
  LD at(const V &i) const { int64_t p = 0; for (size_t k = 0; k < shape.size(); k++) { if (i[k] < 0 || i[k] >= shape[k]) abort(); p = p * shape[k] + i[k]; } return v[p]; }
  // element at an index of a broadcast result
  LD bat(const V &i) const { V j; size_t off = i.size() - shape.size(); for (size_t k = 0; k < shape.size(); k++) j.push_back(shape[k] == 1 ? 0 : i[off + k]); return at(j); } };
template <class F> Ten mk(BType t, const V &shape, F f) { Ten r{t, shape, {}}; int64_t n = cnt(shape); V i(shape.size(), 0); for (int64_t k = 0; k < n; k++) { r.v.push_back(f(i)); for (int a = (int)shape.size() - 1; a >= 0; a--) { if (++i[a] < shape[a]) break; i[a] = 0; } } return r; }
inline bool bcast(const V &a, const V &b, V &o) { size_t r = std::max(a.size(), b.size()); o.assign(r, 1); for (size_t k = 0; k < r; k++) { int64_t x = k + a.size() >= r ? a[k + a.size() - r] : 1, y = k + b.size() >= r ? b[k + b.size() - r] : 1; if (x != y && x != 1 && y != 1) return false; o[k] = x == 1 ? y : x; } return true; }
inline WideNum wide(BType t, LD x) { return isFloatBType(t) ? WideNum::widen<BType::DOUBLE>((double)x) : isSignedIntBType(t) ? WideNum::widen<BType::INT64>((int64_t)x) : WideNum::widen<BType::UINT64>((uint64_t)x); }
inline LD unwide(BType t, WideNum n) { return isFloatBType(t) ? (LD)n.dbl : isSignedIntBType(t) ? (LD)n.i64 : t == BType::BOOL ? (LD)n.narrow<BType::BOOL>() : (LD)n.u64; }
template <class B, class X> LD num(B, X x) { if constexpr (isSmallFPType<X>) return (LD)x.toAPFloat().convertToDouble(); else return (LD)x; }
inline const char *tn(BType t) { static const char *n[] = {"?", "f32", "u8", "i8", "u16", "i16", "i32", "i64", "str", "bool", "f16", "f64", "u32", "u64", "c64", "c128", "bf16", "e4m3fn", "e4m3fnuz", "e5m2", "e5m2fnuz"}; return n[(int)t]; }
inline RankedTensorType ty(MLIRContext *c, BType t, ArrayRef<int64_t> shape) { return RankedTensorType::get(shape, mlirTypeOfBType(t, c)); }
inline DenseElementsAttr denseOf(MLIRContext *c, const Ten &r) {
  auto T = ty(c, r.t, r.shape); std::vector<Attribute> a;
  for (LD x : r.v) a.push_back(isFloatBType(r.t) ? (Attribute)FloatAttr::get(T.getElementType(), (double)x) : (Attribute)IntegerAttr::get(T.getElementType(), wide(r.t, x).toAPInt(r.t)));
  return DenseElementsAttr::get(T, ArrayRef<Attribute>(a));
}
inline std::string show(const std::vector<LD> &v) { std::string s; for (LD x : v) { char b[48]; snprintf(b, 48, "%.20Lg ", x); s += b; if (s.size() > 200) break; } return s; }
// every way of reading a constant gives the reference
inline void verify(ElementsAttr e, const Ten &r, const char *what, bool deep = true) {
  VC_CHECK(e, "null", "%s is null", what); MLIRContext *c = e.getContext(); BType t = r.t; size_t n = r.v.size();
  VC_CHECK(V(e.getShapedType().getShape().begin(), e.getShapedType().getShape().end()) == r.shape && e.getElementType() == mlirTypeOfBType(t, c), "type", "%s has shape %s, type %s; expected %s of %s", what, S_(e.getShapedType().getShape()).c_str(), tn(btypeOfMlirType(e.getElementType())), S_(r.shape).c_str(), tn(t));
  auto cmp = [&](const std::vector<LD> &g, const char *how) { VC_CHECK(g.size() == n, "count", "%s: %s gives %zu elements instead of %zu", what, how, g.size(), n);
    for (size_t i = 0; i < n; i++) VC_CHECK(g[i] == r.v[i] || (std::isnan(g[i]) && std::isnan(r.v[i])), "value", "%s %s of %s: %s gives %s instead of %s", what, S_(r.shape).c_str(), tn(t), how, show(g).c_str(), show(r.v).c_str()); };
  auto ap = [&](ElementsAttr x, const char *how) { std::vector<LD> g;
    if (isFloatBType(t)) { for (APFloat f : x.getValues<APFloat>()) { g.push_back(WideNum::fromAPFloat(f).dbl); if (g.size() > n) break; } }
    else for (APInt i : x.getValues<APInt>()) { VC_CHECK(i.getBitWidth() == bitwidthOfBType(t), "bitwidth", "%s: %s gives an APInt of width %u", what, how, i.getBitWidth()); g.push_back(isSignedIntBType(t) ? (LD)i.getSExtValue() : (LD)i.getZExtValue()); if (g.size() > n) break; }
    cmp(g, how); };
  { auto w = getElementsWideNums(e); std::vector<LD> g; for (auto x : w.get()) g.push_back(unwide(t, x)); cmp(g, "getElementsWideNums"); }
  if (!deep) return;
  ap(e, "getValues");
  { std::vector<WideNum> w(n + 1, wide(BType::UINT64, 0x5a5a5a)); readElementsWideNums(e, MutableArrayRef<WideNum>(w).take_front(n)); std::vector<LD> g; for (size_t i = 0; i < n; i++) g.push_back(unwide(t, w[i])); cmp(g, "readElementsWideNums"); }
  ap(ElementsAttrBuilder::toDenseElementsAttr(e), "toDenseElementsAttr");
  dispatchByBType(t, [&](auto bt) { using X = CppType<bt>; if constexpr (bt != BType::FLOAT8E4M3FN && bt != BType::FLOAT8E4M3FNUZ && bt != BType::FLOAT8E5M2 && bt != BType::FLOAT8E5M2FNUZ) {
    auto a = getElementsArray<X>(e); std::vector<LD> g; for (auto x : a.get()) g.push_back(num(bt, x)); cmp(g, "getElementsArray");
    std::vector<char> raw((n + 1) * sizeof(X), 0x5b); readElementsArray<X>(e, MutableArrayRef<X>((X *)raw.data(), n)); g.clear(); for (size_t i = 0; i < n; i++) g.push_back(num(bt, ((X *)raw.data())[i])); cmp(g, "readElementsArray");
    VC_CHECK(raw[n * sizeof(X)] == 0x5b, "overrun", "%s: readElementsArray writes past the end", what); } });
  if (e.isSplat()) { VC_CHECK(n > 0, "splat-empty", "%s is an empty splat", what); LD s = unwide(t, getElementsSplatWideNum(e)); for (LD x : r.v) VC_CHECK(x == s || (std::isnan(x) && std::isnan(s)), "splat", "%s is a splat of %Lg but the elements are %s", what, s, show(r.v).c_str()); }
  VC_CHECK(e.empty() == (n == 0) && (size_t)e.size() == n, "size", "%s: size %ld", what, (long)e.size());
  if (auto d = mlir::dyn_cast<DisposableElementsAttr>(e)) {
    auto raw = d.getRawBytes(); unsigned w = bytewidthOfBType(t); VC_CHECK(raw.get().size() == n * w, "raw", "%s: %zu raw bytes", what, raw.get().size());
    std::vector<LD> g; dispatchByBType(t, [&](auto bt) { using X = CppType<bt>; for (size_t i = 0; i < n; i++) { X x; memcpy((void *)&x, raw.get().data() + i * w, w); g.push_back(num(bt, x)); } }); cmp(g, "getRawBytes");
    // printed bytes parse back
    std::string s; { llvm::raw_string_ostream os(s); e.print(os); } size_t p = s.find("\"0x"), q = p == std::string::npos ? p : s.find('"', p + 1); VC_CHECK(p != std::string::npos && q != std::string::npos, "print", "%s prints as %s", what, s.c_str());
    std::string hex = s.substr(p + 3, q - p - 3), want; static const char H[] = "0123456789ABCDEF"; for (unsigned char ch : raw.get()) { want += H[ch >> 4]; want += H[ch & 15]; } VC_CHECK(hex == want, "print", "%s prints %s instead of %s", what, hex.c_str(), want.c_str());
  }
}
