// Constant operations of C23 that are templates in headers: compiled with instrumentation.
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
using namespace onnx_mlir; using namespace mlir;
static WideNum mix(WideNum n) { return WideNum::widen<BType::INT64>((int64_t)(n.u64 * 6364136223846793005ull + 1442695040888963407ull)); }
static WideNum dup(WideNum n) { return WideNum::widen<BType::INT64>(n.i64 * 3 + 1); }
static WideNum sub(WideNum a, WideNum b) { return WideNum::widen<BType::INT64>(a.i64 - 2 * b.i64); }
static WideNum add(WideNum a, WideNum b) { return WideNum::widen<BType::INT64>(a.i64 + b.i64); }
static WideNum roll(WideNum a, WideNum b) { return WideNum::widen<BType::INT64>((int64_t)(a.u64 * 31 + b.u64)); }
static WideNum fsum(WideNum a, WideNum b) { return WideNum::widen<BType::DOUBLE>(a.dbl + b.dbl); }
ElementsAttr parop(ElementsAttrBuilder &B, int op, ElementsAttr e, ElementsAttr s, ArrayRef<unsigned> axes) {
  Type t = e.getElementType(); MLIRContext *c = t.getContext();
  switch (op) {
  case 0: return B.transform(e, t, mix);
  case 1: return B.transform(B.transform(e, t, dup), t, mix);
  case 2: return B.combine(e, s, e.getShapedType(), sub);
  case 3: return B.combine(s, e, e.getShapedType(), sub);
  case 4: return B.castElementType(e, IntegerType::get(c, 8));
  case 5: return B.castElementType(e, IntegerType::get(c, 1));
  case 6: return B.clip(e, WideNum::widen<BType::INT64>(-200), WideNum::widen<BType::INT64>(333));
  case 7: return B.castElementType(B.castElementType(e, Float16Type::get(c)), IntegerType::get(c, 32));
  case 8: return B.castToFPElementType(B.castElementType(e, Float32Type::get(c)), Float16Type::get(c), true);
  case 9: return B.transform(B.transpose(e, {1, 0}), t, mix);
  case 10: return B.reduce(e, axes, true, add);
  case 11: return B.reduce(e, axes, false, roll);
  case 12: return B.reduce(B.transform(e, t, mix), axes, true, roll);
  case 13: return B.reduce(B.castElementType(e, Float64Type::get(c)), axes, false, fsum); }
  return nullptr;
}
