// C03: type table, names, sizes, inverse lookups and printed form; linked against the C or the C++ runtime
#include "vc.hpp"
#include "OnnxMlirRuntime.h"
#include "src/Runtime/OMTensorListHelper.hpp"
#include <cmath>
#include <complex>
#include <typeinfo>
struct Row { int code; const char *c, *mlir, *np; int size; };
static const std::vector<Row> ROWS = { // from onnx.proto TensorProto.DataType
  {0, "undefined", "", "", 0}, {1, "float", "f32", "float32", 4}, {2, "uint8_t", "ui8", "uint8", 1}, {3, "int8_t", "i8", "int8", 1}, {4, "uint16_t", "ui16", "uint16", 2}, {5, "int16_t", "i16", "int16", 2},
  {6, "int32_t", "i32", "int32", 4}, {7, "int64_t", "i64", "int64", 8}, {8, "const char *", "string", "str", 8}, {9, "_Bool", "i1", "bool_", 1}, {10, "_Float16", "f16", "float16", 2}, {11, "double", "f64", "float64", 8},
  {12, "uint32_t", "ui32", "uint32", 4}, {13, "uint64_t", "ui64", "uint64", 8}, {14, "_Complex float", "complex64", "complex64", 8}, {15, "_Complex double", "complex128", "complex128", 16}, {16, "bfloat16", "bf16", "bfloat16", 2},
  {17, "FLOAT8E4M3FN", "f8e4m3fn", "", 1}, {18, "FLOAT8E4M3FNUZ", "f8e4m3fnuz", "", 1}, {19, "FLOAT8E5M2", "f8e5m2", "", 1}, {20, "UINT4", "ui4", "", 1}, {21, "INT4", "i4", "", 1}};
static std::string capture(const std::function<void()> &f) {
  fflush(stdout); int sv = dup(1); char nm[] = "/tmp/vcoutXXXXXX"; int fd = mkstemp(nm); unlink(nm); dup2(fd, 1); f(); fflush(stdout); dup2(sv, 1); close(sv);
  lseek(fd, 0, SEEK_SET); std::string r; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r;
}
using I = std::vector<int64_t>;
static void table() {
  int c = (int)vc::choose(70) - 20; vc::note("type code %d", c); vc::nontrivial(); vc::state(c + 100); vc::step();
  bool def = c >= 0 && c <= 21; const Row &r = ROWS[def ? c : 0];
  VC_CHECK(getDataTypeSize((OM_DATA_TYPE)c) == r.size, "size", "size of type code %d is %ld, ONNX says %d", c, (long)getDataTypeSize((OM_DATA_TYPE)c), r.size);
  if (def) { VC_CHECK(OM_DATA_TYPE_SIZE[c] == r.size, "size-table", "size table entry %d", c); VC_CHECK(!strcmp(OM_DATA_TYPE_NAME[c], r.c), "name", "name of type code %d is %s expected %s", c, OM_DATA_TYPE_NAME[c], r.c); }
  I sh = {2, 3}; char buf[128] = {0};
  OMTensor *t = omTensorCreate(buf, sh.data(), 2, (OM_DATA_TYPE)c);
  std::string got = capture([&] { omTensorPrint("%t", t); }); vc::step();
  VC_CHECK(got == std::string("2x3x") + r.c, "print-type", "type print of code %d is '%s'", c, got.c_str());
  got = capture([&] { omTensorPrint("x%sy", t); }); vc::step();
  std::string e = std::string("x\trank = 2\n\tdataType = ") + r.c + "\n\tnumElems = 6\n\tshape: [2][3]\n\tstrides: [3][1]\n\ttype: 2x3x" + r.c + "\ny";
  VC_CHECK(got == e, "print-signature", "signature print of code %d is '%s'", c, got.c_str());
  VC_CHECK(omTensorGetBufferSize(t) == 6 * r.size, "bufsize", "buffer size of code %d", c);
  omTensorDestroy(t);
  OMTensor *u = omTensorCreateEmpty(sh.data(), 2, (OM_DATA_TYPE)c); VC_CHECK(!!u == (r.size != 0), "createEmpty", "createEmpty of type code %d %s", c, u ? "succeeded" : "failed"); omTensorDestroy(u);
}
static void enums() {
  vc::note("enumerators and C++ type map"); vc::nontrivial(); vc::step();
#define E(n, v) VC_CHECK((int)n == v, "enum", #n " is %d", (int)n)
  E(ONNX_TYPE_UNDEFINED, 0); E(ONNX_TYPE_FLOAT, 1); E(ONNX_TYPE_UINT8, 2); E(ONNX_TYPE_INT8, 3); E(ONNX_TYPE_UINT16, 4); E(ONNX_TYPE_INT16, 5); E(ONNX_TYPE_INT32, 6); E(ONNX_TYPE_INT64, 7); E(ONNX_TYPE_STRING, 8); E(ONNX_TYPE_BOOL, 9); E(ONNX_TYPE_FLOAT16, 10); E(ONNX_TYPE_DOUBLE, 11); E(ONNX_TYPE_UINT32, 12); E(ONNX_TYPE_UINT64, 13); E(ONNX_TYPE_COMPLEX64, 14); E(ONNX_TYPE_COMPLEX128, 15); E(ONNX_TYPE_BFLOAT16, 16); E(ONNX_TYPE_FLOAT8E4M3FN, 17); E(ONNX_TYPE_FLOAT8E4M3FNUZ, 18); E(ONNX_TYPE_FLOAT8E5M2, 19); E(ONNX_TYPE_UINT4, 20); E(ONNX_TYPE_INT4, 21); E(ONNX_TYPE_LAST, 21);
#define M(T, v) { auto it = OM_DATA_TYPE_CPP_TO_ONNX.find(typeid(T).name()); VC_CHECK(it != OM_DATA_TYPE_CPP_TO_ONNX.end() && (int)it->second == v, "cppmap", "C++ type " #T " maps wrongly"); VC_CHECK(v == 8 || (int)sizeof(T) == OM_DATA_TYPE_SIZE[v], "cppsize", "size of " #T); }
  M(bool, 9) M(char, 3) M(int8_t, 3) M(uint8_t, 2) M(int16_t, 5) M(uint16_t, 4) M(int32_t, 6) M(uint32_t, 12) M(int64_t, 7) M(uint64_t, 13) M(float, 1) M(double, 11) M(const char *, 8) M(_Complex float, 14) M(_Complex double, 15)
}
#ifdef CPPLINK
static void inverse() { // signature type names give the same codes
  auto &r = vc::pick(ROWS); if (r.code == 0) vc::prune(); vc::note("signature type %s", r.mlir); vc::nontrivial(); vc::step();
  std::vector<std::string> names = {r.mlir}; if (r.code == 1) names.push_back("float"); if (r.code == 11) names.push_back("double");
  for (auto &n : names) { std::string sig = "[ { \"type\" : \"" + n + "\" , \"dims\" : [2] , \"name\" : \"x\" } ]";
    OMTensorList *l = omTensorListCreateFromInputSignature(sig.c_str()); if (r.code >= 14) { VC_CHECK(!l, "sig-unsupported", "signature type %s is documented as unsupported but gave tensors", n.c_str()); continue; }
    VC_CHECK(l, "sig-type", "signature type %s rejected", n.c_str());
    VC_CHECK((int)omTensorGetDataType(omTensorListGetOmtByIndex(l, 0)) == r.code, "sig-code", "signature type %s gives code %d", n.c_str(), (int)omTensorGetDataType(omTensorListGetOmtByIndex(l, 0))); omTensorListDestroy(l); }
  // bound overrides are addressed by numpy names
  if (r.np[0] && r.code < 14 && r.code != 8 && r.code != 9) { std::string b = std::string(r.np) + ":3"; std::string sig = std::string("[ { \"type\" : \"") + r.mlir + "\" , \"dims\" : [1] , \"name\" : \"x\" } ]";
    OMTensorList *l = omTensorListCreateFromInputSignature(sig.c_str(), nullptr, "0: ", b.c_str(), b.c_str()); 
    VC_CHECK(l, "bound-type", "bound type name %s rejected", r.np); omTensorListDestroy(l); }
}
#endif
template <class E> std::string pr(E v, const char *f) { char b[400]; snprintf(b, sizeof b, f, v); return b; }
template <class E> void data(int code, const std::vector<E> &al, const char *f, const std::vector<std::string> &exp = {}) {
  int rank = vc::choose(7); I s; for (int i = 0; i < rank; i++) s.push_back(rank > 3 ? 1 + vc::choose(2) : vc::choose(4)); bool tr = rank >= 2 && vc::choose(2);
  int64_t n = 1; for (auto d : s) n *= d; size_t off = vc::choose(al.size()); std::vector<E> v; std::vector<std::string> es; for (int64_t i = 0; i < n; i++) { size_t k = (off + i) % al.size(); v.push_back(al[k]); es.push_back(exp.empty() ? pr(al[k], f) : exp[k]); }
  v.push_back(al[0]); (void)tr;
  OMTensor *t = omTensorCreate((void *)v.data(), s.data(), rank, (OM_DATA_TYPE)code);
  std::string e; int64_t pos = 0; std::function<void(int)> go = [&](int d) { if (d == rank) { e += es[pos++]; return; } e += "["; for (int64_t k = 0; k < s[d]; k++) { if (k) e += ", "; go(d + 1); } e += "]"; };
  go(0);
  // an empty inner dimension still prints the nesting
  std::string got = capture([&] { omTensorPrint("%d", t); }); vc::step(); vc::nontrivial(); vc::note("print data type %d rank %d", code, rank);
  VC_CHECK(got == "\tdata: (" + e + ")\n", "print-data", "type %d prints '%s' expected '\tdata: (%s)\n'", code, got.c_str(), e.c_str());
  omTensorDestroy(t);
}
static void datas() {
  switch (vc::choose(13)) {
  case 0: data<int8_t>(3, {-128, -1, 0, 127}, "%d"); break; case 1: data<uint8_t>(2, {0, 1, 128, 255}, "%u"); break; case 2: data<int16_t>(5, {-32768, -1, 0, 32767}, "%d"); break; case 3: data<uint16_t>(4, {0, 1, 65535}, "%u"); break;
  case 4: data<int32_t>(6, {INT32_MIN, -1, 0, INT32_MAX}, "%d"); break; case 5: data<uint32_t>(12, {0, 1, UINT32_MAX}, "%u"); break; case 6: data<int64_t>(7, {INT64_MIN, -1, 0, INT64_MAX}, "%ld"); break; case 7: data<uint64_t>(13, {0, 1, UINT64_MAX}, "%lu"); break;
  case 8: data<float>(1, {0, 1.5f, -2.25f, 1e10f}, "%f"); break; case 9: data<double>(11, {0, 1.5, -2.25, 1e10}, "%f"); break; case 10: data<uint8_t>(9, {0, 1}, "%d"); break;
  case 11: data<uint16_t>(10, {0x0000, 0x3c00, 0xc000, 0x7bff}, "", {"0.000000", "1.000000", "-2.000000", "65504.000000"}); break;
  case 12: data<const char *>(8, {"a", "", "hello"}, "%s"); break; }
}
int main(int argc, char **argv) {
  vc::Options o; o.splitDepth = 2; o.rule = "one execution = one type code / name / printed tensor, compared with the ONNX type table";
  return vc::main(argc, argv, o, [] { switch (vc::choose(4)) { case 0: table(); break; case 1: enums(); break; case 2: datas(); break; default:
#ifdef CPPLINK
    inverse();
#else
    vc::prune();
#endif
  } });
}
