// C47: shapes the user gives for model inputs are applied exactly.
#include "vc.hpp"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/BuiltinTypes.h"
#include "src/Builder/ModelInputShaper.hpp"
#include "src/Support/TypeUtilities.hpp"
using namespace mlir; using namespace onnx_mlir; typedef std::vector<int64_t> V;
static MLIRContext *C; static const int64_t DY = ShapedType::kDynamic;
struct Item { const char *ids; int64_t lo, hi; }; // hi inclusive
static const Item IDS[] = {{"0", 0, 0}, {"1", 1, 1}, {"-1", -1, -1}, {"0-2", 0, 2}, {"1-1", 1, 1}, {"2-1", 2, 1}, {"11", 11, 11}, {"9-12", 9, 12}, {"007", 7, 7}, {" 3", 3, 3}};
struct Dm { const char *s; V d; };
static const Dm DMS[] = {{"3", {3}}, {"-1", {DY}}, {"3x4", {3, 4}}, {"-1x7", {DY, 7}}, {"1x-1x5", {1, DY, 5}}, {"2147483647x2", {2147483647, 2}}, {"10x20x30x40", {10, 20, 30, 40}}, {"4294967296", {4294967296ll}}, {"-1x-1x-1", {DY, DY, DY}}};
static const std::vector<V> ORIG{{}, {DY}, {6}, {DY, 8}, {2, DY, 9}, {1, 1, 1, 1, 1}};
static std::string sh(const V &v) { std::string s = "["; for (auto d : v) s += (s.size() > 1 ? "x" : "") + (d == DY ? std::string("?") : std::to_string(d)); return s + "]"; }
static void info() {
  int n = vc::choose(vc::thorough() ? 4 : 3) + 1; if (n == 4) { n = 3; } std::string s; std::map<int64_t, V> want; std::vector<std::string> parts;
  for (int i = 0; i < n; i++) { const Item &it = IDS[vc::choose(sizeof IDS / sizeof *IDS)]; const Dm &d = DMS[vc::choose(sizeof DMS / sizeof *DMS)]; s += (i ? "," : "") + std::string(it.ids) + ":" + d.s; for (int64_t k = it.lo; k <= it.hi; k++) want.insert({k, d.d}); }
  vc::note("shape information %s", s.c_str()); auto got = parseShapeInformation(s);
  VC_CHECK(got.size() == want.size(), "count", "\"%s\" describes %zu inputs, not %zu", s.c_str(), got.size(), want.size());
  for (auto &[k, d] : want) VC_CHECK(got.count(k) && got[k] == d, "dims", "\"%s\": input %ld has %s instead of %s", s.c_str(), (long)k, got.count(k) ? sh(got[k]).c_str() : "nothing", sh(d).c_str());
  unsetenv("IMPORTER_FORCE_DYNAMIC"); ModelInputShaper m; m.setShapeInformation(s); Type f = Float32Type::get(C);
  for (int i : {0, 1, 2, 3, 7, 10, 11}) for (auto &o : ORIG) { const V *u = want.count(i) ? &want[i] : want.count(-1) ? &want[-1] : nullptr; V w = o; if (u) for (size_t k = 0; k < w.size() && k < u->size(); k++) w[k] = (*u)[k];
    Type r = m.reshape(i, RankedTensorType::get(o, f)); VC_CHECK(r == RankedTensorType::get(w, f), "reshape", "\"%s\": input %d of shape %s becomes %s instead of %s", s.c_str(), i, sh(o).c_str(), sh(mlir::cast<ShapedType>(r).getShape().vec()).c_str(), sh(w).c_str()); vc::step(); }
  Type un = UnrankedTensorType::get(f); VC_CHECK(m.reshape(0, un) == un && m.reshape(0, f) == f, "unranked", "an unranked input was changed"); vc::nontrivial(); vc::state(vc::hash(s));
}
static void force() { // IMPORTER_FORCE_DYNAMIC: <input>:<dim>,<dim>|...
  static const std::pair<const char *, int> ins[] = {{"0", 0}, {"1", 1}, {"-1", -1}, {"12", 12}}; struct D { const char *s; std::vector<int> d; }; static const D ds[] = {{"0", {0}}, {"1", {1}}, {"0,2", {0, 2}}, {"2,0", {2, 0}}, {"-1", {-1}}, {"10,1", {10, 1}}};
  int n = vc::choose(3); std::string s; std::map<int, std::vector<int>> want; for (int i = 0; i < n; i++) { auto &in = ins[vc::choose(4)]; auto &d = ds[vc::choose(6)]; if (want.count(in.second) || (!want.empty() && (want.count(-1) || in.second == -1))) return; s += (i ? "|" : "") + std::string(in.first) + ":" + d.s; want[in.second] = d.d; }
  if (!n) want[-1] = {-1}; bool other = vc::flip(); vc::note("IMPORTER_FORCE_DYNAMIC=%s%s", s.c_str(), other ? ", with shape information 0:5x6,1:7" : "");
  setenv("IMPORTER_FORCE_DYNAMIC", s.c_str(), 1); ModelInputShaper m; unsetenv("IMPORTER_FORCE_DYNAMIC"); if (other) m.setShapeInformation("0:5x6,1:7"); Type f = Float32Type::get(C);
  for (int i : {0, 1, 2, 12}) for (auto &o : ORIG) { V w = o; const std::vector<int> *u = want.count(-1) ? &want[-1] : want.count(i) ? &want[i] : nullptr; if (u) { for (size_t k = 0; k < w.size(); k++) for (int d : *u) if (d == -1 || d == (int)k) w[k] = DY; } else if (other && i < 2) { V us = i ? V{7} : V{5, 6}; for (size_t k = 0; k < w.size() && k < us.size(); k++) w[k] = us[k]; }
    Type r = m.reshape(i, RankedTensorType::get(o, f)); VC_CHECK(r == RankedTensorType::get(w, f), "force", "IMPORTER_FORCE_DYNAMIC=%s: input %d of shape %s becomes %s instead of %s", s.c_str(), i, sh(o).c_str(), sh(mlir::cast<ShapedType>(r).getShape().vec()).c_str(), sh(w).c_str()); vc::step(); }
  vc::nontrivial(); vc::state(vc::hash(s + (other ? "+" : "")));
}
static void body() { if (!C) C = new MLIRContext(MLIRContext::Threading::DISABLED); if (vc::flip()) force(); else info(); if (0) VC_CHECK(parseShapeInformation("").empty(), "empty", "x"); }
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 3; o.rule = "all lists of 1-3 settings over 10 input notations x 9 dimension lists, applied to 7 inputs x 6 shapes; all settings of IMPORTER_FORCE_DYNAMIC with up to 2 entries"; return vc::main(argc, argv, o, body); }
