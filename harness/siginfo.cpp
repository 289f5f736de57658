// C15: input tensors made from signatures, shape and value information, against an independent reading of both
#include "vc.hpp"
#include "src/Runtime/OMTensorHelper.hpp"
#include "src/Runtime/OMTensorListHelper.hpp"
#include <cmath>
typedef std::vector<int64_t> I;
struct TY { const char *name; int code, sz; char kind; const char *np; double lo, hi; }; // kind: f float, i signed, u unsigned, b bool, s string, h half
static const std::vector<TY> TYS = {{"f32", 1, 4, 'f', "float32", -.1, .1}, {"i64", 7, 8, 'i', "int64", -10, 10}, {"i1", 9, 1, 'b', "bool_", 0, 1}, {"ui8", 2, 1, 'u', "uint8", 0, 10}, {"string", 8, 8, 's', "str", 0, 63}, {"f16", 10, 2, 'h', "float16", -.1, .1}, {"f64", 11, 8, 'f', "float64", -.1, .1},
  {"i8", 3, 1, 'i', "int8", -10, 10}, {"i16", 5, 2, 'i', "int16", -10, 10}, {"i32", 6, 4, 'i', "int32", -10, 10}, {"ui16", 4, 2, 'u', "uint16", 0, 10}, {"ui32", 12, 4, 'u', "uint32", 0, 10}, {"ui64", 13, 8, 'u', "uint64", 0, 10}, {"float", 1, 4, 'f', "float32", -.1, .1}, {"double", 11, 8, 'f', "float64", -.1, .1}};
static const char *UNSUP[] = {"bf16", "f8e5m2", "complex64", "ui4", "i4", "undefined", "xyz", "", "F32", "f32 ", "OUT OF BOUND"};
struct In { TY t; I dims; };
static double halfToD(uint16_t h) { int e = h >> 10 & 31, m = h & 1023; double v = e == 0 ? std::ldexp(m, -24) : e == 31 ? (m ? NAN : INFINITY) : std::ldexp(m + 1024, e - 25); return h & 0x8000 ? -v : v; }
static double val(const TY &t, const void *p, int64_t i, std::string *txt = nullptr) {
  switch (t.code) { case 1: return ((float *)p)[i]; case 11: return ((double *)p)[i]; case 10: return halfToD(((uint16_t *)p)[i]); case 7: return ((int64_t *)p)[i]; case 6: return ((int32_t *)p)[i]; case 5: return ((int16_t *)p)[i]; case 3: return ((int8_t *)p)[i];
  case 2: case 9: return ((uint8_t *)p)[i]; case 4: return ((uint16_t *)p)[i]; case 12: return ((uint32_t *)p)[i]; case 13: return (double)((uint64_t *)p)[i];
  case 8: { const char *s = ((const char **)p)[i]; char *e; long v = strtol(s, &e, 10); VC_CHECK(*s && !*e, "string-value", "string element '%s' is not a decimal number", s); return v; } }
  return 0;
}
struct Spec { bool mn = false, mx = false, soz = false; double lo = 0, hi = 0; int64_t n = 0; };
static std::string sig(const std::vector<In> &ins, int style) {
  std::string s = style == 0 ? "[ " : style == 1 ? "[" : "\t[\n"; bool first = true; int k = 0;
  for (auto &i : ins) { std::string d; for (size_t j = 0; j < i.dims.size(); j++) d += (j ? (style == 1 ? "," : " , ") : "") + std::to_string(i.dims[j]);
    std::string T = std::string("\"type\" : \"") + i.t.name + "\"", Dm = std::string(style == 1 ? "\"dims\":[" : "\"dims\" : [") + d + "]", N = std::string("\"name\" : \"in x[") + std::to_string(k++) + "]\""; if (style == 1) T = std::string("\"type\":\"") + i.t.name + "\"";
    if (!first) s += style == 1 ? "," : " , "; first = false;
    s += style == 0 ? "   { " + T + " , " + Dm + " , " + N + " }\n" : style == 1 ? "{" + T + "," + Dm + "}" : style == 2 ? "{" + N + "," + Dm + " ,\n" + T + "}" : "{ " + Dm + "," + T + ", \"other\" : \"{}[,\"}"; }
  return s + (style == 1 ? "]" : "\n]");
}
// reads valid shape information; returns false if malformed, dontcare set if the documentation does not say
static bool readInt(const std::string &s, size_t &p, int64_t &v, bool &dc) { while (p < s.size() && isspace((unsigned char)s[p])) p++; size_t b = p; if (p < s.size() && (s[p] == '-' || s[p] == '+')) { if (s[p] == '+') dc = true; p++; } size_t d = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == d) return false; if (p - d > 6) dc = true; v = atoll(s.substr(b, p - b).c_str()); while (p < s.size() && isspace((unsigned char)s[p])) p++; return true; }
static bool readShape(const std::string &s, int n, std::vector<I> &ov, std::vector<bool> &has, bool &dc) {
  ov.assign(n, {}); has.assign(n, false); size_t p = 0; if (s.empty()) return true;
  while (true) { if (p == s.size()) { dc = true; return true; } int64_t a, b; if (!readInt(s, p, a, dc)) return false; b = a; if (a < -1 || a >= n) return false; if (p < s.size() && s[p] == '-') { if (a < 0) return false; p++; if (p < s.size() && !isdigit((unsigned char)s[p])) dc = true; if (!readInt(s, p, b, dc)) return false; if (b < a || b >= n) return false; }
    if (p >= s.size() || s[p] != ':') return false; p++; I d; while (true) { int64_t v; if (!readInt(s, p, v, dc)) return false; if (v < -1) return false; d.push_back(v); if (p < s.size() && s[p] == 'x') { p++; if (p >= s.size() || s[p] == ',') { dc = true; break; } continue; } break; }
    for (int i = a < 0 ? 0 : a; i <= (a < 0 ? n - 1 : b); i++) { ov[i] = d; has[i] = true; } if (p + 1 <= s.size() && s[p] == ':' && (p + 1 == s.size() || s[p + 1] == ',')) { p++; dc = true; } if (p == s.size()) return true; if (s[p] != ',') return false; p++; }
}
static void check(const std::vector<In> &ins, const std::string &sg, const char *shape, const std::vector<Spec> &sp, const char *vinfo, const char *lb, const char *ub, const double *dlo, const double *dhi, bool vinfoBad) {
  vc::step(); int n = ins.size(); std::vector<I> ov; std::vector<bool> has; bool dc = false, ok = readShape(shape ? shape : "", n, ov, has, dc); std::vector<I> want; bool mism = false;
  if (ok) for (int i = 0; i < n; i++) { I d = ins[i].dims; if (has[i]) { if (ov[i].size() != d.size()) mism = true; for (size_t k = 0; k < d.size() && k < ov[i].size(); k++) { if (d[k] >= 0 && ov[i][k] >= 0 && d[k] != ov[i][k]) ok = false; else if (d[k] < 0) d[k] = ov[i][k]; } } for (auto x : d) if (x < 0) ok = false; want.push_back(d); }
  if (vinfoBad) ok = false; bool rev = false;
  if (ok) for (int i = 0; i < n; i++) { if (sp[i].soz) { if (want[i].empty() || ins[i].t.kind == 'h' || ins[i].t.kind == 's') ok = false; } else { double lo = sp[i].mn ? sp[i].lo : dlo[ins[i].t.code], hi = sp[i].mx ? sp[i].hi : dhi[ins[i].t.code]; if (lo > hi) { ok = false; rev = true; } } }
  char *heap = strdup(sg.c_str()); OMTensorList *l = omTensorListCreateFromInputSignature(heap, shape, vinfo, lb, ub, false); free(heap);
  struct D { OMTensorList *l; ~D() { omTensorListDestroy(l); } } del{l};
  if (dc || (ok && mism)) { if (!l) return; if (!ok) return; }
  VC_CHECK(ok || !l, rev ? "reversed-bounds" : "accepted", "signature %s shape '%s' values '%s' is accepted", sg.c_str(), shape ? shape : "(null)", vinfo ? vinfo : "(null)"); VC_CHECK(!ok || l, "rejected", "signature %s shape '%s' values '%s' is rejected", sg.c_str(), shape ? shape : "(null)", vinfo ? vinfo : "(null)");
  if (!l) return; vc::nontrivial(); VC_CHECK(omTensorListGetSize(l) == n, "count", "%ld tensors for %d inputs", (long)omTensorListGetSize(l), n);
  for (int i = 0; i < n; i++) { OMTensor *t = omTensorListGetOmtByIndex(l, i); const TY &ty = ins[i].t; int r = want[i].size(); VC_CHECK((int)omTensorGetDataType(t) == ty.code, "type", "input %d has type %d, expected %d", i, (int)omTensorGetDataType(t), ty.code); VC_CHECK(omTensorGetRank(t) == r, "rank", "input %d has rank %ld, expected %d", i, (long)omTensorGetRank(t), r);
    int64_t el = 1; for (int k = 0; k < r; k++) { VC_CHECK(omTensorGetShape(t)[k] == want[i][k], "dims", "input %d dim %d is %ld, expected %ld", i, k, (long)omTensorGetShape(t)[k], (long)want[i][k]); el *= want[i][k]; } int64_t st = 1; for (int k = r - 1; k >= 0; k--) { VC_CHECK(omTensorGetStrides(t)[k] == st, "strides", "input %d stride %d", i, k); st *= want[i][k]; }
    VC_CHECK(omTensorGetOwning(t), "owning", "input %d does not own its data", i); const void *p = omTensorGetDataPtr(t); double lo = sp[i].mn ? sp[i].lo : dlo[ty.code], hi = sp[i].mx ? sp[i].hi : dhi[ty.code];
    if (ty.kind == 'b') { lo = lo > .5; hi = hi > .5; } if (strchr("ius", ty.kind)) { lo = std::trunc(lo); hi = std::trunc(hi); } if (ty.kind == 'f' && ty.sz == 4) { lo = (float)lo; hi = (float)hi; } if (ty.kind == 'h') { double s = 1e-3 * (std::fabs(lo) + std::fabs(hi)) + 1e-7; lo -= s; hi += s; }
    if (sp[i].soz) { int64_t in = want[i].back(); for (int64_t row = 0; in && row < el / in; row++) { int64_t ones = 0; for (int64_t c = 0; c < in; c++) { double v = val(ty, p, row * in + c); VC_CHECK(v == 0 || v == 1, "soz", "element %g of a ones-then-zeros row", v); if (v == 1) { VC_CHECK(ones == c, "soz", "a one after a zero"); ones++; } } if (sp[i].n >= 0) VC_CHECK(ones == std::min(sp[i].n, in), "soz", "%ld leading ones, expected %ld", (long)ones, (long)std::min(sp[i].n, in)); else VC_CHECK(ones >= 1 && ones <= std::max<int64_t>(in - 1, 1), "soz", "%ld leading ones of %ld", (long)ones, (long)in); } }
    else for (int64_t e = 0; e < el; e++) { double v = val(ty, p, e); VC_CHECK(v >= lo && v <= hi, "bounds", "input %d (%s) element %g outside [%g, %g]", i, ty.name, v, lo, hi); }
  }
}
static const std::vector<I> DIMS = {{}, {2}, {-1}, {2, -1}, {0, 3}, {-1, -1}, {3, 0}, {1, 2, 3}};
struct Bounds { double lo[32], hi[32]; Bounds() { for (int i = 0; i < 32; i++) lo[i] = hi[i] = 0; for (auto &t : TYS) { lo[t.code] = t.lo; hi[t.code] = t.hi; } } };
static void quiet() { static bool done = false; if (done) return; done = true; if (!vc::G_replay) { int f = open("/dev/null", O_WRONLY); dup2(f, 2); } omDefineSeed(7, 1); }
static void shapes() { // well-formed signatures with every kind of shape information
  int n = 1 + vc::choose(vc::thorough() ? 3 : 2); std::vector<In> ins; for (int i = 0; i < n; i++) ins.push_back({TYS[n == 1 ? vc::choose(TYS.size()) : (i * 2 + 1) % 5], vc::pick(DIMS)}); int style = vc::choose(4); std::string sg = sig(ins, style); vc::note("%s", sg.c_str());
  static const std::vector<std::string> SH = {"", "0:2", "0:2x3", "1:4", "0:2x3,1:4x5", "-1:2", "-1:2x4", "0-1:2x3", "0:-1x3", "0:0x3,0:2x3", " 0 : 2 x 3 ", "1:2x3,0:2", "-1:2x3,0:-1x4", "0:1x2x3", "2:1", "0-2:2", "1-0:2", "0:-2", "0:0"}; std::string sh = vc::pick(SH); vc::note("shape '%s'", sh.c_str());
  Bounds b; std::vector<Spec> sp(n); check(ins, sg, sh.empty() && vc::flip() ? nullptr : sh.c_str(), sp, nullptr, nullptr, nullptr, b.lo, b.hi, false); vc::state(vc::hash(sg + sh));
}
struct VI { const char *s; int lo, hi; Spec sp; bool bad; };
static Spec mk(bool mn, double lo, bool mx, double hi, bool soz = false, int64_t n = 0) { Spec s; s.mn = mn; s.lo = lo; s.mx = mx; s.hi = hi; s.soz = soz; s.n = n; return s; }
static void values() {
  static const std::vector<VI> V = {{"", 0, -1, {}, false}, {"0:min1max5", 0, 0, mk(1, 1, 1, 5), false}, {"0:min1 max5", 0, 0, mk(1, 1, 1, 5), false}, {"-1:val3", 0, 9, mk(1, 3, 1, 3), false}, {"0:min20", 0, 0, mk(1, 20, 0, 0), false}, {"1:max-20", 1, 1, mk(0, 0, 1, -20), false}, {"0-1:max0", 0, 1, mk(0, 0, 1, 0), false}, {"1:soz2", 1, 1, mk(0, 0, 0, 0, 1, 2), false}, {"0:soz-1", 0, 0, mk(0, 0, 0, 0, 1, -1), false}, {"0:soz0", 0, 0, mk(0, 0, 0, 0, 1, 0), false}, {"-1:soz9", 0, 9, mk(0, 0, 0, 0, 1, 9), false},
    {"0:min5max1", 0, 0, mk(1, 5, 1, 1), false}, {"0:soz-2", 0, 0, {}, true}, {"0:soz1min0", 0, 0, {}, true}, {"0:foo1", 0, 0, {}, true}, {"0:min", 0, 0, {}, true}, {"0min1", 0, 0, {}, true}, {"5:min1", 0, 0, {}, true}, {"0:1", 0, 0, {}, true}, {"0:min1;", 0, 0, {}, true}};
  static const std::vector<std::pair<std::string, std::pair<double, int>>> LB = {{"", {0, -1}}, {"float32:0.05,int64:4", {0, 1}}, {" int64 : -3 ", {0, 2}}, {"bool:1,uint8:3,str:60,float16:0.05", {0, 3}}, {"int64:20", {0, 4}}, {"foo:1", {0, 9}}, {"int64", {0, 9}}, {"int64:", {0, 9}}, {"int64:1x", {0, 9}}, {":1", {0, 9}}};
  int n = 1 + vc::choose(2); std::vector<In> ins; for (int i = 0; i < n; i++) ins.push_back({TYS[i == 0 ? vc::choose(13) : 0], vc::pick(std::vector<I>{{}, {5}, {2, 3}, {2, 0}, {2, 1}})}); std::string sg = sig(ins, 0);
  const VI &v = vc::pick(V); int lbi = vc::choose(LB.size()); bool upper = vc::flip(); Bounds b; std::vector<Spec> sp(n); bool bad = v.bad; vc::note("%s values '%s' %s default bounds '%s'", sg.c_str(), v.s, upper ? "upper" : "lower", LB[lbi].first.c_str());
  if (*v.s && !v.bad) { if (v.lo >= n || (v.hi >= n && v.hi != 9)) bad = true; for (int i = v.lo; i <= v.hi && i < n; i++) sp[i] = v.sp; }
  double *d = upper ? b.hi : b.lo; int k = LB[lbi].second.second; if (k == 1) { d[1] = .05; d[7] = 4; } else if (k == 2) d[7] = -3; else if (k == 3) { d[9] = 1; d[2] = 3; d[8] = 60; d[10] = .05; } else if (k == 4) d[7] = 20; else if (k == 9) bad = true;
  for (int i = 0; i < n; i++) if (ins[i].t.kind == 'u' && !sp[i].soz && ((sp[i].mn && sp[i].lo < 0) || (sp[i].mx && sp[i].hi < 0))) vc::prune(); // bounds outside the type
  check(ins, sg, nullptr, sp, v.s, upper ? nullptr : LB[lbi].first.c_str(), upper ? LB[lbi].first.c_str() : nullptr, b.lo, b.hi, bad); vc::state(vc::hash(sg, lbi * 2 + upper));
}
static void damaged() { // every prefix, and every single-character change, of signatures and shape information
  Bounds b; static const std::string SUB = std::string("{}[]\":,x- 5\0", 12); int what = vc::choose(3); std::vector<In> ins = {{TYS[0], {2, -1}}, {TYS[1], {-1}}}; std::vector<Spec> sp(2); std::string shape = "0:2x3,1:4";
  if (what == 0) { int style = vc::choose(4); std::string sg = sig(ins, style); size_t n = vc::choose(sg.size()); while (n && isspace((unsigned char)sg[n - 1])) n--; std::string t = sg.substr(0, n); char *h = strdup(t.c_str()); OMTensorList *l = omTensorListCreateFromInputSignature(h, shape.c_str()); free(h); vc::step(); vc::nontrivial(); vc::note("truncated: %s", t.c_str()); vc::state(vc::hash(t)); bool bad = l; omTensorListDestroy(l); VC_CHECK(!bad, "truncated", "the truncated signature %s is accepted", t.c_str()); }
  else if (what == 1) { int style = vc::choose(4); std::string sg = sig(ins, style); size_t at = vc::choose(sg.size()); int c = vc::choose(SUB.size() + 2); std::string t = sg; if (c == (int)SUB.size()) t.erase(at, 1); else if (c == (int)SUB.size() + 1) t.insert(at, 1, sg[at]); else t[at] = SUB[c]; vc::note("damaged: %s", t.c_str()); vc::state(vc::hash(t));
    char *h = strdup(t.c_str()); OMTensorList *l = omTensorListCreateFromInputSignature(h, nullptr); char *h2 = strdup(t.c_str()); OMTensorList *l2 = omTensorListCreateFromInputSignature(h2, shape.c_str()); free(h); free(h2); vc::step(2); struct D { OMTensorList *a, *b; ~D() { omTensorListDestroy(a); omTensorListDestroy(b); } } d{l, l2};
    for (OMTensorList *x : {l, l2}) if (x) { vc::nontrivial(); for (int i = 0; i < omTensorListGetSize(x); i++) { OMTensor *q = omTensorListGetOmtByIndex(x, i); TY ty{}; bool f = false; for (auto &y : TYS) if (y.code == (int)omTensorGetDataType(q)) { ty = y; f = true; } VC_CHECK(f, "type", "input %d of %s has the undefined type %d", i, t.c_str(), (int)omTensorGetDataType(q)); VC_CHECK(omTensorGetRank(q) >= 0 && omTensorGetRank(q) < 10, "rank", "rank"); int64_t el = 1; for (int k = 0; k < omTensorGetRank(q); k++) el *= omTensorGetShape(q)[k]; VC_CHECK(el >= 0, "dims", "negative dims"); for (int64_t e = 0; e < el && e < 1000; e++) val(ty, omTensorGetDataPtr(q), e); } } }
  else { static const std::vector<std::string> SH = {"0:2x3,1:4", "-1:3x3", "0-1:4x5", " 1 : 4 , 0 : 2 x 3 "}; std::string s = vc::pick(SH); size_t at = vc::choose(s.size()); int c = vc::choose(SUB.size() + 2); std::string t = s; if (c == (int)SUB.size()) t.erase(at, 1); else if (c == (int)SUB.size() + 1) t.insert(at, 1, s[at]); else t[at] = SUB[c]; t = t.c_str(); vc::note("shape '%s'", t.c_str()); vc::state(vc::hash(t)); check(ins, sig(ins, 0), t.c_str(), sp, nullptr, nullptr, nullptr, b.lo, b.hi, false); }
}
static void unsupported() { const char *u = UNSUP[vc::choose(11)]; In a{{u, 0, 0, 'x', "", 0, 0}, {2}}; std::vector<In> ins = {a}; if (vc::flip()) ins.insert(ins.begin(), {TYS[0], {3}}); std::string s = sig(ins, vc::choose(4)); vc::step(); vc::nontrivial(); vc::note("%s", s.c_str()); vc::state(vc::hash(s)); OMTensorList *l = omTensorListCreateFromInputSignature(s.c_str()); bool bad = l; omTensorListDestroy(l); VC_CHECK(!bad, "unsupported", "type '%s' is accepted", u);
  for (const char *m : {"", "[", "[]", "{}", "[ {} ]", "null", "[ { \"dims\" : [2] } ]", "[ { \"type\" : 5 , \"dims\" : [2] } ]", "[ { \"seq\" : { \"type\" : \"f32\" , \"dims\" : [] } } ]"}) { OMTensorList *x = omTensorListCreateFromInputSignature(m); bool b = x; omTensorListDestroy(x); VC_CHECK(!b, "malformed", "signature '%s' is accepted", m); } VC_CHECK(!omTensorListCreateFromInputSignature(nullptr), "null", "a null signature is accepted"); }
static void body() { quiet(); switch (vc::choose(4)) { case 0: shapes(); break; case 1: values(); break; case 2: damaged(); break; default: unsupported(); } }
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 3; o.rule = "an execution is non-trivial if tensors were created and compared, or a malformed signature was offered"; return vc::main(argc, argv, o, body); }
