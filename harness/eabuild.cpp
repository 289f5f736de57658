// C20: chains of constant transformations on the real ElementsAttrBuilder against naive materialised evaluation.
#include "eab.hpp"
static Env E;
static LD md(LD x) { return x - 7 * std::floor(x / 7); }
// combiners and transformers, per wide type; bool apart
template <BType B> static WideNum comb(WideNum a, WideNum b) { if (B == BType::BOOL) return WideNum::widen<BType::BOOL>(a.narrow<BType::BOOL>() && !b.narrow<BType::BOOL>()); return wide(B, md(unwide(B, a) + 2 * unwide(B, b))); }
static LD rcomb(BType t, LD a, LD b) { return t == BType::BOOL ? LD(a && !b) : md(a + 2 * b); }
template <BType B> static WideNum redc(WideNum a, WideNum b) { if (B == BType::BOOL) return WideNum::widen<BType::BOOL>(a.narrow<BType::BOOL>() != b.narrow<BType::BOOL>()); return wide(B, md(unwide(B, a) + unwide(B, b))); }
static LD rred(BType t, LD a, LD b) { return t == BType::BOOL ? LD(a != b) : md(a + b); }
template <BType B> static WideNum inc(WideNum a) { if (B == BType::BOOL) return WideNum::widen<BType::BOOL>(!a.narrow<BType::BOOL>()); return wide(B, md(unwide(B, a) + 1)); }
static LD rinc(BType t, LD a) { return t == BType::BOOL ? LD(!a) : md(a + 1); }
#define BY(t, F) (t == BType::BOOL ? F<BType::BOOL> : isFloatBType(t) ? F<BType::DOUBLE> : isSignedIntBType(t) ? F<BType::INT64> : F<BType::UINT64>)
struct C { ElementsAttr e; Ten r; };
static double val(BType t, int64_t k) { return t == BType::BOOL ? (k * 5 / 3) & 1 : (k * 3 + 1 + k / 4) % 7; }
static C base(BType t, const V &s, int form) {
  MLIRContext *c = E.ctx.get(); int64_t k = 0; bool sp = form == 1 || form == 4; Ten r = mk(t, s, [&](const V &) { return sp ? val(t, 2 + 0 * k) : val(t, k++); });
  ElementsAttrBuilder b(*E.pool); auto T = ty(c, t, s);
  switch (form) {
  case 0: case 5: case 1: return {denseOf(c, r), r};
  case 2: return {dispatchByBType(t, [&](auto bt) { using X = CppType<bt>; return b.fromArray<X>(T, [&](MutableArrayRef<X> d) { for (size_t i = 0; i < d.size(); i++) d[i] = wide(t, r.v[i]).template narrow<bt>(); }); }), r};
  case 3: return {b.fromWideNums(T, [&](MutableArrayRef<WideNum> d) { for (size_t i = 0; i < d.size(); i++) d[i] = wide(t, r.v[i]); }), r};
  default: { ElementsAttr e = denseOf(c, r); if (auto d = b.toDisposableElementsAttr(e)) e = d; return {e, r}; }
  }
}
// constants used as second operands; alternately dense and disposable
static C other(BType t, const V &s, bool disp, bool splat = false) { C x = base(t, s, splat ? (disp ? 4 : 1) : disp ? 2 : 0); if (!splat) for (LD &v : x.r.v) (void)v; return x; }
static C ints(const V &s, const std::vector<LD> &v, bool disp) { Ten r{BType::INT64, s, v}; ElementsAttr e = denseOf(E.ctx.get(), r); if (disp) if (auto d = ElementsAttrBuilder(*E.pool).toDisposableElementsAttr(e)) e = d; return {e, r}; }
typedef std::function<C(const C &)> Fn;
struct Named { std::string n; Fn f; };
static std::vector<Named> ops(const C &x, bool last) {
  const V s = x.r.shape; int R = s.size(); BType t = x.r.t; int64_t N = cnt(s); std::vector<Named> o; auto B = [] { return ElementsAttrBuilder(*E.pool); };
  auto add = [&](std::string n, Fn f) { o.push_back({n, f}); };
  add("transform", [=](const C &x) { auto f = BY(t, inc); return C{B().transform(x.e, x.e.getElementType(), f), mk(t, s, [&](const V &i) { return rinc(t, x.r.at(i)); })}; });
  for (BType u : {BType::FLOAT, BType::INT64, BType::UINT8, BType::BOOL, BType::FLOAT16, BType::INT32}) if (u != t && (last || u == BType::INT64 || u == BType::FLOAT || u == BType::BOOL))
    add(std::string("cast ") + tn(u), [=](const C &x) { return C{B().castElementType(x.e, mlirTypeOfBType(u, x.e.getContext())), mk(u, s, [&](const V &i) { LD d = x.r.at(i); return u == BType::BOOL ? LD(d != 0) : d; })}; });
  std::vector<uint64_t> p(R); std::iota(p.begin(), p.end(), 0); if (R >= 2) while (std::next_permutation(p.begin(), p.end())) { if (R == 4 && !(p[0] == 3 || (p[0] == 1 && p[3] == 3))) continue;
    add("transpose " + S_(V(p.begin(), p.end())), [=](const C &x) { V ts; for (auto q : p) ts.push_back(s[q]); return C{B().transpose(x.e, p), mk(t, ts, [&](const V &i) { V j(R); for (int k = 0; k < R; k++) j[p[k]] = i[k]; return x.r.at(j); })}; }); }
  { std::set<V> targets; targets.insert({N}); targets.insert({N, 1}); targets.insert({1, N}); if (N == 1) targets.insert(V{}); V rev(s.rbegin(), s.rend()); targets.insert(rev);
    for (int a = 0; a + 1 < R; a++) { V m = s; m[a] *= m[a + 1]; m.erase(m.begin() + a + 1); targets.insert(m); }
    for (int a = 0; a < R; a++) if (s[a] > 1) for (int64_t d : {2, 3}) if (s[a] % d == 0) { V m = s; m[a] = d; m.insert(m.begin() + a + 1, s[a] / d); targets.insert(m); }
    if (N == 0) { targets.insert({0, 3}); targets.insert({2, 0, 1}); }
    V one = s; one.insert(one.begin() + R / 2, 1); targets.insert(one);
    for (auto &g : targets) if (g != s && g.size() <= 4) add("reshape " + S_(g), [=](const C &x) { Ten r = x.r; r.shape = g; return C{B().reshape(x.e, g), r}; }); }
  { std::vector<V> targets; V e = s; e.insert(e.begin(), 2); targets.push_back(e); e[0] = 0; targets.push_back(e); for (int a = 0; a < R; a++) if (s[a] == 1) { V m = s; m[a] = 3; targets.push_back(m); m[a] = 0; targets.push_back(m); m[a] = 2; m.insert(m.begin(), 1); targets.push_back(m); }
    for (auto &g : targets) if (g.size() <= 4) add("expand " + S_(g), [=](const C &x) { return C{B().expand(x.e, g), mk(t, g, [&](const V &i) { return x.r.bat(i); })}; }); }
  for (int a = 0; a < R; a++) { std::vector<V> sz; for (int64_t k = 0; k <= s[a]; k++) sz.push_back({k, s[a] - k}); if (s[a] >= 2) { sz.push_back({1, 0, s[a] - 1}); sz.push_back({1, 1, s[a] - 2}); } sz.push_back({s[a]});
    for (auto &z : sz) for (size_t q = 0; q < z.size(); q++) add("split axis " + std::to_string(a) + " " + S_(z) + "[" + std::to_string(q) + "]", [=](const C &x) { auto v = B().split(x.e, a, z); VC_CHECK(v.size() == z.size(), "split-count", "split gives %zu results", v.size()); int64_t off = 0; C out; for (size_t i = 0; i < z.size(); i++) { V ss = s; ss[a] = z[i]; Ten r = mk(t, ss, [&](const V &j) { V k = j; k[a] += off; return x.r.at(k); }); if (i == q) out = {v[i], r}; else verify(v[i], r, "other split result", false); off += z[i]; } return out; });
    for (int form = 0; form < 3; form++) for (int64_t w : {0, 1, 2}) add("concat axis " + std::to_string(a) + " form " + std::to_string(form) + " width " + std::to_string(w), [=](const C &x) { V os = s; os[a] = w; C y = other(t, os, w != 1, w == 2); std::vector<C> in = form == 0 ? std::vector<C>{x, y} : form == 1 ? std::vector<C>{y, x} : std::vector<C>{x, y, x}; V ss = s; ss[a] = 0; std::vector<ElementsAttr> es; for (auto &i : in) { ss[a] += i.r.shape[a]; es.push_back(i.e); }
      Ten r = mk(t, ss, [&](const V &j) { V k = j; for (auto &i : in) { if (k[a] < i.r.shape[a]) return i.r.at(k); k[a] -= i.r.shape[a]; } abort(); }); return C{B().concat(es, a), r}; });
    struct Sl { int64_t st, n, step; }; std::vector<Sl> sl; sl.push_back({0, 0, 1}); if (s[a]) { sl.push_back({s[a] - 1, s[a], -1}); sl.push_back({0, (s[a] + 1) / 2, 2}); sl.push_back({s[a] - 1, 1, 5}); if (s[a] > 1) { sl.push_back({1, s[a] - 1, 1}); sl.push_back({s[a] - 1, (s[a] + 1) / 2, -2}); sl.push_back({0, s[a] - 1, 1}); } }
    for (auto q : sl) add("slice axis " + std::to_string(a) + " start " + std::to_string(q.st) + " size " + std::to_string(q.n) + " step " + std::to_string(q.step), [=](const C &x) { V ss = s, st(R, 0), sp(R, 1); ss[a] = q.n; st[a] = q.st; sp[a] = q.step; return C{B().slice(x.e, ss, st, sp), mk(t, ss, [&](const V &i) { V j = i; j[a] = q.st + i[a] * q.step; return x.r.at(j); })}; });
    for (int m = 0; m < 3; m++) add("pad axis " + std::to_string(a) + " mode " + std::to_string(m), [=](const C &x) { V pd(2 * R, 0); if (m != 1) pd[a] = 1; if (m != 0) pd[R + a] = 2; if (m == 2 && R > 1) { pd[(a + 1) % R] = 2; pd[R + (a + 1) % R] += 1; } V ss = s; for (int k = 0; k < R; k++) ss[k] += pd[k] + pd[R + k]; double pv = t == BType::BOOL ? 1 : 5; return C{B().pad(x.e, pd, wide(t, pv)), mk(t, ss, [&](const V &i) { V j = i; for (int k = 0; k < R; k++) { j[k] -= pd[k]; if (j[k] < 0 || j[k] >= s[k]) return (LD)pv; } return x.r.at(j); })}; });
    std::vector<std::pair<V, std::vector<LD>>> gi; gi.push_back({{0}, {}}); gi.push_back({{2, 0}, {}}); if (s[a]) { gi.push_back({{}, {LD(s[a] - 1)}}); gi.push_back({{}, {-1}}); gi.push_back({{3}, {0, LD(s[a] - 1), LD(-s[a])}}); gi.push_back({{2, 1}, {LD(s[a] / 2), 0}}); }
    for (size_t q = 0; q < gi.size(); q++) { auto g = gi[q]; if (R + g.first.size() > 5) continue; add("gather axis " + std::to_string(a) + " indices " + S_(g.first) + (g.second.size() ? " from " + std::to_string((int)g.second[0]) : ""), [=](const C &x) { C ix = ints(g.first, g.second, q & 1); V ss(s.begin(), s.begin() + a); ss.insert(ss.end(), g.first.begin(), g.first.end()); ss.insert(ss.end(), s.begin() + a + 1, s.end()); int ir = g.first.size();
      return C{B().gather(x.e, ix.e, a), mk(t, ss, [&](const V &i) { V j(i.begin(), i.begin() + a), ii(i.begin() + a, i.begin() + a + ir); int64_t id = ix.r.at(ii); j.push_back(id < 0 ? id + s[a] : id); j.insert(j.end(), i.begin() + a + ir, i.end()); return x.r.at(j); })}; }); }
  }
  if (R && N) for (int q = 1; q <= R; q++) for (int m = 0; m < 3; m++) add("scatterND depth " + std::to_string(q) + " mode " + std::to_string(m), [=](const C &x) { // m: two updates, negative index, none
      int rows = m == 2 ? 0 : m == 1 ? 1 : 2; V is{rows, q}, us{rows}; std::vector<LD> iv; for (int r = 0; r < rows; r++) for (int k = 0; k < q; k++) iv.push_back(m == 1 ? -1 : r == 0 ? s[k] - 1 : 0); us.insert(us.end(), s.begin() + q, s.end()); C ix = ints(is, iv, m == 0), up = other(t, us, m != 0); Ten r = x.r; int64_t sl = cnt(V(s.begin() + q, s.end()));
      for (int k = 0; k < rows; k++) { int64_t p = 0; for (int d = 0; d < R; d++) { int64_t i = d < q ? (int64_t)iv[k * q + d] : 0; p = p * s[d] + (i < 0 ? i + s[d] : i); } for (int64_t j = 0; j < sl; j++) r.v[p + j] = up.r.v[k * sl + j]; } return C{B().scatterND(x.e, ix.e, up.e), r}; });
  if (N) for (int m = 0; m < (1 << R); m++) for (int keep = 0; keep < 2; keep++) add("reduce axes mask " + std::to_string(m) + (keep ? " keepdims" : ""), [=](const C &x) { std::vector<unsigned> ax; V ss; for (int k = 0; k < R; k++) { if (m >> k & 1) { ax.insert(ax.begin(), k); if (keep) ss.push_back(1); } else ss.push_back(s[k]); }
      Ten r{t, ss, std::vector<LD>(cnt(ss), 0)}; std::vector<bool> seen(r.v.size()); V i(R, 0); for (int64_t q = 0; q < N; q++) { int64_t pos = 0; for (int k = 0; k < R; k++) if (!(m >> k & 1)) pos = pos * s[k] + i[k]; r.v[pos] = seen[pos] ? rred(t, r.v[pos], x.r.v[q]) : x.r.v[q]; seen[pos] = true; for (int a = R - 1; a >= 0; a--) { if (++i[a] < s[a]) break; i[a] = 0; } } auto f = BY(t, redc); return C{B().reduce(x.e, ax, keep, f), r}; });
  if (R && t != BType::BOOL) { int64_t K = s[R - 1]; std::vector<std::pair<V, bool>> ms{{{K}, false}, {{K, 2}, false}, {{2, K, 3}, true}, {{K, 0}, false}}; if (R > 2) ms.push_back({{s[0], K, 1}, true});
    for (auto &m : ms) for (int side = 0; side < 2; side++) { V ms_ = m.first; V A = s, Bs = ms_; if (side) { Bs = s; int64_t k2 = R == 1 ? s[0] : s[R - 2]; if (ms_.size() == 1) A = {k2}; else { A = ms_; A[A.size() - 1] = k2; A[A.size() - 2] = 2; } } else if (R == 1 && false) {}
      V ba(A.begin(), A.end() - std::min<size_t>(A.size(), 2)), bb(Bs.begin(), Bs.end() - std::min<size_t>(Bs.size(), 2)), bc; if (!bcast(ba, bb, bc)) continue; if (bc.size() > 2) continue;
      add(std::string("matMul ") + (side ? S_(A) + " x this" : "this x " + S_(Bs)), [=](const C &x) { C y = other(t, side ? A : Bs, m.second); const C &l = side ? y : x, &q = side ? x : y; int64_t M = A.size() == 1 ? 1 : A[A.size() - 2], Nn = Bs.size() == 1 ? 1 : Bs.back(), K = A.back(); V full = bc; full.push_back(M); full.push_back(Nn);
        Ten r = mk(t, full, [&](const V &i) { V b(i.begin(), i.end() - 2); double acc = 0; for (int64_t k = 0; k < K; k++) { V li = b, ri = b; if (A.size() == 1) li = {k}; else { li.push_back(i[i.size() - 2]); li.push_back(k); } if (Bs.size() == 1) ri = {k}; else { ri.push_back(k); ri.push_back(i.back()); } V lj(li.end() - A.size(), li.end()), rj(ri.end() - Bs.size(), ri.end()); for (size_t d = 0; d < lj.size(); d++) if (A[d] == 1) lj[d] = 0; for (size_t d = 0; d < rj.size(); d++) if (Bs[d] == 1) rj[d] = 0; acc += l.r.at(lj) * q.r.at(rj); } return acc; });
        V rs = bc; if (A.size() > 1) rs.push_back(M); if (Bs.size() > 1) rs.push_back(Nn); r.shape = rs; return C{B().matMul(l.e, q.e), r}; }); } }
  { std::vector<std::pair<V, int>> os{{s, 0}, {s, 1}, {V{}, 0}, {V{1}, 2}}; if (R) { V l{s.back()}; os.push_back({l, 3}); V f = s; for (int k = 1; k < R; k++) f[k] = 1; os.push_back({f, 1}); f.insert(f.begin(), 2); if (R < 3) os.push_back({f, 2}); os.push_back({V(R, 1), 0}); }
    int id = 0; for (auto &q : os) { id++; for (int side = 0; side < 2; side++) { V oshape = q.first; int form = q.second; add(std::string(side ? "combine this with " : "combine with this ") + S_(oshape) + " form " + std::to_string(form), [=](const C &x) { C y = other(t, oshape, form & 1, form >= 2); V bs; bcast(s, oshape, bs); const C &l = side ? x : y, &q = side ? y : x; auto f = BY(t, comb); return C{B().combine(l.e, q.e, ty(x.e.getContext(), t, bs), f), mk(t, bs, [&](const V &i) { return rcomb(t, l.r.bat(i), q.r.bat(i)); })}; }); }
      { V oshape = q.first; int form = q.second; add("where this, " + S_(oshape) + " form " + std::to_string(form), [=](const C &x) { C cd = other(BType::BOOL, oshape, form & 1, form >= 2), y = other(t, V{}, form == 1); V bs; bcast(s, oshape, bs); bool sw = form & 1; return C{B().where(cd.e, sw ? y.e : x.e, sw ? x.e : y.e, ty(x.e.getContext(), t, bs)), mk(t, bs, [&](const V &i) { return (cd.r.bat(i) != 0) != sw ? x.r.bat(i) : y.r.bat(i); })}; });
        if (t == BType::BOOL) add("where on this, " + S_(oshape) + " form " + std::to_string(form), [=](const C &x) { C l = other(BType::INT32, oshape, form & 1, form >= 2), q = other(BType::INT32, V{1}, true, form == 3); V bs; bcast(s, oshape, bs); V b2 = bs; if (b2.empty()) b2 = {1}; for (LD &v : q.r.v) (void)v; return C{B().where(x.e, l.e, q.e, ty(x.e.getContext(), BType::INT32, b2)), mk(BType::INT32, b2, [&](const V &i) { return x.r.bat(i) != 0 ? l.r.bat(i) : q.r.bat(i); })}; }); } } }
  if (t != BType::BOOL) add("clip", [=](const C &x) { return C{B().clip(x.e, wide(t, 2), wide(t, 4)), mk(t, s, [&](const V &i) { return std::min<LD>(4.0, std::max<LD>(2.0, x.r.at(i))); })}; });
  add("toDense", [=](const C &x) { return C{B().toDenseElementsAttr(x.e), x.r}; });
  add("toDisposable", [=](const C &x) { auto d = B().toDisposableElementsAttr(x.e); if (!d) { VC_CHECK(!E.pool->isActive(), "to-disposable", "toDisposableElementsAttr gives null although the pool is active"); return x; } return C{d, x.r}; });
  if (R) add("nonZero", [=](const C &x) { std::vector<V> h; V i(R, 0); for (int64_t k = 0; k < N; k++) { if (x.r.v[k] != 0) h.push_back(i); for (int a = R - 1; a >= 0; a--) { if (++i[a] < s[a]) break; i[a] = 0; } } return C{B().nonZero(x.e), mk(BType::INT64, {R, (int64_t)h.size()}, [&](const V &j) { return (double)h[j[1]][j[0]]; })}; });
  if (t != BType::BOOL) add("range", [=](const C &) { int64_t k = 0; return C{B().range(ty(E.ctx.get(), t, s), wide(t, 1), wide(t, 2)), mk(t, s, [&](const V &) { return 1.0 + 2 * k++; })}; });
  // comparisons
  add("equal", [=](const C &x) { auto b = B(); C same = other(t, s, true); same.r = x.r; same.e = denseOf(x.e.getContext(), x.r); VC_CHECK(b.equal(x.e, same.e) && b.equal(same.e, x.e), "equal", "not equal to itself");
    for (int64_t k = 0; k < N; k++) { Ten d = x.r; d.v[k] = t == BType::BOOL ? LD(!d.v[k]) : d.v[k] == 0 ? 1 : 0; VC_CHECK(!b.equal(x.e, denseOf(x.e.getContext(), d)), "equal", "equal to a constant that differs at %ld", (long)k); }
    for (double q : {0., 1., 3.}) { if (t == BType::BOOL && q > 1) continue; bool all = std::all_of(x.r.v.begin(), x.r.v.end(), [&](LD v) { return v == q; }); VC_CHECK(N == 0 || b.allEqual(x.e, wide(t, q)) == all, "all-equal", "allEqual %g is not %d", q, all);
      Ten d{t, V{}, {q}}; VC_CHECK(b.equal(x.e, denseOf(x.e.getContext(), d)) == all, "equal-bcast", "equal to scalar %g is not %d", q, all); V big = s; big.insert(big.begin(), 2); Ten db = mk(t, big, [&](const V &) { return q; }); VC_CHECK(b.equal(denseOf(x.e.getContext(), db), x.e) == all, "equal-bcast", "equal to broadcast %g is not %d", q, all); }
    return x; });
  return o;
}
static void body() {
  static const std::vector<V> S{{3}, {}, {2, 3}, {3, 1}, {1, 2, 3}, {0}, {2, 0}, {0, 2}, {1}, {4, 3}, {2, 2, 2}, {2, 0, 3}, {2, 1, 3, 2}};
  static const std::vector<BType> T{BType::FLOAT, BType::INT64, BType::BOOL, BType::UINT8, BType::INT32, BType::FLOAT16, BType::DOUBLE, BType::BFLOAT16, BType::UINT64, BType::INT8};
  int depth = vc::thorough() ? 3 : 2; size_t ns = vc::thorough() ? S.size() : 8;
  int mode = vc::choose(2); // 0: few types, full chains; 1: all types, single steps
  V s = S[vc::choose(mode ? S.size() : ns)]; BType t = T[vc::choose(mode ? T.size() : vc::thorough() ? 4 : 3)]; int form = vc::choose(6); if (mode) depth = 1; else if (depth == 3 && cnt(s) > 6) depth = 2;
  if (!E.ctx || E.uses++ > 1500 || !E.pool->isActive()) E.fresh();
  if (form == 5) E.pool->close();
  struct Cl { ~Cl() { if (E.pool->isActive()) E.collect(); } } cl;
  std::vector<C> chain; C x = base(t, s, form); chain.push_back(x); static const char *F[] = {"dense", "dense splat", "disposable", "wide disposable", "disposable splat", "dense, pool closed"};
  vc::note("%s %s %s", F[form], tn(t), S_(s).c_str()); std::string cx;
  for (int d = 0; d < depth; d++) { if (cnt(x.r.shape) > 200) break; auto o = ops(x, d == depth - 1); size_t k = vc::choose(o.size()); vc::note("  %s", o[k].n.c_str()); size_t sp = o[k].n.find(' '); cx = o[k].n.substr(0, sp); vc::ctx("%s", cx.c_str()); x = o[k].f(x); chain.push_back(x); vc::step(); }
  vc::nontrivial();
  verify(x.e, x.r, "result"); for (size_t i = 0; i + 1 < chain.size(); i++) verify(chain[i].e, chain[i].r, "operand", false);
  vc::state(vc::hash(std::string(vc::S->note)));
}
int main(int argc, char **argv) {
  vc::Options o; o.splitDepth = 5;
  o.rule = "every chain of constant operations up to the depth, from every shape, element type and representation; every way of reading the result and re-reading the operands";
  return vc::main(argc, argv, o, body);
}
