// C19: the real stride computations against naive index arithmetic.
#include "vc.hpp"
#include "src/Dialect/ONNX/ElementsAttr/Strides.hpp"
#include "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp"
#include <numeric>
using namespace onnx_mlir; using namespace llvm;
typedef std::vector<int64_t> V;
static std::string S_(ArrayRef<int64_t> v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static int64_t cnt(const V &s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
// all indices in row-major order, by recursion
static void indices(const V &s, std::vector<std::vector<uint64_t>> &out) {
  std::vector<uint64_t> cur; std::function<void()> go = [&] { if (cur.size() == s.size()) { out.push_back(cur); return; } for (int64_t i = 0; i < s[cur.size()]; i++) { cur.push_back(i); go(); cur.pop_back(); } }; go();
}
static int64_t dot(const std::vector<uint64_t> &i, ArrayRef<int64_t> st) { int64_t p = 0; for (size_t k = 0; k < i.size(); k++) p += (int64_t)i[k] * st[k]; return p; }
static V pickShape(int maxRank, const V &dims) { int r = vc::choose(maxRank + 1); V s; for (int i = 0; i < r; i++) s.push_back(vc::pick(dims)); return s; }
template <size_t N> static void iter(const V &s, std::array<V, N> st, bool post) {
  std::array<ArrayRef<int64_t>, N> a; for (size_t i = 0; i < N; i++) a[i] = st[i];
  std::vector<std::vector<uint64_t>> want; indices(s, want); size_t k = 0; StridesRange<N> R(s, a);
  VC_CHECK(R.size() == want.size() && R.empty() == want.empty(), "range-size", "shape %s: size %zu", S_(s).c_str(), R.size());
  auto check = [&](const StridesIndexOffsets<N> &io) {
    VC_CHECK(k < want.size(), "range-long", "shape %s: more than %zu positions", S_(s).c_str(), want.size());
    VC_CHECK(io.flattenedIndex == k, "range-flat", "shape %s: position %zu has flattened index %lu", S_(s).c_str(), k, (unsigned long)io.flattenedIndex);
    VC_CHECK(std::vector<uint64_t>(io.index.begin(), io.index.end()) == want[k], "range-index", "shape %s: wrong index at position %zu", S_(s).c_str(), k);
    for (size_t i = 0; i < N; i++) VC_CHECK(io[i] == dot(want[k], st[i]) && io.at(i) == io.offsets[i], "range-offset", "shape %s strides %s: offset %zu at position %zu is %ld, not %ld", S_(s).c_str(), S_(st[i]).c_str(), i, k, (long)io[i], (long)dot(want[k], st[i]));
    k++; vc::step();
  };
  if (!post) for (auto &io : R) check(io);
  else for (StridesIterator<N> it(ArrayRef<int64_t>(s), a), e{ArrayRef<int64_t>(s)}; it != e;) { StridesIterator<N> c = it++; check(*c); VC_CHECK(!(c == it), "range-eq", "iterator equal after increment"); }
  VC_CHECK(k == want.size(), "range-short", "shape %s: %zu positions instead of %zu", S_(s).c_str(), k, want.size());
}
static void body() {
  switch (vc::choose(5)) {
  case 0: { // default strides, contiguity, flattening
    V s = pickShape(vc::thorough() ? 6 : 5, {0, 1, 2, 3, 5}); vc::note("shape %s", S_(s).c_str()); vc::nontrivial();
    std::vector<std::vector<uint64_t>> ix; indices(s, ix); auto d = getDefaultStrides(s);
    VC_CHECK(d.size() == s.size(), "default-rank", "rank %zu", d.size());
    for (size_t k = 0; k < ix.size(); k++) {
      VC_CHECK(getStridesPosition(ix[k], d) == k, "default", "shape %s default strides %s: element %zu is at %lu", S_(s).c_str(), S_(d).c_str(), k, (unsigned long)getStridesPosition(ix[k], d));
      auto u = unflattenIndex(s, k); VC_CHECK(std::vector<uint64_t>(u.begin(), u.end()) == ix[k], "unflatten", "shape %s: unflattenIndex(%zu)", S_(s).c_str(), k); vc::step();
    }
    for (size_t i = 0; i < s.size(); i++) VC_CHECK(s[i] != 1 || d[i] == 0, "default-one", "dim of size 1 has stride %ld", (long)d[i]);
    VC_CHECK(areStridesContiguous(s, d), "contiguous", "default strides of %s are not contiguous", S_(s).c_str());
    auto z = getSplatStrides(s); VC_CHECK(z.size() == s.size() && areStridesSplat(z), "splat", "splat strides %s", S_(z).c_str());
    for (auto x : z) VC_CHECK(x == 0, "splat", "splat strides %s", S_(z).c_str());
    // one stride changed
    for (size_t i = 0; i < s.size(); i++) for (int64_t dl : {-1, 1, 7}) { auto e = d; e[i] += dl; if (e[i] < 0) continue; VC_CHECK(!areStridesContiguous(s, e), "not-contiguous", "shape %s strides %s reported contiguous", S_(s).c_str(), S_(e).c_str()); VC_CHECK(areStridesSplat(e) == std::all_of(e.begin(), e.end(), [](int64_t x) { return !x; }), "is-splat", "strides %s", S_(e).c_str()); }
    for (int64_t w : {1, 2, 4, 8}) { // expansion by leading dims
      V ex = s; ex.insert(ex.begin(), w == 8 ? 0 : w); if (w == 4) ex.insert(ex.begin(), 2); auto e = expandStrides(d, ex); VC_CHECK(e.size() == ex.size(), "expand-rank", "expand"); size_t off = ex.size() - s.size();
      for (size_t i = 0; i < ex.size(); i++) VC_CHECK(e[i] == (i < off ? 0 : d[i - off]), "expand", "strides %s expanded to %s give %s", S_(d).c_str(), S_(ex).c_str(), S_(e).c_str()); }
    break; }
  case 1: { // iteration, arbitrary strides
    V s = pickShape(3, {0, 1, 2, 3}); int n = vc::choose(3) + 1; bool post = vc::flip(); std::array<V, 3> st; 
    for (int i = 0; i < n; i++) for (size_t k = 0; k < s.size(); k++) st[i].push_back(i == 0 ? vc::pick<int64_t>({0, 1, 4, -3}) : i == 1 ? vc::pick<int64_t>({2, -1}) : 5 - (int64_t)k);
    vc::note("iterate shape %s with %d strides, first %s", S_(s).c_str(), n, S_(st[0]).c_str()); vc::nontrivial();
    if (n == 1) iter<1>(s, {st[0]}, post); else if (n == 2) iter<2>(s, {st[0], st[1]}, post); else iter<3>(s, st, post);
    break; }
  case 2: { // unpacking: every valid strided view of a buffer, every element width
    V s = pickShape(vc::thorough() ? 4 : 3, {0, 1, 2, 3}); unsigned w = 1u << vc::choose(4); V st; int64_t last = 0;
    for (size_t k = 0; k < s.size(); k++) { st.push_back(s[k] == 1 ? 0 : vc::pick<int64_t>({0, 1, 2, 3, 6})); last += (s[k] - 1) * st.back(); }
    size_t drop = 0; while (drop < st.size() && st[drop] == 0) drop++; drop = drop ? vc::choose(drop + 1) : 0; // leading zero strides may be left out
    vc::note("unpack shape %s strides %s width %u, %zu leading strides left out", S_(s).c_str(), S_(st).c_str(), w, drop); vc::nontrivial();
    int64_t n = cnt(s); if (!n) last = -1;
    char *src = (char *)malloc((last + 1) * w), *dst = (char *)malloc(n * w); for (int64_t i = 0; i < (last + 1) * (int64_t)w; i++) src[i] = i * 37 + 11;
    ArrayRef<int64_t> sst = ArrayRef<int64_t>(st).drop_front(drop);
    restrideArray(w, s, sst, ArrayRef<char>(src, (last + 1) * w), MutableArrayRef<char>(dst, n * w));
    std::vector<std::vector<uint64_t>> ix; indices(s, ix);
    for (size_t k = 0; k < ix.size(); k++, vc::step()) VC_CHECK(!memcmp(dst + k * w, src + dot(ix[k], st) * w, w), "restride", "shape %s strides %s width %u: element %zu", S_(s).c_str(), S_(st).c_str(), w, k);
    free(src); free(dst); break; }
  case 3: { // reshape without copying
    bool derived = vc::choose(2); V s, st;
    if (derived) { // strides reached by transposing and broadcasting a row-major array
      V base = pickShape(3, {1, 2, 3, 4}); auto d = getDefaultStrides(base); std::vector<uint64_t> perm(base.size()); std::iota(perm.begin(), perm.end(), 0); int p = vc::choose(base.size() == 3 ? 6 : base.size() == 2 ? 2 : 1); while (p--) std::next_permutation(perm.begin(), perm.end());
      for (size_t i = 0; i < base.size(); i++) { s.push_back(base[perm[i]]); st.push_back(d[perm[i]]); if (s.back() == 1 && vc::flip()) s.back() = vc::pick<int64_t>({2, 3}); }
      if (vc::flip()) { s.insert(s.begin(), 2); st.insert(st.begin(), 0); }
    } else { s = pickShape(3, {1, 2, 3, 4}); for (auto d : s) st.push_back(d == 1 ? 0 : vc::pick<int64_t>({0, 1, 2, 3, 4, 6, 12})); }
    int64_t n = cnt(s); if (n > 72) vc::prune();
    vc::note("reshape shape %s strides %s", S_(s).c_str(), S_(st).c_str()); vc::nontrivial();
    std::vector<std::vector<uint64_t>> ix; indices(s, ix);
    // every target shape of up to 4 dims with that number of elements
    std::vector<V> targets; std::function<void(V, int64_t)> go = [&](V cur, int64_t rest) { if (rest == 1) targets.push_back(cur); if (cur.size() == 4) return; for (int64_t d = 1; d <= rest; d++) if (rest % d == 0) { V c = cur; c.push_back(d); go(c, rest / d); } }; go({}, n);
    for (auto &t : targets) {
      vc::ctx("reshape"); auto r = reshapeStrides(s, st, t); std::vector<std::vector<uint64_t>> jx; indices(t, jx); vc::step();
      // the only candidate: the stride of a dim is the offset of its unit step
      V c; for (size_t a = 0; a < t.size(); a++) { if (t[a] == 1) { c.push_back(0); continue; } int64_t inner = 1; for (size_t b = a + 1; b < t.size(); b++) inner *= t[b]; c.push_back(dot(ix[inner], st)); }
      bool exists = true; for (size_t k = 0; k < jx.size(); k++) if (dot(jx[k], c) != dot(ix[k], st)) { exists = false; break; }
      VC_CHECK(r.has_value() == exists, exists ? "reshape-missed" : "reshape-wrong", "shape %s strides %s to %s: %s, %s", S_(s).c_str(), S_(st).c_str(), S_(t).c_str(), r ? S_(*r).c_str() : "no strides offered", exists ? S_(c).c_str() : "no strides exist");
      if (r) VC_CHECK(V(r->begin(), r->end()) == c, "reshape-strides", "shape %s strides %s to %s: %s instead of %s", S_(s).c_str(), S_(st).c_str(), S_(t).c_str(), S_(*r).c_str(), S_(c).c_str());
    }
    break; }
  case 4: { // permutations
    V s = pickShape(5, {0, 1, 2, 7}); std::vector<uint64_t> perm(s.size()); std::iota(perm.begin(), perm.end(), 0); vc::note("permutations of %s", S_(s).c_str()); vc::nontrivial();
    do { auto t = transposeDims(s, perm); VC_CHECK(t.size() == s.size(), "transpose", "rank");
      for (size_t i = 0; i < s.size(); i++) VC_CHECK(t[i] == s[perm[i]], "transpose", "transposed %s gives %s", S_(s).c_str(), S_(t).c_str());
      auto u = untransposeDims(t, perm); VC_CHECK(V(u.begin(), u.end()) == s, "untranspose", "untransposed gives %s, not %s", S_(u).c_str(), S_(s).c_str()); vc::step();
    } while (std::next_permutation(perm.begin(), perm.end()));
    // a transposed view addresses the transposed tensor
    auto d = getDefaultStrides(s); std::iota(perm.begin(), perm.end(), 0);
    do { auto ts = transposeDims(s, perm), td = transposeDims(d, perm); V tsv(ts.begin(), ts.end()); std::vector<std::vector<uint64_t>> ix; indices(tsv, ix); if (ix.size() > 500) break;
      for (auto &i : ix) { std::vector<uint64_t> o(i.size()); for (size_t k = 0; k < i.size(); k++) o[perm[k]] = i[k]; VC_CHECK(getStridesPosition(i, td) == getStridesPosition(o, d), "transpose-view", "transposed view of %s", S_(s).c_str()); }
    } while (std::next_permutation(perm.begin(), perm.end()));
    break; }
  }
  vc::state(vc::hash(std::string(vc::S->note)));
}
int main(int argc, char **argv) {
  vc::Options o; o.splitDepth = 5;
  o.rule = "all shapes to rank 5 over dims 0,1,2,3,5; all strides over an alphabet with zero, positive and negative values; every target shape of every reshape, offered exactly if strides exist; all permutations";
  return vc::main(argc, argv, o, body);
}
