// C23: constants computed in parallel equal those computed by one thread, for every thread count, size around the thresholds and schedule.
#include "eab.hpp"
#include "llvm/Support/ThreadPool.h"
#include "vcsched.hpp"
ElementsAttr parop(ElementsAttrBuilder &B, int op, ElementsAttr e, ElementsAttr s, ArrayRef<unsigned> axes);
static Env P, Q; static int PRE; static int MODE = -1; // P: single thread; Q: parallel
struct Pool : public llvm::ThreadPoolInterface { unsigned n; std::vector<std::function<void()>> q; uint64_t loops = 0;
  void asyncEnqueue(std::function<void()> t, llvm::ThreadPoolTaskGroup *) override { q.push_back(std::move(t)); }
  void wait() override { if (q.empty()) return; loops++; auto t = std::move(q); q.clear(); if (vcs::inFiber()) { for (auto &f : t) f(); return; } if (MODE < 0) PRE -= vcs::run(t, {PRE, false, true}); else vcs::profile(t, (vcs::Order)MODE); }
  void wait(llvm::ThreadPoolTaskGroup &) override { wait(); }
  unsigned getMaxConcurrency() const override { return n; } };
static const char *ON[] = {"transform", "transform twice", "combine with splat", "combine splat with", "cast to i8", "cast to bool", "clip", "cast to f16 and i32", "cast to f32 and saturated f16", "transform of transpose", "reduce sum", "reduce rolling", "reduce of transform", "reduce floating sum"};
struct Sc { int op; V shape; std::vector<unsigned> axes; int threads, form, reader; };
static std::vector<LD> vals(size_t n) { std::vector<LD> v; for (size_t i = 0; i < n; i++) v.push_back((LD)(int64_t)((i * 2654435761u) % 2001) - 1000); return v; }
static std::vector<char> eval(Env &E, const Sc &s, bool check) {
  MLIRContext *c = E.ctx.get(); ElementsAttrBuilder B(*E.pool); size_t n = cnt(s.shape); auto v = vals(n); Ten r{BType::INT64, s.shape, v}; ElementsAttr e;
  if (s.form == 0) e = B.fromArray<int64_t>(ty(c, BType::INT64, s.shape), [&](MutableArrayRef<int64_t> d) { for (size_t i = 0; i < n; i++) d[i] = (int64_t)v[i]; });
  else if (s.form == 1) e = denseOf(c, r);
  else { V t{s.shape[1], s.shape[0]}; auto b = B.fromArray<int32_t>(ty(c, BType::INT32, t), [&](MutableArrayRef<int32_t> d) { for (int64_t i = 0; i < t[0]; i++) for (int64_t j = 0; j < t[1]; j++) d[i * t[1] + j] = (int32_t)v[j * t[0] + i]; }); e = B.castElementType(B.transpose(b, {1, 0}), IntegerType::get(c, 64)); }
  auto spl = DenseElementsAttr::get(ty(c, BType::INT64, {1}), (int64_t)77);
  ElementsAttr o = parop(B, s.op, e, spl, s.axes);
  if (check) { // exact commutative results against naive evaluation
    if (s.op == 10) { Ten w = r; for (unsigned a : s.axes) { V sh = w.shape; sh[a] = 1; Ten x = mk(BType::INT64, sh, [&](const V &i) { LD t = 0; V j = i; for (int64_t k = 0; k < w.shape[a]; k++) { j[a] = k; t += w.at(j); } return t; }); w = x; } verify(o, w, "reduce sum", false); }
    if (s.op == 6) { Ten w = r; for (auto &x : w.v) x = x < -200 ? -200 : x > 333 ? 333 : x; verify(o, w, "clip", false); } }
  std::vector<char> out; auto dump = [&](ElementsAttr e) { auto d = ElementsAttrBuilder::toDenseElementsAttr(e); if (d.getElementType().isInteger(1)) { for (bool b : d.getValues<bool>()) out.push_back(b); } else { auto raw = d.getRawData(); out.assign(raw.begin(), raw.end()); if (d.isSplat()) out.push_back('S'); } };
  if (s.reader == 0) dump(o);
  else if (s.reader == 1) { auto w = getElementsWideNums(o); out.assign((char *)w.get().data(), (char *)(w.get().data() + w.get().size())); }
  else { auto m = ModuleOp::create(UnknownLoc::get(c)); std::vector<Operation *> ops; for (int k = 0; k < 2; k++) { OperationState st(UnknownLoc::get(c), "v.c"); st.addAttribute("value", k ? e : o); ops.push_back(Operation::create(st)); m.getBody()->push_back(ops.back()); } E.pool->scrub(m, {{"v.c", "value"}}); dump(mlir::cast<ElementsAttr>(ops[0]->getAttr("value"))); m.erase(); }
  return out; }
static std::vector<Sc> scenarios(bool th) {
  std::vector<Sc> r;
  auto T = [&](int op, V sh, std::vector<unsigned> ax, int f, int rd) { for (int t = 1; t <= (rd == 2 ? 3 : 8); t++) r.push_back({op, sh, ax, t, f, rd}); };
  for (int op = 0; op < 10; op++) { for (int64_t n : {999, 1000, 1001, 1003, 1007}) T(op, op == 9 ? V{n % 7 == 0 ? n / 7 : n, n % 7 == 0 ? 7 : 1} : V{n}, {}, 0, 0); T(op, {31, 33}, {}, 1, 0); T(op, {36, 28}, {}, 2, 1); T(op, {1009, 1}, {}, 0, 2); T(op, {47, 41}, {}, 2, 2); if (th) for (int64_t n = 1010; n < 1030; n++) T(op, {n, 1}, {}, n % 2 * 2, 1); }
  for (int op = 10; op < 14; op++) { for (int64_t b : {1, 2, 3, 5, 7, 8, 9, 17}) { int64_t k = 2000 / b; for (int64_t d : {0, 1}) { T(op, {b, k + d}, {1}, 0, 0); if (d || th) T(op, {k + d, b}, {0}, 2, 0); } } T(op, {5, 21, 4, 5}, {1, 3}, 0, 0); T(op, {21, 10, 11}, {0, 2}, 0, 0); T(op, {45, 46}, {0, 1}, 2, 0); T(op, {13, 20, 9}, {1}, 1, 0); T(op, {2100, 1}, {1}, 0, 0); T(op, {2003}, {}, 0, 0); }
  return r; }
static std::vector<Sc> SCN;
static bool dirty;
static std::vector<char> parallel(const Sc &s) { Q.ctx.release(); Q.fresh(); Pool tp; tp.n = s.threads; Q.ctx->setThreadPool(tp); auto r = eval(Q, s, false); Q.ctx.reset(); return r; }
static void body() {
  const Sc &s = SCN[vc::choose(SCN.size())]; vc::note("%s of %s, axes %zu, %d threads, operand form %d, read by %s", ON[s.op], S_(s.shape).c_str(), s.axes.size(), s.threads, s.form, s.reader == 0 ? "toDenseElementsAttr" : s.reader == 1 ? "getElementsWideNums" : "scrub"); vc::ctx("%s", ON[s.op]);
  PRE = (s.threads <= 3 && s.reader != 2 ? 2 : 1) + vc::thorough();
  static const Sc *last; static std::vector<char> want; if (last != &s) { P.fresh(); want = eval(P, s, true); last = &s; }
  auto got = parallel(s);
  VC_CHECK(got.size() == want.size(), "size", "%s: %zu bytes instead of %zu", ON[s.op], got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) VC_CHECK(got[i] == want[i], "differs", "%s: byte %zu of %zu differs from the single-threaded result", ON[s.op], i, got.size());
  if (s.threads > 1) vc::nontrivial(); vc::step(); vc::state(vc::hash(std::string(vc::S->note)));
}
int main(int argc, char **argv) { bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough"); static vc::Shm dummy; vc::S = &dummy;
  SCN = scenarios(th);
  std::set<std::pair<int, int>> seen; for (auto &s : SCN) if ((s.threads == 3 || s.threads == 7) && (s.op < 10 || (s.shape.size() > 1 && s.shape[0] >= 13) || s.shape.size() > 3) && seen.insert({s.op * 100 + s.reader * 10 + s.shape.size(), s.threads}).second) vcs::profileIn([&] { for (MODE = 0; MODE < 3; MODE++) parallel(s); });
  fprintf(stderr, "%zu scenarios, %zu conflicting code locations\n", SCN.size(), vcs::conflictSites()); if (getenv("VCS_DUMP")) vcs::dumpSites();
  vc::Options o; o.splitDepth = 1; o.rule = "14 parallel constant operations x sizes around the thresholds x 1..8 threads x operand forms x readers; every schedule with at most 2 (up to 3 threads) or 1 preemptions in all its loops at conflicting accesses and atomics (one more in thorough)"; return vc::main(argc, argv, o, body); }
