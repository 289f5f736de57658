// C22: reclamation of lazy constants.  --mode hist: every history of creating, sharing, attaching, dropping, collecting,
// scrubbing and closing.  --mode sched: every interleaving of concurrent creations and of the parallel scrub.
#include "eab.hpp"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/ThreadPool.h"
#include "vcsched.hpp"
#include <array>
#include <deque>
static Env E; static bool sched;
typedef std::pair<StringRef, StringRef> OA;
static const std::vector<OA> DICT{{"v.c", "value"}, {"v.d", "other"}};
// a buffer that records its destruction and scribbles over its contents then
struct Buf : public llvm::MemoryBuffer { std::vector<char> d; int *gone;
  Buf(std::vector<char> b, int *g) : d(std::move(b)), gone(g) { d.push_back(0); init(d.data(), d.data() + d.size() - 1, true); }
  ~Buf() override { ++*gone; for (auto &c : d) c = 0x77; static std::vector<std::vector<char>> keep; keep.push_back(std::move(d)); if (keep.size() > 64) keep.erase(keep.begin()); }
  BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; } };
struct K { ElementsAttr e; Ten t; int buf; enum { LIVE, GONE, DENSE } st; };
static std::vector<LD> contents(int k, size_t n, bool splat) { std::vector<LD> v; for (size_t i = 0; i < n; i++) v.push_back(splat ? k + 1 : (LD)((k * 7 + i * 3) % 100) + 1); return v; }
static ElementsAttr fromBuf(ElementsAttrBuilder &b, MLIRContext *c, const Ten &t, int *gone) {
  std::vector<char> raw; dispatchByBType(t.t, [&](auto bt) { using X = CppType<bt>; for (LD v : t.v) { X x; if constexpr (isSmallFPType<X>) x = X((float)v); else x = (X)v; raw.insert(raw.end(), (char *)&x, (char *)&x + sizeof x); } });
  return b.fromMemoryBuffer(ty(c, t.t, t.shape), std::make_unique<Buf>(raw, gone)); }
struct World {
  MLIRContext *c; DisposablePool *pool; ElementsAttrBuilder B; OwningOpRef<ModuleOp> m; std::vector<Operation *> op; std::vector<StringRef> an;
  std::vector<K> ks; std::deque<int> gone; std::vector<int> slot{-1, -1, -1}; std::vector<char> replaced{0, 0, 0}; bool active = true;
  World(MLIRContext *c, DisposablePool *p, int extra = 0) : c(c), pool(p), B(*p), m(ModuleOp::create(UnknownLoc::get(c))) {
    auto mkop = [&](StringRef n, Block *bl, int regions) { OperationState s(UnknownLoc::get(c), n); for (int i = 0; i < regions; i++) s.addRegion()->push_back(new Block); s.addAttribute("other", StringAttr::get(c, "x")); Operation *o = Operation::create(s); bl->push_back(o); return o; };
    Block *top = m->getBody(); op.push_back(mkop("v.c", top, 0)); an.push_back("value"); Operation *r = mkop("v.r", top, 2);
    op.push_back(mkop("v.c", &r->getRegion(1).front(), 0)); an.push_back("value"); op.push_back(mkop("v.d", &r->getRegion(0).front(), 0)); an.push_back("other");
    for (int i = 0; i < extra; i++) { op.push_back(mkop("v.c", i % 2 ? top : &r->getRegion(1).front(), 0)); an.push_back("value"); slot.push_back(-1); replaced.push_back(0); } }
  void add(ElementsAttr e, Ten t, int buf) { bool d = mlir::isa<DisposableElementsAttr>(e); VC_CHECK(!(d && !active), "closed", "a lazy constant was created after the pool was closed"); VC_CHECK(d || !active, "dense", "a constant created in an active pool is not lazy");
    ks.push_back({e, std::move(t), buf, d ? K::LIVE : K::DENSE}); }
  void create(BType t, V shape, bool splat) { gone.push_back(0); int b = gone.size() - 1; Ten r{t, shape, contents(ks.size(), cnt(shape), splat)}; ElementsAttr e;
    if (splat) { Ten one{t, {}, {r.v[0]}}; e = B.expand(fromBuf(B, c, one, &gone[b]), shape); ks.reserve(ks.size()); } else e = fromBuf(B, c, r, &gone[b]); add(e, r, b); }
  void derive(int k, int how) { const Ten &o = ks[k].t; Ten r; ElementsAttr e;
    if (how == 0) { e = B.transpose(ks[k].e, {1, 0}); r = mk(o.t, {o.shape[1], o.shape[0]}, [&](const V &i) { return o.at({i[1], i[0]}); }); }
    else { e = B.transform(ks[k].e, ks[k].e.getElementType(), [](WideNum w) { return WideNum::widen<BType::INT64>(w.i64 + 5); }); r = o; for (auto &x : r.v) x += 5; }
    if (e == ks[k].e) { ks.push_back(ks[k]); return; } add(e, r, ks[k].buf); }
  void attach(int k, int s) { slot[s] = k; replaced[s] = 0; op[s]->setAttr(an[s], ks[k].e); }
  void detach(int s) { slot[s] = -1; op[s]->setAttr(an[s], StringAttr::get(c, "x")); }
  void gc() { pool->garbageCollectUnreachable(*m, DICT); for (size_t k = 0; k < ks.size(); k++) if (ks[k].st == K::LIVE) { bool r = false; for (size_t s = 0; s < slot.size(); s++) for (size_t q = 0; q < ks.size(); q++) if (slot[s] == (int)q && !replaced[s] && ks[q].e == ks[k].e) r = true; if (!r) ks[k].st = K::GONE; } }
  void scrub() { pool->scrub(*m, DICT); for (size_t s = 0; s < slot.size(); s++) if (slot[s] >= 0) replaced[s] = 1; for (auto &k : ks) if (k.st == K::LIVE) k.st = K::GONE; }
  bool anyLive() { for (auto &k : ks) if (k.st == K::LIVE) return true; return false; }
  void check(bool deep = false) {
    for (size_t k = 0; k < ks.size(); k++) {
      if (ks[k].st != K::GONE) { vc::ctx("read-in-use"); verify(ks[k].e, ks[k].t, "constant in use", deep); }
      vc::ctx("%s", ""); }
    for (size_t b = 0; b < gone.size(); b++) { bool used = false; for (auto &k : ks) if (k.st == K::LIVE && k.buf == (int)b) used = true;
      VC_CHECK(gone[b] <= 1, "double", "buffer %zu was destroyed %d times", b, gone[b]); if (!used) VC_CHECK(gone[b] == 1, "leak", "buffer %zu outlives all constants made from it", b); }
    for (size_t s = 0; s < slot.size(); s++) if (slot[s] >= 0) { auto e = mlir::dyn_cast_or_null<ElementsAttr>(op[s]->getAttr(an[s])); VC_CHECK(e, "lost", "the constant in slot %zu vanished", s);
      if (replaced[s]) { VC_CHECK(mlir::isa<DenseElementsAttr>(e), "not-scrubbed", "slot %zu still holds a lazy constant after scrub", s); verify(e, ks[slot[s]].t, "scrubbed constant", deep); } else VC_CHECK(e == ks[slot[s]].e, "replaced", "slot %zu holds another constant", s); }
      else VC_CHECK(!mlir::isa_and_nonnull<ElementsAttr>(op[s]->getAttr(an[s])), "slot", "empty slot %zu was changed", s);
    VC_CHECK(pool->isActive() == active, "active", "isActive() is %d", pool->isActive()); }
  uint64_t state() { std::string s; for (auto &k : ks) { s += (char)('0' + k.st); s += (char)('a' + k.buf); } for (size_t i = 0; i < slot.size(); i++) { s += (char)('A' + slot[i]); s += replaced[i]; } s += active; return vc::hash(s); }
};
static void renew() { E.ctx.release(); E.fresh(); }
static bool dirty = false;
static void hist() {
  if (!E.ctx || dirty || ++E.uses > 500) { if (dirty) renew(); else E.fresh(); E.uses = 1; }
  dirty = true;
  DisposablePool pool(E.ctx->getLoadedDialect<VDialect>(), E.ctx.get()); World w(E.ctx.get(), &pool); int D = vc::thorough() ? 8 : 7;
  for (int d = 0; d < D; d++) {
    int n = w.ks.size(); std::vector<std::array<int, 3>> acts; 
    if (n < 3) { acts.push_back({0, 0, 0}); acts.push_back({0, 1, 0}); }
    for (int k = 0; k < n; k++) if (w.ks[k].st != K::GONE) { for (int s = 0; s < 3; s++) acts.push_back({1, k, s}); if (k == n - 1 && n < 4) { acts.push_back({2, k, 0}); acts.push_back({2, k, 1}); } }
    for (int s = 0; s < 3; s++) if (w.slot[s] >= 0) acts.push_back({3, s, 0});
    if (n) { acts.push_back({4, 0, 0}); acts.push_back({5, 0, 0}); } if (w.active && !w.anyLive()) acts.push_back({6, 0, 0});
    auto a = acts[vc::choose(acts.size())];
    switch (a[0]) {
    case 0: vc::note("create %s constant %d", a[1] ? "splat" : "raw", n); w.create(BType::INT32, {2, 3}, a[1]); break;
    case 1: vc::note("attach constant %d to slot %d", a[1], a[2]); w.attach(a[1], a[2]); break;
    case 2: vc::note("derive from constant %d by %s", a[1], a[2] ? "transform" : "transpose"); w.derive(a[1], a[2]); break;
    case 3: vc::note("empty slot %d", a[1]); w.detach(a[1]); break;
    case 4: vc::note("collect garbage"); w.gc(); break;
    case 5: vc::note("scrub"); w.scrub(); vc::nontrivial(); break;
    case 6: vc::note("close"); pool.close(); w.active = false; break; }
    vc::step(); w.check(d == D - 1); vc::state(w.state());
  }
  for (int s = 0; s < 3; s++) if (w.slot[s] >= 0) w.detach(s);
  w.gc(); w.check(); dirty = false;
}
// runs the tasks of a parallel loop under the controlled scheduler when they are waited for
struct Pool : public llvm::ThreadPoolInterface { unsigned n; std::vector<std::function<void()>> q; int mode = -1; int pre = 2;
  void asyncEnqueue(std::function<void()> t, llvm::ThreadPoolTaskGroup *) override { q.push_back(std::move(t)); }
  void wait() override { if (q.empty()) return; auto t = std::move(q); q.clear(); if (vcs::inFiber()) { for (auto &f : t) f(); return; } if (mode < 0) vcs::run(t, {pre, false, true}); else vcs::profile(t, (vcs::Order)mode); }
  void wait(llvm::ThreadPoolTaskGroup &) override { wait(); }
  unsigned getMaxConcurrency() const override { return n; } };
static Pool *TP;
struct Scen { int kind, threads, n; int64_t dim; int pre; };
static const Scen SC[] = {{0, 2, 1, 3, 4}, {0, 2, 2, 3, 3}, {0, 3, 1, 3, 3}, {1, 2, 3, 3, 3}, {1, 2, 12, 3, 2}, {1, 3, 12, 3, 2}, {1, 2, 25, 3, 2}, {1, 2, 4, 400, 3}, {1, 3, 5, 400, 2}, {0, 3, 2, 3, 2}};
static void scenario(const Scen &sc, int mode, bool more) {
  E.ctx.release(); E.fresh(); TP = new Pool; TP->n = sc.threads; TP->mode = mode; TP->pre = sc.pre + more; MLIRContext *c = E.ctx.get();
  if (sc.kind == 1) c->setThreadPool(*TP);
  auto *pool = new DisposablePool(c->getLoadedDialect<VDialect>(), c); auto *wp = new World(c, pool, sc.kind ? sc.n : sc.threads * sc.n); World &w = *wp;
  if (sc.kind == 0) {
    int N = sc.threads * sc.n; std::vector<ElementsAttr> out(N); std::vector<Ten> t; for (int i = 0; i < N; i++) { t.push_back({BType::INT32, {sc.dim, 2}, contents(i, sc.dim * 2, false)}); w.gone.push_back(0); }
    std::vector<std::function<void()>> fs; for (int k = 0; k < sc.threads; k++) fs.push_back([&, k] { for (int j = 0; j < sc.n; j++) { int i = k * sc.n + j; out[i] = fromBuf(w.B, c, t[i], &w.gone[i]); } });
    if (mode < 0) { vcs::run(fs, {sc.pre + more}); vc::nontrivial(); } else vcs::profile(fs, (vcs::Order)mode);
    std::set<const void *> ids; for (int i = 0; i < N; i++) { VC_CHECK(mlir::isa<DisposableElementsAttr>(out[i]), "dense", "constant %d is not lazy", i); ids.insert(out[i].getAsOpaquePointer()); w.add(out[i], t[i], i); }
    VC_CHECK((int)ids.size() == N, "ids", "only %zu identities for %d constants", ids.size(), N);
    for (int i = 0; i < N; i++) w.attach(i, 3 + i); w.check(); w.gc(); w.check(); for (int i = 0; i < N; i += 2) w.detach(3 + i); w.gc(); w.check(); w.scrub(); w.check(); pool->close(); w.active = false; w.check();
  } else {
    for (int i = 0; i < sc.n; i++) { w.create(i % 3 ? BType::INT32 : BType::FLOAT, {sc.dim, 2}, i % 4 == 3); if (i % 5 == 1 && i % 3) w.derive(i, 1), w.ks.erase(w.ks.begin() + i); } for (int i = 0; i < sc.n; i++) w.attach(i, 3 + i); w.attach(0, 0); w.attach(sc.n - 1, 2);
    w.scrub(); if (mode < 0) vc::nontrivial(); w.check(); pool->close(); w.active = false; w.check();
  }
  delete wp; delete pool; E.ctx.reset(); delete TP;
}
static void schedBody() { int k = vc::choose(sizeof SC / sizeof *SC); auto &sc = SC[k]; vc::note("%s: %d threads, %d constants%s of %ld elements, at most %d preemptions", sc.kind ? "scrub" : "create", sc.threads, sc.n, sc.kind ? "" : " each", (long)sc.dim * 2, sc.pre + vc::thorough()); scenario(sc, -1, vc::thorough()); vc::state(vc::hash(std::string(vc::S->note))); }
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--mode")) sched = !strcmp(argv[i + 1], "sched");
  vc::Options o; o.splitDepth = sched ? 6 : 3; o.rule = sched ? "10 scenarios of concurrent creation and parallel scrub; every schedule with at most 2-4 preemptions (one more in thorough) at locks and conflicting (atomic or plain) accesses" : "all histories of 7 (8) steps over 4 constants and 3 places in a module";
  if (sched) { static vc::Shm dummy; vc::S = &dummy; for (auto &sc : SC) for (int m = 0; m < 3; m++) vcs::profileIn([&] { scenario(sc, m, false); }); fprintf(stderr, "%zu conflicting code locations\n", vcs::conflictSites()); }
  return vc::main(argc, argv, o, sched ? schedBody : hist);
}
