// C01/C02: all histories of tensor and list operations against a reference model, with allocation faults.
#include "vc.hpp"
#include "vcalloc.hpp"
#include "onnx-mlir/Runtime/OMTensorList.h"
#include "onnx-mlir/Runtime/OMTensor.h"
#include <memory>
#ifndef CPPLINK
extern "C" {
#endif
OMTensor *omTensorCreateUntyped(int64_t); void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
#ifndef CPPLINK
}
#endif
using I = std::vector<int64_t>;
static const int SZ[] = {0, 4, 1, 1, 2, 2, 4, 8, 8, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1, 1, 1};
static std::string str(const I &v) { std::string s = "["; for (auto x : v) s += std::to_string(x) + ","; return s + "]"; }
static I rowMajor(const I &s) { I t(s.size()); int64_t a = 1; for (int i = s.size() - 1; i >= 0; i--) { t[i] = a; a *= s[i]; } return t; }
static int64_t prod(const I &s) { int64_t p = 1; for (auto x : s) p *= x; return p; }
struct Buf { char *p; size_t n; bool freed; };
struct MT { OMTensor *t = nullptr; I shape, strides; bool shapeKnown = true, stridesKnown = true; int dtype = 0; void *alloc = nullptr, *data = nullptr; int64_t owning = 0; int buf = -1; bool inList = false; };
struct World {
  std::vector<Buf> bufs; MT s[2]; OMTensorList *list = nullptr; std::vector<int> members; OMTensor **arr = nullptr;
};
static bool faults;
static void verify(World &w, const char *op) {
  vc::step();
  for (int i = 0; i < 2; i++) {
    MT &m = w.s[i]; if (!m.t) continue;
    VC_CHECK(omTensorGetRank(m.t) == (int64_t)m.shape.size(), "rank", "after %s: slot %d rank %ld expected %zu", op, i, (long)omTensorGetRank(m.t), m.shape.size());
    const int64_t *sh = omTensorGetShape(m.t), *st = omTensorGetStrides(m.t);
    if (m.shapeKnown) for (size_t k = 0; k < m.shape.size(); k++) VC_CHECK(sh[k] == m.shape[k], "shape", "after %s: slot %d shape[%zu]=%ld expected %ld", op, i, k, (long)sh[k], (long)m.shape[k]);
    if (m.stridesKnown) for (size_t k = 0; k < m.shape.size(); k++) VC_CHECK(st[k] == m.strides[k], "strides", "after %s: slot %d strides[%zu]=%ld expected %ld", op, i, k, (long)st[k], (long)m.strides[k]);
    VC_CHECK((int)omTensorGetDataType(m.t) == m.dtype, "dtype", "after %s: slot %d dtype %d expected %d", op, i, (int)omTensorGetDataType(m.t), m.dtype);
    VC_CHECK(omTensorGetDataPtr(m.t) == m.data, "dataptr", "after %s: slot %d data pointer differs", op, i);
    VC_CHECK(omTensorGetAllocatedPtr(m.t) == m.alloc, "allocptr", "after %s: slot %d allocated pointer differs", op, i);
    VC_CHECK(!!omTensorGetOwning(m.t) == !!m.owning, "owning", "after %s: slot %d owning %ld expected %ld", op, i, (long)omTensorGetOwning(m.t), (long)m.owning);
    if (m.shapeKnown) {
      VC_CHECK(omTensorGetBufferSize(m.t) == prod(m.shape) * SZ[m.dtype], "bufsize", "after %s: slot %d buffer size %ld expected %ld", op, i, (long)omTensorGetBufferSize(m.t), (long)(prod(m.shape) * SZ[m.dtype]));
      if (m.stridesKnown && m.strides == rowMajor(m.shape))
        VC_CHECK(omTensorGetNumElems(m.t) == prod(m.shape), "numelems", "after %s: slot %d numElems %ld expected %ld", op, i, (long)omTensorGetNumElems(m.t), (long)prod(m.shape));
    }
  }
  for (size_t b = 0; b < w.bufs.size(); b++) if (!w.bufs[b].freed) for (size_t k = 0; k < w.bufs[b].n; k++)
    VC_CHECK((unsigned char)w.bufs[b].p[k] == (unsigned char)(0x5a + b), "data-changed", "after %s: byte %zu of buffer %zu was changed", op, k, b);
  if (w.list) {
    VC_CHECK(omTensorListGetSize(w.list) == (int64_t)w.members.size(), "list-size", "after %s: list size %ld expected %zu", op, (long)omTensorListGetSize(w.list), w.members.size());
    OMTensor **a = omTensorListGetOmtArray(w.list);
    for (size_t k = 0; k < w.members.size(); k++) {
      VC_CHECK(omTensorListGetOmtByIndex(w.list, k) == w.s[w.members[k]].t, "list-index", "after %s: list element %zu differs", op, k);
      VC_CHECK(a[k] == w.s[w.members[k]].t, "list-array", "after %s: list array element %zu differs", op, k);
    }
    VC_CHECK(!omTensorListGetOmtByIndex(w.list, w.members.size()) && !omTensorListGetOmtByIndex(w.list, -1), "list-range", "out of range index returned a tensor");
  }
  VC_CHECK(va::badFree == 0, "bad-free", "after %s: a pointer that is not a live allocation was freed", op);
}
static int newBuf(World &w, size_t n) {
  n = n ? n : 1; va::Scope sc; char *p = (char *)malloc(n); va::on = false;
  memset(p, 0x5a + w.bufs.size(), n); w.bufs.push_back({p, n, false}); return w.bufs.size() - 1;
}
// after a monitored call: exactly the buffers in `expect` may have been freed
static void freedBufs(World &w, const std::set<int> &expect, const char *op) {
  for (size_t b = 0; b < w.bufs.size(); b++) {
    if (w.bufs[b].freed) { if (!expect.count(b)) continue; }
    bool f = va::freed.count(w.bufs[b].p), e = expect.count(b);
    VC_CHECK(!(f && !e), "freed-unowned", "%s released buffer %zu which it must not release", op, b);
    VC_CHECK(!(e && !f), "not-freed", "%s did not release owned buffer %zu", op, b);
    if (f) w.bufs[b].freed = true;
  }
}
static std::vector<I> SHAPES = {{}, {0, 2}, {2, 3}};
static std::vector<int> TYPES = {1, 7};
static std::set<int> ownedBuf(MT &m) { return m.owning && m.buf >= 0 ? std::set<int>{m.buf} : std::set<int>{}; }
static void create(World &w, int i, const std::vector<I> &shapes, const std::vector<int> &types, bool sweep) {
  MT m; m.shape = vc::pick(shapes); m.dtype = vc::pick(types); int how = vc::choose(sweep ? 6 : 5);
  m.strides = rowMajor(m.shape); size_t bytes = prod(m.shape) * SZ[m.dtype];
  int fi = faults ? vc::choose(5) : 0; size_t liveBefore = 0;
  const char *nm[] = {"create", "createUnowned", "createOwned", "createEmpty", "untyped+set", "untyped+set(aligned)"};
  vc::note("slot%d = %s(shape %s, type %d)%s", i, nm[how], str(m.shape).c_str(), m.dtype, fi ? (" with allocation failure #" + std::to_string(fi)).c_str() : "");
  bool failed = false;
  int buf = how != 3 ? newBuf(w, bytes + 16) : -1;
  liveBefore = va::live.size();
  if (how <= 3) {
    va::Scope sc(fi);
    // the caller's shape array is only borrowed
    I sh = m.shape; sh.push_back(77);
    if (how == 0) m.t = omTensorCreate(w.bufs[buf].p, sh.data(), m.shape.size(), (OM_DATA_TYPE)m.dtype);
    else if (how < 3) m.t = omTensorCreateWithOwnership(w.bufs[buf].p, sh.data(), m.shape.size(), (OM_DATA_TYPE)m.dtype, how == 2);
    else m.t = omTensorCreateEmpty(sh.data(), m.shape.size(), (OM_DATA_TYPE)m.dtype);
    for (auto &x : sh) x = -5;
    failed = va::failed; va::on = false; freedBufs(w, {}, nm[how]);
    if (how == 3 && m.t) {
      VC_CHECK(SZ[m.dtype] != 0, "empty-undefined", "an empty tensor of a type without storage size was created");
      void *p = omTensorGetAllocatedPtr(m.t);
      VC_CHECK(p && va::live.count(p), "empty-buffer", "createEmpty gave no buffer of its own");
      VC_CHECK(va::live[p] >= bytes, "empty-small", "createEmpty allocated %zu bytes, %zu needed", va::live[p], bytes);
      memset(p, 0x5a + w.bufs.size(), bytes); w.bufs.push_back({(char *)p, bytes, false}); buf = w.bufs.size() - 1;
    } else if (how == 3 && SZ[m.dtype] == 0) { VC_CHECK(va::live.size() == liveBefore, "leak-on-failure", "failing createEmpty leaks"); verify(w, nm[how]); return; }
    m.owning = how >= 2;
  } else {
    va::Scope sc(fi); m.t = omTensorCreateUntyped(m.shape.size()); failed = va::failed; va::on = false;
    if (m.t) {
      MT u = m; 
      VC_CHECK(omTensorGetDataPtr(m.t) == nullptr && !omTensorGetOwning(m.t) && omTensorGetDataType(m.t) == ONNX_TYPE_UNDEFINED && omTensorGetRank(m.t) == (int64_t)m.shape.size(), "untyped", "untyped tensor is not blank");
      omTensorSetDataType(m.t, (OM_DATA_TYPE)m.dtype); omTensorSetShape(m.t, m.shape.data()); omTensorSetStrides(m.t, m.strides.data());
      m.owning = vc::choose(2); omTensorSetDataPtr(m.t, m.owning, w.bufs[buf].p, how == 5 ? w.bufs[buf].p + 8 : nullptr);
    }
  }
  if (!m.t) {
    VC_CHECK(failed, "spurious-null", "%s returned null without an allocation failure", nm[how]);
    VC_CHECK(va::live.size() == liveBefore, "leak-on-failure", "failing %s leaks %zd allocations", nm[how], va::live.size() - liveBefore);
    verify(w, nm[how]); return;
  }
  VC_CHECK(!failed, "null-missing", "%s hit an allocation failure but returned a tensor", nm[how]);
  if (fi) { vc::prune(); } // the chosen allocation index does not exist in this call
  m.buf = buf; m.alloc = w.bufs[buf].p; m.data = how == 5 ? w.bufs[buf].p + 8 : w.bufs[buf].p;
  w.s[i] = m; verify(w, nm[how]);
}
static void destroy(World &w, int i) {
  MT &m = w.s[i]; auto e = ownedBuf(m); vc::note("destroy(slot%d)", i);
  { va::Scope sc; omTensorDestroy(m.t); }
  freedBufs(w, e, "destroy"); m = MT(); verify(w, "destroy");
}
static void killList(World &w, bool deep) {
  vc::note(deep ? "listDestroy" : "listDestroyShallow"); std::set<int> e;
  if (deep) for (int i : w.members) for (int b : ownedBuf(w.s[i])) e.insert(b);
  { va::Scope sc; if (deep) omTensorListDestroy(w.list); else omTensorListDestroyShallow(w.list); }
  freedBufs(w, e, "listDestroy"); w.list = nullptr;
  VC_CHECK(va::freed.count(w.arr) == 0 , "caller-array", "the caller's array was freed");
  for (int i : w.members) { w.s[i].inList = false; if (deep) w.s[i] = MT(); }
  w.members.clear(); verify(w, "listDestroy");
}
static void finish(World &w) {
  if (w.list) killList(w, vc::choose(2));
  for (int i = 0; i < 2; i++) if (w.s[i].t) destroy(w, i);
  for (auto &b : w.bufs) if (!b.freed) { VC_CHECK(va::live.count(b.p), "lost-buffer", "a buffer vanished"); va::Scope sc; free(b.p); va::on = false; b.freed = true; }
  VC_CHECK(va::live.empty(), "leak", "%zu allocations leaked after everything was destroyed", va::live.size());
}
static void histories(int depth) {
  World w; va::reset(); std::string h;
  create(w, 0, SHAPES, TYPES, false);
  for (int d = 1; d < depth; d++) {
    // choose an enabled operation
    enum { STOP, CR, DS, SSH, SST, SPY, SDT, SDP, SOW, LC, LD, LS };
    std::vector<std::pair<int, int>> ops = {{STOP, 0}};
    for (int i = 0; i < 2; i++) {
      MT &m = w.s[i];
      if (!m.t) { if (i == 0 || w.s[0].t) ops.push_back({CR, i}); }
      else { if (!m.inList) ops.push_back({DS, i}); for (int o : {SSH, SST, SPY, SDT, SDP, SOW}) ops.push_back({o, i}); }
    }
    if (!w.list) ops.push_back({LC, 0}); else { ops.push_back({LD, 0}); ops.push_back({LS, 0}); }
    auto [o, i] = vc::pick(ops); MT &m = w.s[i];
    if (o == STOP) break;
    vc::nontrivial();
    switch (o) {
    case CR: create(w, i, SHAPES, TYPES, false); break;
    case DS: destroy(w, i); break;
    case SSH: { I sh = m.shape; int add = 1 + vc::choose(2); for (auto &x : sh) { x = x + add; add++; } vc::note("setShape(slot%d,%s)", i, str(sh).c_str()); omTensorSetShape(m.t, sh.data()); m.shape = sh; for (auto &x : sh) x = -9; verify(w, "setShape"); break; }
    case SST: { I st = m.strides; int k = vc::choose(2); for (size_t j = 0; j < st.size(); j++) st[j] = k ? 7 * (j + 1) : 0; vc::note("setStrides(slot%d,%s)", i, str(st).c_str()); omTensorSetStrides(m.t, st.data()); m.strides = st; for (auto &x : st) x = -9; verify(w, "setStrides"); break; }
    case SPY: { I st = m.strides, by = st; int k = vc::choose(2); for (size_t j = 0; j < st.size(); j++) { st[j] = k ? -(int64_t)(j + 1) : 5 * (j + 1); by[j] = st[j] * SZ[m.dtype]; } vc::note("setStridesBytes(slot%d,%s)", i, str(by).c_str()); omTensorSetStridesWithPyArrayStrides(m.t, by.data()); m.strides = st; verify(w, "setStridesWithPyArrayStrides"); break; }
    case SDT: { int t = vc::pick(TYPES); vc::note("setDataType(slot%d,%d)", i, t); omTensorSetDataType(m.t, (OM_DATA_TYPE)t); m.dtype = t; verify(w, "setDataType"); break; }
    case SDP: { int b = newBuf(w, 64); int own = vc::choose(2), al = vc::choose(2); auto e = ownedBuf(m); vc::note("setDataPtr(slot%d, own %d, aligned %d)", i, own, al);
      { va::Scope sc; omTensorSetDataPtr(m.t, own, w.bufs[b].p, al ? w.bufs[b].p + 16 : nullptr); }
      freedBufs(w, e, "setDataPtr"); m.buf = b; m.owning = own; m.alloc = w.bufs[b].p; m.data = w.bufs[b].p + (al ? 16 : 0); verify(w, "setDataPtr"); break; }
    case SOW: { m.owning = !m.owning; vc::note("setOwning(slot%d,%ld)", i, (long)m.owning); omTensorSetOwning(m.t, m.owning); verify(w, "setOwning"); break; }
    case LC: {
      std::vector<std::vector<int>> ms = {{}}; if (w.s[0].t) ms.push_back({0}); if (w.s[1].t) ms.push_back({1}); if (w.s[0].t && w.s[1].t) { ms.push_back({0, 1}); ms.push_back({1, 0}); }
      auto mem = vc::pick(ms); int fi = faults ? vc::choose(3) : 0; vc::note("listCreate(%zu members)%s", mem.size(), fi ? " with allocation failure" : "");
      std::vector<OMTensor *> a; for (int k : mem) a.push_back(w.s[k].t); a.push_back(nullptr);
      size_t lb = va::live.size(); bool failed;
      { va::Scope sc(fi); w.list = omTensorListCreate(a.data(), mem.size()); failed = va::failed; }
      if (!w.list) { VC_CHECK(failed, "spurious-null", "listCreate returned null"); VC_CHECK(va::live.size() == lb, "leak-on-failure", "failing listCreate leaks"); verify(w, "listCreate"); break; }
      VC_CHECK(!failed, "null-missing", "listCreate survived an allocation failure"); if (fi) vc::prune();
      for (auto &x : a) x = nullptr; // the caller's array is only borrowed
      w.members = mem; for (int k : mem) w.s[k].inList = true; verify(w, "listCreate"); break; }
    case LD: killList(w, true); break;
    case LS: killList(w, false); break;
    }
    std::string sk; for (auto &x : w.s) sk += x.t ? str(x.shape) + str(x.strides) + std::to_string(x.dtype) + "o" + std::to_string(x.owning) + "l" + std::to_string(x.inList) + (x.data == x.alloc ? "a" : "b") : "-"; sk += w.list ? "L" + std::to_string(w.members.size()) : "";
    vc::state(vc::hash(sk));
  }
  finish(w);
}
static void sweep() {
  World w; va::reset(); int rank = vc::choose(5); I s; for (int i = 0; i < rank; i++) s.push_back(vc::choose(4));
  std::vector<int> all; for (int t = 0; t <= 21; t++) all.push_back(t);
  vc::nontrivial();
  create(w, 0, {s}, all, true); vc::state(vc::hash(str(s) + std::to_string(w.s[0].dtype)));
  finish(w);
  // null handles are harmless
  VC_CHECK(!omTensorGetDataPtr(nullptr) && !omTensorGetShape(nullptr) && !omTensorGetStrides(nullptr) && omTensorGetRank(nullptr) == 0 && omTensorGetBufferSize(nullptr) == 0 && omTensorGetNumElems(nullptr) == 0 && !omTensorGetOwning(nullptr), "null-handle", "null handle reports data");
  omTensorDestroy(nullptr); omTensorListDestroy(nullptr); omTensorListDestroyShallow(nullptr);
}
// C and C++ builds share their source; the deepest histories run on the C build (all of them in the thorough tier)
#ifdef CPPLINK
#define LESS (vc::thorough() ? 0 : 1)
#else
#define LESS 0
#endif
int main(int argc, char **argv) {
  std::string mode; std::vector<char *> av;
  for (int i = 0; i < argc; i++) { std::string s = argv[i]; if (s == "--mode") mode = argv[++i]; else av.push_back(argv[i]); }
  vc::Options o; o.splitDepth = 3;
  faults = mode == "fault";
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) { SHAPES.push_back({2}); TYPES.push_back(3); TYPES.push_back(10); }
  o.rule = "one execution = one history of tensor/list operations over 2 slots; every getter compared with the reference model after every step; non-trivial = at least one operation after creation";
  return vc::main(av.size(), av.data(), o, [&] { if (mode == "sweep") sweep(); else if (mode == "fault") histories((vc::thorough() ? 4 : 3) - LESS); else histories((vc::thorough() ? 5 : 4) - LESS); });
}
