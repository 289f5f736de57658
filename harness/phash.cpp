// C08: perfect hash tables made by the compiler's PerfectHash, looked up by the runtime's find_index
#include "vc.hpp"
#include "src/Conversion/ONNXToKrnl/PerfectHash.hpp"
#include <climits>
extern "C" { uint64_t find_index_str(const char *, const int32_t[], const int32_t[], int32_t); uint64_t find_index_i64(int64_t, const int32_t[], const int32_t[], int32_t); }
using namespace onnx_mlir;
static const std::vector<int64_t> K = {0, 1, -1, 9, 10, 127, 128, INT32_MAX, INT32_MIN, 999999999999999999ll, 1000000000000000000ll, -999999999999999999ll, -1000000000000000000ll, -1234567890123456789ll, INT64_MAX, INT64_MIN, INT64_MIN + 1, 4294967296ll, 9007199254740993ll, 42};
static const std::vector<std::string> SK = {"", "a", "b", "ab", "ba", " ", "0", "00", "cat", "Cat", "\x80\xff", "\xe4\xb8\xad", "a\n", std::string(300, 'x'), std::string(300, 'x') + "y", "%d", "costarring", "liquid", "\\", "\""};
template <class T> static T look(const PerfectHash<T, int32_t> &h, T k);
static void ints(const std::vector<int64_t> &keys, int perm) {
  std::map<int64_t, int32_t> m; int n = keys.size(); for (int i = 0; i < n; i++) m[keys[i]] = perm == 0 ? i : perm == 1 ? n - 1 - i : (i * 7 + 3) % n;
  if (perm == 2 && n % 7 == 0) return; vc::step(); vc::nontrivial();
  PerfectHash<int64_t, int32_t> h(m); VC_CHECK((int)h.getG().size() >= n && h.getV().size() == h.getG().size(), "size", "table sizes"); const int nk = n; n = h.getG().size();
  int32_t *G = (int32_t *)malloc(4 * n), *V = (int32_t *)malloc(4 * n); memcpy(G, h.getG().data(), 4 * n); memcpy(V, h.getV().data(), 4 * n); struct F { int32_t *a, *b; ~F() { free(a); free(b); } } f{G, V};
  vc::state(vc::hash(G, 4 * n, vc::hash(V, 4 * n)));
  for (auto &e : m) { vc::ctx("int64"); uint64_t r = find_index_i64(e.first, G, V, n); VC_CHECK(r == (uint64_t)e.second, "int64", "looking up %ld in a table of %d keys gives %lu, expected %d", (long)e.first, nk, (unsigned long)r, e.second); }
  for (int64_t k : K) { uint64_t r = find_index_i64(k, G, V, n); VC_CHECK(r < (uint64_t)nk, "range", "looking up the absent key %ld leaves the table", (long)k); }
}
static void strs(const std::vector<std::string> &keys, int perm) {
  std::map<llvm::StringRef, int32_t> m; int n = keys.size(); for (int i = 0; i < n; i++) m[keys[i]] = perm == 0 ? i : perm == 1 ? n - 1 - i : (i * 7 + 3) % n;
  if (perm == 2 && n % 7 == 0) return; vc::step(); vc::nontrivial();
  PerfectHash<llvm::StringRef, int32_t> h(m); VC_CHECK((int)h.getG().size() >= n && h.getV().size() == h.getG().size(), "size", "table sizes"); const int nk = n; n = h.getG().size();
  int32_t *G = (int32_t *)malloc(4 * n), *V = (int32_t *)malloc(4 * n); memcpy(G, h.getG().data(), 4 * n); memcpy(V, h.getV().data(), 4 * n); struct F { int32_t *a, *b; ~F() { free(a); free(b); } } f{G, V};
  vc::state(vc::hash(G, 4 * n, vc::hash(V, 4 * n)));
  for (auto &e : m) { vc::ctx("string"); std::string k = e.first.str(); uint64_t r = find_index_str(strdup(k.c_str()), G, V, n); VC_CHECK(r == (uint64_t)e.second, "string", "looking up \"%s\" in a table of %d keys gives %lu, expected %d", k.c_str(), nk, (unsigned long)r, e.second); }
  for (auto &k : SK) { uint64_t r = find_index_str(k.c_str(), G, V, n); VC_CHECK(r < (uint64_t)nk, "range", "looking up an absent key leaves the table"); }
}
static void body() {
  int mode = vc::choose(3), perm = vc::choose(3); bool th = vc::thorough();
  if (mode == 2) { // larger key sets of several shapes, all sizes
    int kind = vc::choose(4), n = 1 + vc::choose(th ? 600 : 60); if (!th && n > 40) n = (n - 40) * 15 + 40; vc::note("family %d, %d keys", kind, n);
    if (kind < 2) { std::vector<int64_t> k; for (int i = 0; i < n; i++) k.push_back(kind == 0 ? i - n / 2 : (int64_t)((uint64_t)i * 0x9e3779b97f4a7c15ull)); ints(k, perm); }
    else { std::vector<std::string> k; for (int i = 0; i < n; i++) k.push_back(kind == 2 ? "key" + std::to_string(i) : std::string(1 + i / 200, (char)(1 + i % 200))); strs(k, perm); }
    return;
  }
  int max = th ? 6 : 3; std::string s; std::vector<int> sel; int next = 0, total = mode ? SK.size() : K.size();
  while ((int)sel.size() < max) { int c = vc::choose(total - next + (sel.empty() ? 0 : 1)); if (c == total - next) break; sel.push_back(next + c); next += c + 1; if (next >= total) break; }
  if (mode == 0) { std::vector<int64_t> k; for (int i : sel) { k.push_back(K[i]); vc::note("key %ld", (long)K[i]); } ints(k, perm); }
  else { std::vector<std::string> k; for (int i : sel) { k.push_back(SK[i]); vc::note("key #%d", i); } strs(k, perm); }
}
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 4; o.hangSeconds = 20; o.rule = "an execution is non-trivial if a table was built and every key of it looked up"; return vc::main(argc, argv, o, body); }
