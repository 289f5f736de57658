// C33: the binary decoder prints the given bytes as the given type (its real main() is run).
#include "vc.hpp"
#include "llvm/Support/CommandLine.h"
#include <fcntl.h>
#include <sys/stat.h>
int bd_main(int argc, char **argv);
static std::string D; static void setup() { if (!D.empty()) return; char b[4096]; D = std::string(getcwd(b, sizeof b)) + "/w" + std::to_string(getpid()); mkdir(D.c_str(), 0700); if (chdir(D.c_str())) abort(); }
static int run(std::vector<std::string> a, std::string &out, std::string &err) { llvm::cl::ResetAllOptionOccurrences(); std::vector<char *> av; for (auto &s : a) av.push_back((char *)s.c_str()); av.push_back(nullptr); fflush(stdout); int o = dup(1), e = dup(2), n = open("out", O_WRONLY | O_CREAT | O_TRUNC, 0600), m = open("err", O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(n, 1); dup2(m, 2); close(n); close(m); int rc = bd_main(a.size(), av.data()); fflush(stdout); dup2(o, 1); dup2(e, 2); close(o); close(e); out = vc::slurp("out", 1 << 20); err = vc::slurp("err"); return rc; }
struct T { const char *name; int size; char kind; };
static const std::vector<T> TY{{"UINT8", 1, 'u'}, {"INT8", 1, 'i'}, {"UINT16", 2, 'u'}, {"INT16", 2, 'i'}, {"UINT32", 4, 'u'}, {"INT32", 4, 'i'}, {"UINT64", 8, 'u'}, {"INT64", 8, 'i'}, {"FLOAT", 4, 'f'}, {"DOUBLE", 8, 'f'}, {"BOOL", 1, 'b'}, {"FLOAT16", 2, 'x'}, {"STRING", 1, 'x'}};
// the whole line must be the elements, each followed by a blank
static void compare(const std::string &out, const std::string &bytes, const T &t, const char *key) {
  size_t p = 0; for (size_t i = 0; i + t.size <= bytes.size(); i += t.size) { size_t q = out.find(' ', p); VC_CHECK(q != out.npos, key, "%s: %zu elements expected, got <%s>", t.name, bytes.size() / t.size, out.c_str()); std::string tok = out.substr(p, q - p); p = q + 1; bool ok; std::string want; uint64_t u = 0; memcpy(&u, &bytes[i], t.size); int64_t s = (int64_t)(u << (64 - 8 * t.size)) >> (64 - 8 * t.size);
    if (t.kind == 'b') { for (int k = 0; k < 8; k++) want += u >> k & 1 ? '1' : '0'; ok = tok == want; } else if (t.kind == 'u') ok = tok == (want = std::to_string(u)); else if (t.kind == 'i') ok = tok == (want = std::to_string(s));
    else { double d; if (t.size == 4) { float f; memcpy(&f, &bytes[i], 4); d = f; } else memcpy(&d, &bytes[i], 8); char b[64]; snprintf(b, 64, "%.17g", d); want = b; char *e; double g = strtod(tok.c_str(), &e); ok = !tok.empty() && !*e && (g == d || (g != g && d != d) || __builtin_fabs(g - d) <= __builtin_fabs(d) * 6e-6 || (__builtin_fabs(d) > 1e308 && g * d > 0)); if (ok && g == g && __builtin_signbit(g) != __builtin_signbit(d)) ok = false; }
    VC_CHECK(ok, key, "%s: element %zu is printed as <%s> instead of %s", t.name, i / t.size, tok.c_str(), want.c_str()); vc::step(); }
  VC_CHECK(out.substr(p) == "\n", key, "%s: <%s> follows the elements", t.name, out.substr(p).c_str()); }
static void put(const std::string &s) { FILE *f = fopen("data", "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void ranges() { static const char SRC[] = "\x01\x80?\xff\x00\x7f" "A\xfe\x9c\xc0\x3f\x10\xee\xdd\xcc\xbb\xaa\x99\x42\x07\x00\x00"; int len = vc::choose(vc::thorough() ? 20 : 18), start = vc::choose(len + 4) - 1, size = vc::choose(len + 4) - 1; auto &t = vc::pick(TY); bool rm = vc::flip(); int form = vc::choose(3); std::string bytes(SRC, len); put(bytes);
  std::string tf = (form == 1 ? "-onnx::TensorProto::" : "--onnx::TensorProto::") + std::string(t.name), s = std::to_string(start), n = std::to_string(size); std::vector<std::string> a = form == 0 ? std::vector<std::string>{"bd", "data", "-s", s, "-n", n, tf} : form == 1 ? std::vector<std::string>{"bd", tf, "-n=" + n, "-s=" + s, "data"} : std::vector<std::string>{"bd", "--s", s, tf, "data", "--n=" + n}; if (rm) a.insert(a.begin() + 1 + 2 * (form == 2), form == 1 ? "--rm" : "-rm");
  bool valid = start >= 0 && size >= 0 && start + size <= len && t.kind != 'x'; vc::note("file of %d bytes, start %d, size %d, %s%s", len, start, size, t.name, rm ? ", -rm" : ""); std::string out, err; int rc = run(a, out, err); struct stat st; bool there = !stat("data", &st);
  VC_CHECK(!there == rm || (!valid && there), "remove", "the file is %s%s", there ? "there" : "gone", rm ? " after -rm" : ""); if (there) VC_CHECK(vc::slurp("data") == bytes, "content", "the file has changed");
  if (valid) { VC_CHECK(rc == 0, "result", "fails with %d: %s", rc, err.c_str()); compare(out, bytes.substr(start, size), t, "range"); vc::nontrivial(); } else if (size || start < 0) VC_CHECK(rc != 0 && !err.empty(), "error", "returns %d, says <%s>, prints <%s>", rc, err.c_str(), out.c_str()); vc::state(vc::hash(out)); }
static void values() { // every code of 8 and 16 bit types, boundary codes of wider ones
  const T &t = TY[vc::choose(11)]; std::string b; if (t.size == 1) for (int c = 0; c < 256; c++) b += (char)c; else if (t.size == 2) { int hi = vc::choose(16); for (int c = hi << 12; c < (hi + 1) << 12; c++) b.append((char *)&c, 2); } else { uint64_t top = 1ull << (8 * t.size - 1); for (uint64_t x : {0ull, 1ull, 9ull, 10ull, 255ull, 65535ull, 4294967295ull, 123456789012ull}) for (uint64_t y : std::vector<uint64_t>{x, x + 1, top | x, top - 1 - x, ~x, 0x3ff0000000000000ull + x * 977, 0x3f800000ull + x * 977, 0x7ff0000000000000ull + (x > 9), 0x7f800000ull | x, 0x00800000ull | x, 0x4b000000ull | x, 0x4330000000000000ull | x}) b.append((char *)&y, t.size); for (int e = 0; e < 64; e++) { uint64_t y = 1ull << e; b.append((char *)&y, t.size); } }
  put(b); vc::note("all codes of %s", t.name); std::string out, err; int rc = run({"bd", "data", "-s", "0", "-n", std::to_string(b.size()), std::string("--onnx::TensorProto::") + t.name}, out, err); VC_CHECK(rc == 0, "result", "fails with %d", rc); compare(out, b, t, "value"); vc::nontrivial(); }
static void unreadable() { std::string f = vc::pick<const char *>({"none", "nodir/x"}); std::string out, err; int rc = run({"bd", f, "-s", "0", "-n", vc::pick<const char *>({"0", "1"}), "--onnx::TensorProto::INT8"}, out, err); VC_CHECK(rc != 0 && out.empty(), "missing", "a missing file gives %d <%s>", rc, out.c_str()); }
static void body() { setup(); switch (vc::choose(3)) { case 0: return ranges(); case 1: return values(); default: return unreadable(); } }
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 4; o.rule = "files of up to 17 (19) bytes x all starts and sizes from -1 to 2 past the end x 13 types x -rm x 3 orders of options; all codes of 8 and 16 bit types, ~160 of wider ones"; return vc::main(argc, argv, o, body); }
