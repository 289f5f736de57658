// C30: operation-selection lists enable exactly the names they match, independently of history.
#include "vc.hpp"
#include "src/Compiler/OptionUtils.hpp"
#include <memory>
using namespace onnx_mlir; typedef std::vector<std::string> VS;
// A matcher of its own: ends(alt) = all positions at which a match starting at p can end.
struct M { const std::string &pat, &s; bool glob; size_t i = 0; typedef std::set<size_t> P;
  P alt(const P &from) { size_t start = i; P r = cat(from); (void)start; while (i < pat.size() && pat[i] == '|') { i++; P q = cat(from); r.insert(q.begin(), q.end()); } return r; }
  P cat(P from) { while (i < pat.size() && pat[i] != '|' && pat[i] != ')') from = quant(from); return from; }
  P quant(const P &from) { size_t a = i; P one = atom(from); char q = i < pat.size() ? pat[i] : 0; if (glob || !q || !strchr("*+?", q)) return one; size_t end = i + 1; P r = one; if (q != '+') r.insert(from.begin(), from.end());
    if (q != '?') { P cur = one; for (;;) { i = a; P nx = atom(cur); size_t n = r.size(); r.insert(nx.begin(), nx.end()); cur = nx; if (r.size() == n) break; } } i = end; return r; }
  template <class F> P one(const P &from, F ok) { P r; for (size_t p : from) if (p < s.size() && ok(s[p])) r.insert(p + 1); return r; }
  P atom(const P &from) { char c = pat[i++];
    if (c == '(') { P r = alt(from); i++; return r; }
    if (glob && c == '*') { P r; if (!from.empty()) for (size_t p = *from.begin(); p <= s.size(); p++) r.insert(p); return r; }
    if (!glob && c == '.') return one(from, [](char) { return true; });
    if (c == '^') { P r; if (from.count(0)) r.insert(0); return r; }
    if (c == '$') { P r; if (from.count(s.size())) r.insert(s.size()); return r; }
    if (c == '[') { bool neg = pat[i] == '^'; if (neg) i++; std::set<char> cs; while (pat[i] != ']') { if (pat[i + 1] == '-' && pat[i + 2] != ']') { for (char x = pat[i]; x <= pat[i + 2]; x++) cs.insert(x); i += 3; } else cs.insert(pat[i++]); } i++; return one(from, [&](char x) { return (cs.count(x) > 0) != neg; }); }
    if (c == '\\') c = pat[i++];
    return one(from, [c](char x) { return x == c; }); }
  static bool full(const std::string &pat, const std::string &s, bool glob) { M m{pat, s, glob}; return m.alt({0}).count(s.size()); } };
static bool isRegex(const std::string &e) { if (e[0] == '*') return false; { if (e.find(".*") != std::string::npos || e.find("\\.") != std::string::npos) return true; for (char c : e) if (strchr("^$[+?", c)) return true; } return false; }
static bool wrongRegex(const std::string &e) { for (auto x : {"**", "(*", "|*"}) if (isRegex(e) && e.find(x) != std::string::npos) return true; return !isRegex(e) && e.find_first_of("^$[+?\\") != std::string::npos; }
static int special(const VS &l) { for (auto &e : l) { if (e == "ALL") return 1; if (e == "NONE") return 0; } return -1; }
static bool ref(const VS &l, bool emptyIsNone, const std::string &name) { if (l.empty()) return !emptyIsNone; int sp = special(l); if (sp >= 0) return sp; for (auto &e : l) if (M::full(e, name, !isRegex(e))) return true; return false; }
static std::string join(const VS &l, const char *sep = ",") { std::string s; for (size_t i = 0; i < l.size(); i++) s += (i ? sep : "") + l[i]; return s; }
static VS names(int max) { VS all{""}, r; size_t b = 0; for (int n = 0; n < max; n++) { size_t e = all.size(); for (size_t i = b; i < e; i++) for (char c : {'a', 'b', '.'}) all.push_back(all[i] + c); b = e; } return VS(all.begin() + 1, all.end()); }
static void askAll(EnableByRegexOption &o, const VS &l, bool ein, const VS &ns, bool rev, const char *what) {
  for (int pass = 0; pass < 2; pass++) for (size_t k = 0; k < ns.size(); k++) { auto &n = ns[rev != (pass == 1) ? ns.size() - 1 - k : k]; bool want = ref(l, ein, n), got = pass ? o.isEnabled(llvm::StringRef(n)) : o.isEnabled(n);
      VC_CHECK(got == want, what, "list '%s': '%s' is %s, expected %s (%s query)", join(l).c_str(), n.c_str(), got ? "enabled" : "disabled", want ? "enabled" : "disabled", pass ? "second" : "first"); vc::step(); if (want) vc::nontrivial(); } }
// one element of up to 3 pieces
static std::string element(int max, bool glob) { static const VS RX{"a", "b", ".", "*", "\\.", "[ab]", "[^a]", "+", "?", "(a|b.)", "^", "$", "ab"}, GL{"a", "b", ".", "*", "(a|b.)", "ab", "(*|a)"}; auto &A = glob ? GL : RX;
  int n = vc::choose(max) + 1; std::string e; int nq = 0; for (int i = 0; i < n; i++) { auto &p = vc::pick(A); bool q = !glob && strchr("*+?", p[0]) != 0; if (q && (e.empty() || nq || e.back() == '^' || e.back() == '$')) vc::prune(); nq = q; if (p == "^" && !e.empty()) vc::prune(); if (p == "$" && i != n - 1) vc::prune(); e += p; } if (wrongRegex(e)) vc::prune(); return e; }
static void single() { bool glob = vc::choose(2); std::string e = element(vc::thorough() ? 4 : 3, glob); vc::note("list '%s'", e.c_str()); EnableByRegexOption o(vc::choose(2), e); askAll(o, {e}, true, names(vc::thorough() ? 4 : 4), false, "single"); vc::state(vc::hash(e)); }
static void pairs() { int m = 2; std::string e1 = element(m, vc::choose(2)); VS l{e1, element(vc::thorough() ? 2 : 1, vc::choose(2))}; const char *sep = vc::pick<const char *>({",", " "}); std::string s = join(l, sep); vc::note("list '%s'", s.c_str()); EnableByRegexOption o(vc::choose(2), s); askAll(o, l, true, names(3), vc::choose(2), "pair"); vc::state(vc::hash(s)); }
static const VS EL{"onnx.Add", "onnx.*", "*Mul", "krnl.call", "onnx.Mat*", "NONE", "ALL", "onnxXAdd", "onnx.(Add|Sub)", "^onnx.Add", "onnx\\.Add", "krnl.+", "add_[0-9]"};
static const VS NM{"onnx.Add", "onnxXAdd", "onnx.AddX", "onnx.MatMul", "krnl.call", "krnl.", "add_7", "onnx.Sub", "Xonnx.Add"};
static void spread() { // realistic lists, with every way of setting them and the special words
  bool ein = vc::choose(2); int n = vc::choose(4); VS l; for (int i = 0; i < n; i++) l.push_back(vc::pick(EL)); bool a = false, z = false; for (auto &e : l) { a |= e == "ALL"; z |= e == "NONE"; } if (a && z) vc::prune(); int how = vc::choose(5); std::string s = join(l, vc::pick<const char *>({",", " "})); if (!s.empty()) s = vc::pick<const char *>({"", " "}) + s;
  vc::note("list '%s' set in way %d, empty means %s", s.c_str(), how, ein ? "none" : "all"); std::unique_ptr<EnableByRegexOption> o;
  if (how == 0) o.reset(new EnableByRegexOption(ein, s)); else if (how == 1) { o.reset(new EnableByRegexOption(ein)); o->setRegexString(s); } else { o.reset(new EnableByRegexOption(ein, how == 2 ? "onnx.*" : how == 3 ? "ALL" : "NONE")); o->setRegexString(s); if (how == 4) o->setRegexString(s); }
  askAll(*o, l, ein, NM, false, "list"); vc::state(vc::hash(s, how)); }
static void history() { // every query sequence on two options that live side by side
  int n = vc::choose(4); VS l; for (int i = 0; i < n; i++) l.push_back(vc::pick(VS{"onnx.Add", "*Mul", "onnx.Mat*", "^k.*", "krnl.call"})); VS l2{"onnx.MatMul"}; EnableByRegexOption o(true, join(l)), o2(false, join(l2)); int q = vc::choose(vc::thorough() ? 5 : 4) + 1; static const VS Q{"onnx.Add", "onnx.MatMul", "krnl.call", "none.of"};
  for (int i = 0; i < q; i++) { auto &nme = vc::pick(Q); bool second = vc::choose(2); bool got = second ? o2.isEnabled(nme) : o.isEnabled(nme), want = ref(second ? l2 : l, !second, nme); vc::note("%s'%s' -> %d", second ? "other option: " : "", nme.c_str(), got); VC_CHECK(got == want, "history", "list '%s': '%s' is %s, expected %s", join(second ? l2 : l).c_str(), nme.c_str(), got ? "enabled" : "disabled", want ? "enabled" : "disabled"); vc::step(); } vc::nontrivial(); }
static void body() { switch (vc::choose(4)) { case 0: return single(); case 1: return pairs(); case 2: return spread(); default: return history(); } }
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 4; o.rule = "all lists of one element of up to 3 (4) pieces and two elements of up to 2 and 1 (2) pieces, in simple and regular-expression notation, each asked about every name to 4 (pairs: 3) characters twice; all lists of up to 3 of 13 realistic elements set in 5 ways; all sequences of up to 4 (5) queries on two options"; return vc::main(argc, argv, o, body); }
