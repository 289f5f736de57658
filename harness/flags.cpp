// C25: compiler flag strings are split at unquoted blanks.
#include "vc.hpp"
#include "src/Compiler/CommandUtils.hpp"
using namespace onnx_mlir; typedef std::vector<std::string> VS;
static std::string show(const VS &v) { std::string s; for (auto &x : v) s += "[" + x + "]"; return s; }
// every character belongs to one of: blank outside quotes (separator), quote mark, escape, literal
static VS ref(const std::string &s, bool keepTrailing) {
  VS out; std::string cur; char q = 0; size_t i = 0, n = s.size(); auto end = [&] { if (!cur.empty()) out.push_back(cur); cur.clear(); };
  while (i < n) { char c = s[i++];
    if (c == '\\') { if (i < n) cur += s[i++]; else if (keepTrailing) cur += '\\'; }
    else if (q) { if (c == q) q = 0; else cur += c; }
    else if (c == '"' || c == '\'') q = c;
    else if (strchr(" \t\n\v\f\r", c)) end();
    else cur += c; }
  end(); return out;
}
static void split() {
  static const char AL[] = {'a', ' ', '"', '\'', '\\', '=', '\t'}; int max = vc::thorough() ? 9 : 7, n = vc::choose(max + 1); std::string s; for (int i = 0; i < n; i++) s += AL[vc::choose(sizeof AL)];
  vc::note("flags <%s>", s.c_str()); VS got = parseFlags(s); VS a = ref(s, false), b = ref(s, true);
  VC_CHECK(got == a || got == b, "split", "<%s> is split into %s instead of %s", s.c_str(), show(got).c_str(), show(a).c_str()); vc::step(); if (got.size() > 1) vc::nontrivial(); vc::state(vc::hash(show(got)));
}
static void bytes() { // every byte value on its own, quoted and escaped
  int c = vc::choose(255) + 1; char ch = (char)c; std::string f = vc::pick<const char *>({"x%cy", "\"%c\"", "'%c'", "\\%c", "%c", "-o=%c \"b\"", "'\"' %c"}); f.replace(f.find("%c"), 2, 1, ch); vc::note("byte %d in %s", c, f.c_str()); VS got = parseFlags(f), a = ref(f, false), b = ref(f, true);
  VC_CHECK(got == a || got == b, "byte", "byte %d: <%s> is split into %s instead of %s", c, f.c_str(), show(got).c_str(), show(a).c_str()); vc::step(); vc::state(vc::hash(show(got), c));
}
static std::string quote(const std::string &a, int how) { std::string s; auto esc = [&](const char *which) { for (char c : a) { if (strchr(which, c)) s += '\\'; s += c; } };
  if (how == 0) esc(" \t\n\\\"'"); else if (how == 1) { s = "\""; esc("\"\\"); s += "\""; } else if (how == 2) { s = "'"; esc("'\\"); s += "'"; } else { size_t h = a.size() / 2; return quote(a.substr(0, h), 1) + quote(a.substr(h), 2); } return s; }
static void roundtrip() {
  static const VS ARG{"-O3", "-o", "a b", "\"", "'", "\\", "a\"b c'd", " ", "\\ \\", "-o=dir with blanks/x", "\t", "--x=\"y z\"", "'\"'"};
  int n = vc::choose(vc::thorough() ? 4 : 3) + 1; VS want; std::string s = vc::pick<const char *>({"", " "}); for (int i = 0; i < n; i++) { auto &a = vc::pick(ARG); int how = vc::choose(4); if (i) s += i == 1 ? vc::pick<const char *>({" ", "\t \n"}) : " "; s += quote(a, how); want.push_back(a); }
  vc::note("joined <%s>", s.c_str()); VS got = parseFlags(s); VC_CHECK(got == want, "roundtrip", "%s quoted and joined to <%s> comes back as %s", show(want).c_str(), s.c_str(), show(got).c_str()); vc::step(); vc::nontrivial(); vc::state(vc::hash(s));
}
static void body() { switch (vc::choose(3)) { case 0: return split(); case 1: return bytes(); default: return roundtrip(); } }
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 4; o.rule = "all strings to 7 (9) characters over a letter, =, blank, tab, both quotes and backslash; every byte value in seven settings; all lists of up to 3 (4) of 13 arguments quoted in four ways and joined"; return vc::main(argc, argv, o, body); }
