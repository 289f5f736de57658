// C31: configuration files - what a loaded file says, and how its options combine with those of
// the environment and the command line in the compiler's real main().
#include "vc.hpp"
#include "drvstubs.hpp"
#include "src/Compiler/JsonConfigObject.hpp"
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
using namespace onnx_mlir; typedef std::vector<std::string> VS;
struct Cap { int e, o; std::string f; Cap(const std::string &f) : f(f) { fflush(stdout); e = dup(2); o = dup(1); int n = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(n, 2); close(n); n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Cap() { fflush(stdout); dup2(e, 2); dup2(o, 1); close(e); close(o); } };
static long fsize(const std::string &f) { struct stat st; return stat(f.c_str(), &st) ? -1 : st.st_size; }
static std::string D; static void setup() { if (!D.empty()) return; char b[4096]; D = std::string(getcwd(b, sizeof b)) + "/w" + std::to_string(getpid()); mkdir(D.c_str(), 0700); mkdir((D + "/d").c_str(), 0700); mkdir((D + "/d/e").c_str(), 0700); if (chdir(D.c_str())) abort(); }
static void put(const std::string &f, const std::string &t) { FILE *o = fopen(f.c_str(), "w"); fwrite(t.data(), 1, t.size(), o); fclose(o); }
// ---- documents: text and meaning side by side
struct Val { std::string text; char kind; std::string str; std::vector<Val> arr; };
static Val S(const char *t, const char *s) { return {std::string("\"") + t + "\"", 's', s}; }
static const std::vector<Val> STR{S("-O3", "-O3"), S("", ""), S("a b", "a b"), S("\\\"q\\\\", "\"q\\"), S("\\u00e9\\n", "\xc3\xa9\n"), S("\\ud83d\\ude00", "\xf0\x9f\x98\x80"), S("--o=\xc3\xa9/\\/x", "--o=\xc3\xa9//x")};
static const std::vector<Val> OTH{{"1.5", 'n'}, {"-0", 'n'}, {"12e2", 'n'}, {"true", 'b'}, {"false", 'b'}, {"null", '0'}, {"{}", 'o'}, {"{\"compile_options\": [\"x\"], \"k\":\"in\"}", 'o'}, {"[]", 'a'}, {"[[\"y\"]]", 'a', "", {{"[\"y\"]", 'a', "", {S("y", "y")}}}}};
static Val array(int max, bool small) { int n = vc::choose(max) + 1;  Val v{"[", 'a'}; const char *sp = vc::pick<const char *>({"", " "}); for (int i = 0; i < n; i++) { int c = vc::choose(small ? 3 : (int)STR.size() + 5); Val e = small ? (c == 2 ? OTH[0] : STR[c]) : c < (int)STR.size() ? STR[c] : OTH[std::vector<int>{0, 3, 5, 6, 9}[c - STR.size()]]; v.text += (i ? std::string(",") + sp : "") + e.text; v.arr.push_back(e); } v.text += sp + std::string("]"); return v; }
static Val value(bool small) { if (small) { int c = vc::choose(5); return c < 2 ? STR[c * 3] : c == 2 ? OTH[7] : c == 3 ? OTH[0] : array(2, true); } int c = vc::choose(STR.size() + OTH.size() + 1); if (c < (int)STR.size()) return STR[c]; c -= STR.size(); if (c < (int)OTH.size()) return OTH[c]; return array(vc::thorough() ? 3 : 2, false); }
struct Doc { std::string text; std::vector<std::pair<std::string, Val>> kv; const Val *get(const std::string &k) const { for (auto &p : kv) if (p.first == k) return &p.second; return nullptr; } };
static const std::vector<std::pair<const char *, const char *>> KEYS{{"compile_options", "compile_options"}, {"k", "k"}, {"", ""}, {"k\\u0031", "k1"}};
static Doc document(int min, int max, int smallFrom) { int n = min + vc::choose(max - min + 1); Doc d; const char *ws = n == 3 && !vc::thorough() ? " " : vc::pick<const char *>({"", "\n \t"}); d.text = std::string(ws) + "{"; std::set<int> used; for (int i = 0; i < n; i++) { int k = vc::choose(KEYS.size() - i); for (int u = 0; u <= k; u++) k += used.count(u); used.insert(k); Val v = value(n >= smallFrom || (i && !vc::thorough())); d.text += std::string(i ? "," : "") + ws + "\"" + KEYS[k].first + "\"" + ws + ":" + ws + v.text; d.kv.push_back({KEYS[k].second, v}); } d.text += std::string(ws) + "}"; return d; }
static void sameArr(const llvm::json::Array *a, const Val &v, const std::string &what) { VC_CHECK(a && a->size() == v.arr.size(), "array", "%s: array of %zu instead of %zu elements", what.c_str(), a ? a->size() : (size_t)0, v.arr.size()); for (size_t i = 0; i < v.arr.size(); i++) { auto &e = (*a)[i]; auto &w = v.arr[i]; auto s = e.getAsString(); bool ok = w.kind == 's' ? s && s->str() == w.str : w.kind == 'n' ? e.kind() == llvm::json::Value::Number : w.kind == 'b' ? e.getAsBoolean() == (w.text == "true") : w.kind == '0' ? (bool)e.getAsNull() : w.kind == 'o' ? e.getAsObject() != nullptr : e.getAsArray() != nullptr; VC_CHECK(ok, "element", "%s: element %zu differs", what.c_str(), i); if (w.kind == 'a') sameArr(e.getAsArray(), w, what + "[]"); } }
// everything the object says, against a document (nullptr: nothing loaded)
static void same(JsonConfigObject &o, const Doc *d, const std::string &path, bool loaded = true) {
  const JsonConfigObject &co = o; if (loaded) { VC_CHECK(o.isLoaded() == (d != nullptr), "loaded", "isLoaded() is %d", o.isLoaded()); VC_CHECK(o.getFilePath() == (d ? path : ""), "path", "getFilePath() is %s, expected %s", o.getFilePath().c_str(), path.c_str()); }
  VC_CHECK(o.empty() == (!d || d->kv.empty()), "empty", "empty() is %d", o.empty());
  for (std::string k : {"compile_options", "k", "", "k1", "none", "compile_option"}) { const Val *v = d ? d->get(k) : nullptr; auto s = o.getString(k); VC_CHECK(s.has_value() == (v && v->kind == 's') && (!s || s->str() == v->str), "string", "getString(\"%s\") gives %s", k.c_str(), s ? s->str().c_str() : "nothing");
    auto *a = o.getArray(k); auto *ca = co.getArray(k); VC_CHECK((a != nullptr) == (v && v->kind == 'a') && a == ca, "getarray", "getArray(\"%s\") is %sthere", k.c_str(), a ? "" : "not "); if (a) sameArr(a, *v, k); vc::step(); }
  VS args{"keep"}, want{"keep"}; const Val *v = d ? d->get("compile_options") : nullptr; int strs = 0; if (v && v->kind == 'a') for (auto &e : v->arr) if (e.kind == 's') want.push_back(e.str), strs++;
  bool r = o.getCompileOptions(args); VC_CHECK(args == want, "options", "getCompileOptions gives %zu options instead of %zu", args.size() - 1, want.size() - 1); if (strs || !v || v->kind != 'a' || v->arr.empty()) VC_CHECK(r == (strs > 0), "optionsresult", "getCompileOptions returns %d", r);
}
static bool load(JsonConfigObject &o, const std::string &f, long *said) { bool r; { Cap c("err"); r = o.loadFromFile(f); } *said = fsize("err"); return r; }
static void content() { Doc d = document(0, 3, 3); put("c.json", d.text + (d.kv.size() > 1 ? "\n" : vc::pick<const char *>({"", "\n"}))); vc::note("%s", d.text.c_str()); JsonConfigObject o; same(o, nullptr, ""); long said; bool r = load(o, "c.json", &said); VC_CHECK(r, "load", "a well-formed file is refused: %s", d.text.c_str()); same(o, &d, "c.json"); vc::nontrivial(); vc::state(vc::hash(d.text));
  int ind = d.text.size() % 3 == 0 ? 2 : d.text.size() % 3 == 1 ? 0 : 7; unlink("s.json"); bool st; { Cap c("err"); st = ind == 2 ? o.storeToFile("s.json") : o.storeToFile("s.json", ind); } VC_CHECK(st == !d.kv.empty(), "store", "storeToFile returns %d", st); if (!st) { VC_CHECK(fsize("err") > 0, "storesilent", "nothing said about an empty object"); return; }
  JsonConfigObject p; r = load(p, "s.json", &said); VC_CHECK(r, "reload", "the stored file cannot be loaded"); same(p, &d, "s.json"); same(o, &d, "c.json"); { Cap c("err"); st = o.storeToFile("nodir/s.json"); } VC_CHECK(!st && fsize("err") > 0, "storefail", "storing into a missing directory: returns %d", st); }
static void malformed() { Doc d = document(1, vc::thorough() ? 2 : 1, 2); JsonConfigObject o; long said; vc::note("%s", d.text.c_str()); size_t b = d.text.find('{');
  auto bad = [&](const std::string &t, const char *how) { put("m.json", t); bool r = load(o, "m.json", &said); VC_CHECK(!r, "accepted", "%s is accepted: %s", how, t.c_str()); VC_CHECK(said > 0, "silent", "%s refused without a message", how); VC_CHECK(o.empty() && !o.isLoaded() && o.getFilePath().empty(), "left", "%s leaves something behind", how); vc::step(); };
  for (size_t n = 0; n < d.text.size(); n++) bad(d.text.substr(0, n), n <= b ? "nothing" : "a truncated file"); bad("[" + d.text + "]", "an array"); bad("\"x\"", "a string"); bad("null", "null"); bad(d.text + "x", "trailing text"); bad(d.text + d.text, "two documents"); bad("{\"k\": \"\xff\"}", "invalid UTF-8"); bad("{'k': 1}", "single quotes"); bad("{\"k\": 1,}", "a trailing comma");
  same(o, nullptr, ""); bool r = load(o, "absent.json", &said); VC_CHECK(!r && said > 0, "absent", "a missing file: returns %d", r); r = load(o, "d", &said); VC_CHECK(!r && said > 0, "directory", "a directory: returns %d", r);
  put("m.json", d.text); r = load(o, "m.json", &said); VC_CHECK(r, "retry", "a good file is refused after failed loads"); same(o, &d, "m.json"); vc::nontrivial(); }
static void histories() { // one object, several files
  Doc A{"{\"compile_options\": [\"-O1\", \"-tag=x\"], \"k\": \"v\"}", {{"compile_options", {"", 'a', "", {S("-O1", "-O1"), S("-tag=x", "-tag=x")}}}, {"k", S("v", "v")}}}, B{"{\"k1\": [1], \"k\": \"w\"}", {{"k1", {"", 'a', "", {OTH[0]}}}, {"k", S("w", "w")}}}, E{"{}", {}};
  put("A", A.text); put("B", B.text); put("C", "{\"k\": "); put("F", "[1]"); put("E", E.text); JsonConfigObject o; const Doc *cur = nullptr; std::string cp; Doc onA = A; std::unique_ptr<Doc> kept; int n = vc::choose(vc::thorough() ? 6 : 5) + 1; static const VS F{"A", "B", "C", "absent", "F", "E"};
  for (int i = 0; i < n; i++) { int op = vc::choose(8); if (op < 6) { const Doc *c = op == 0 ? &onA : op == 1 ? &B : op == 5 ? &E : nullptr; long said; bool r = load(o, F[op], &said), want = cur ? cp == F[op] : c != nullptr; vc::note("load %s -> %d", F[op].c_str(), r); VC_CHECK(r == want, "loadhistory", "loading %s with %s loaded returns %d", F[op].c_str(), cur ? cp.c_str() : "nothing", r); VC_CHECK(r || said > 0, "silenthistory", "loading %s fails silently", F[op].c_str()); if (!cur && c) { kept.reset(new Doc(*c)); cur = kept.get(); cp = F[op]; } }
    else if (op == 6) { vc::note("file A gets the text of B"); put("A", B.text); onA = B; }
    else { bool st; { Cap c("err"); st = o.storeToFile("T"); } vc::note("store -> %d", st); VC_CHECK(st == (cur && !cur->kv.empty()), "storehistory", "storeToFile returns %d", st); if (st) { JsonConfigObject q; long said; VC_CHECK(load(q, "T", &said), "storedfile", "stored file not loadable"); same(q, cur, "T"); } }
    same(o, cur, cp); } vc::nontrivial(); }
// ---- precedence
struct Opt { VS args; char what; std::string val; };
static const std::vector<Opt> OPT{{{"-O1"}, 'O', "1"}, {{"-O3"}, 'O', "3"}, {{"--mcpu=c1"}, 'm', "c1"}, {{"-mcpu", "c2"}, 'm', "c2"}, {{"-tag=t1"}, 't', "t1"}, {{"--tag", "t2"}, 't', "t2"}, {{"--onnx-hybrid-pass=false"}, 'h', "0"}, {{"-onnx-hybrid-pass"}, 'h', "1"}, {{"-o", "d/q"}, 'o', "d/q"}};
static std::vector<Opt> some(int max) { int n = vc::choose(max + 1); std::vector<Opt> v; for (int i = 0; i < n; i++) v.push_back(OPT[vc::choose(OPT.size())]); return v; }
static void precedence() {
  bool th = vc::thorough(); auto env = some(1), conf = some(2), cmd = some(2); if (env.size() + conf.size() + cmd.size() > (th ? 4 : 3)) vc::prune();
  std::string model = vc::pick<const char *>({"m.onnx", "d/m.onnx"}), dir = model[0] == 'd' ? "d/" : ""; int where = vc::choose(9), at = vc::choose(cmd.size() + 1), ev = env.empty() ? 0 : vc::choose(4); if (where > 1 && ev > 1) vc::prune();
  std::string text = "{\"compile_options\": ["; bool first = true; for (auto &o : conf) for (auto &a : o.args) { text += (first ? "\"" : ", \"") + a + "\""; first = false; } text += "]}";
  for (auto f : {"omconfig.json", "d/omconfig.json", "d/e/c.json"}) unlink(f); VS extra; bool used = true; std::string decoy = "{\"compile_options\": [\"-O2\", \"--mcpu=decoy\", \"-tag=decoy\", \"-o\", \"decoy\"]}";
  // where the file is: next to the model, not there but next to the output or in the current directory, named in four ways (with a decoy next to the model), broken, missing
  if (where == 0) put(dir + "omconfig.json", text); else if (where == 1) { put(dir.empty() ? "d/omconfig.json" : "omconfig.json", decoy); used = false; }
  else if (where <= 5) { put("d/e/c.json", text); put(dir + "omconfig.json", decoy); std::string f = where == 5 ? D + "/d/e/c.json" : "d/e/c.json"; if (where == 2) extra = {"--config-file=" + f}; else if (where == 3) extra = {"--config-file", f}; else if (where == 4) extra = {"-config-file=" + f}; else extra = {"-config-file", f}; }
  else if (where == 6) { put(dir + "omconfig.json", text.substr(0, text.size() - 2)); used = false; } else if (where == 7) { put("d/e/c.json", "[" + text + "]"); extra = {"--config-file=d/e/c.json"}; used = false; } else used = false;
  if (ev) { std::string e; for (auto &o : env) for (auto &a : o.args) e += (e.empty() ? "" : " ") + a; unsetenv("ONNX_MLIR_FLAGS"); setenv(ev == 1 ? "ONNX_MLIR_FLAGS" : "OTHERFLAGS", e.c_str(), 1); if (ev > 1) setenv("ONNX_MLIR_FLAGS", "-O2 -tag=wrong --mcpu=wrong", 1); } else { unsetenv("ONNX_MLIR_FLAGS"); if (!env.empty()) { unsetenv("OTHERFLAGS"); env.clear(); } }
  VS args{"onnx-mlir"}; bool exLast = extra.empty() ? false : vc::flip(); if (ev == 2) args.push_back("--customEnvFlags=OTHERFLAGS"); if (ev == 3) { args.push_back("-customEnvFlags"); args.push_back("OTHERFLAGS"); } if (!exLast) args.insert(args.end(), extra.begin(), extra.end());
  for (size_t i = 0; i <= cmd.size(); i++) { if ((int)i == at) args.push_back(model); if (i < cmd.size()) args.insert(args.end(), cmd[i].args.begin(), cmd[i].args.end()); } if (exLast) args.insert(args.end(), extra.begin(), extra.end());
  std::string line; for (auto &a : args) line += a + " "; vc::note("environment %s: %zu options; file %s (%s); command line %s", ev > 1 ? "OTHERFLAGS" : "ONNX_MLIR_FLAGS", env.size(), text.c_str(), used ? "used" : where == 6 || where == 7 ? "broken" : "not used", line.c_str());
  std::map<char, std::string> want{{'O', "0"}, {'m', ""}, {'t', ""}, {'h', "1"}, {'o', model.substr(0, model.size() - 5)}}; for (auto &o : env) want[o.what] = o.val; if (used) for (auto &o : conf) want[o.what] = o.val; for (auto &o : cmd) want[o.what] = o.val;
  auto &g = getGlobalOMConfig(); g.~JsonConfigObject(); new (&g) JsonConfigObject(); bool ok; { Cap c("err"); ok = drvRun(args); } std::map<char, std::string> got{{'O', std::to_string(drv.optLevel)}, {'m', drv.mcpu}, {'t', drv.tag}, {'h', std::to_string(drv.hybrid)}, {'o', drv.base}};
  VC_CHECK(ok && drv.input == model, "runs", "the compiler refuses %s(or compiles %s)", line.c_str(), drv.input.c_str()); if (where == 6 || where == 7) VC_CHECK(fsize("err") > 0, "brokensilent", "a broken configuration file is not reported");
  for (auto &w : want) VC_CHECK(got[w.first] == w.second, "precedence", "option %c is '%s' instead of '%s'", w.first, got[w.first].c_str(), w.second.c_str()); vc::step(want.size()); if (used && !conf.empty()) vc::nontrivial(); vc::state(vc::hash(line + text));
}
static int MODE; static void body() { setup(); if (MODE) return precedence(); switch (vc::choose(3)) { case 0: return content(); case 1: return malformed(); default: return histories(); } }
int main(int argc, char **argv) { for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--mode")) MODE = !strcmp(argv[i + 1], "prec"); vc::Options o; o.splitDepth = 4; o.rule = MODE ? "all lists of up to 1 environment, 2 file and 2 command-line options out of 9, at most 3 (4) in all, x 9 places of the configuration file x 2 model places x position of the model x environment variable given in 3 ways" : "all objects of up to 2 keys over 4 keys and all values (the second one, and those of 3 keys, out of 28), every truncation and 8 corruptions, all histories of up to 5 (6) loads, stores and file changes over 6 files"; return vc::main(argc, argv, o, body); }
