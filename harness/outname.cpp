// C26: the output file name predicted from the flags is the one the compiler's own main() arrives at.
#include "vc.hpp"
#include <filesystem>
#include <unistd.h>
#include <fcntl.h>
#include "drvstubs.hpp"
#include "src/Compiler/CommandUtils.hpp"
#include "src/Compiler/OMCompile.hpp"
namespace fs = std::filesystem; using namespace onnx_mlir; typedef std::vector<std::string> VS;
struct Quiet { int e, o; Quiet() { fflush(stdout); fflush(stderr); e = dup(2); o = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); close(n); } ~Quiet() { fflush(stdout); dup2(e, 2); dup2(o, 1); close(e); close(o); } };
static std::string quote(const std::string &a) { return "\"" + a + "\""; }
static const VS MODELS{"m.onnx", "d/a.b.onnx", "/abs/dir.x/y.mlir", "./t.onnxtext", "../-up/z.onnx"};
static const std::vector<VS> FLAGS{{"-o", "out"}, {"-o=q"}, {"--o", "d2/e.f"}, {"-o", "-O3"}, {"-o", "k.onnx"}, {"-EmitLib"}, {"--EmitObj"}, {"--EmitJNI"}, {"-EmitMLIR"}, {"-EmitONNXBasic"}, {"--EmitLLVMIR"},
  {"-onnx-hybrid-pass=false"}, {"-O3"}, {"--tag=Lib"}, {"-onnx-op-stats", "TXT"}, {"--mcpu", "z16"},
  // thorough
  {"--o=/abs2/g"}, {"-o="}, {"-o", "."}, {"-o=./"}, {"-o", "-"}, {"-o", "-EmitObj"}, {"-o", "s p"}, {"--o=../h..i"}, {"--EmitONNXIR"}, {"-EmitObj"}, {"-v"}, {"-mtriple=-o"}, {"-tag", "t1"}, {"-o", ""}};
static void body() {
  bool th = vc::thorough(); int nf = th ? FLAGS.size() : FLAGS.size(); const std::string model = vc::pick(MODELS); bool inFlags = vc::flip(); std::string od = vc::pick<const char *>({"", "od", "/abs3/od/", "o.d/p"});
  int n = vc::choose(4), max = nf; std::vector<int> ch; for (int i = 0; i < n; i++) ch.push_back(vc::choose(n == 3 && !th ? 16 : max)); int at = inFlags ? vc::choose(n + 1) : -1;
  if (n == 3 && !th && !od.empty() && model != MODELS[1]) return;
  VS args; bool oddO = false; for (int i = 0; i <= n; i++) { if (i == at) args.push_back(model); if (i < n) for (auto &a : FLAGS[ch[i]]) args.push_back(a); }
  std::string flags; for (auto &a : args) { if (a.empty()) return; flags += (flags.empty() ? "" : " ") + (a.find(' ') == std::string::npos ? a : quote(a)); }
  vc::note("model \"%s\", flags <%s>, output directory \"%s\"", inFlags ? "" : model.c_str(), flags.c_str(), od.c_str());
  VS full = args; full.insert(full.begin(), "onnx-mlir"); if (!inFlags) full.push_back(model);
  bool ok; { Quiet q; ok = drvRun(full); } if (!ok || drv.input != model) return; // not a valid command line
  std::string want = drv.output, tag = drv.tag;
  if (!od.empty()) { // expected: a name without directory moves into the output directory
    bool any = false; std::string lastO; for (size_t i = 1; i < full.size(); i++) { if (full[i] == "-o" || full[i] == "--o") { lastO = full[++i]; any = true; } else if (full[i].rfind("-o=", 0) == 0 || full[i].rfind("--o=", 0) == 0) { lastO = full[i].substr(full[i].find('=') + 1); any = true; } }
    if (any && drv.base != lastO) return; // an invalid -o value together with an output directory is not specified
    std::string ext = drv.output.substr(drv.base.size()), b = drv.base; if (!any) b = fs::path(model).stem().string(); if (b.find('/') == std::string::npos) b = od + (od.back() == '/' ? "" : "/") + b; want = b + ext; }
  if (want[0] != '/') want = fs::current_path().string() + "/" + want;
  std::string got, gin, gtag; { Quiet q; got = OMCompile::predictOutputFilename(inFlags ? "" : model, flags, od); gin = OMCompile::predictInputFilename(inFlags ? "" : model, flags); gtag = OMCompile::predictModelTag(flags); }
  VC_CHECK(got == want, "output", "flags <%s> model \"%s\"%s outputPath \"%s\": predicted %s, the compiler writes %s", flags.c_str(), model.c_str(), inFlags ? " (in flags)" : "", od.c_str(), got.c_str(), want.c_str());
  VC_CHECK(gin == model, "input", "flags <%s> model \"%s\"%s: predicted input %s", flags.c_str(), model.c_str(), inFlags ? " (in flags)" : "", gin.c_str());
  VC_CHECK(gtag == tag, "tag", "flags <%s>: predicted tag \"%s\", the compiler uses \"%s\"", flags.c_str(), gtag.c_str(), tag.c_str());
  // the flags the session would pass, given to the compiler again, lead to the same place
  VS fv = parseFlags(flags); { Quiet q; applyOutputPath(fv, od, model); } fv.insert(fv.begin(), "onnx-mlir"); if (!inFlags) fv.push_back(model); bool ok2; { Quiet q; ok2 = drvRun(fv); } std::string real = drv.output; if (real[0] != '/') real = fs::current_path().string() + "/" + real;
  VC_CHECK(ok2 && real == want, "applied", "flags <%s> with output directory \"%s\": the adjusted flags make the compiler write %s instead of %s", flags.c_str(), od.c_str(), ok2 ? real.c_str() : "nothing", want.c_str());
  vc::step(3); if (n) vc::nontrivial(); vc::state(vc::hash(got));
}
int main(int argc, char **argv) { vc::Options o; o.splitDepth = 4; o.rule = "5 model paths (as argument or anywhere in the flags) x 4 output directories x all lists of up to 3 flag groups (30 groups up to two, 16 for three; thorough 30) that the compiler's real main() accepts"; return vc::main(argc, argv, o, body); }
