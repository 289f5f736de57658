// Stand-ins for what onnx-mlir's real main() calls once its options are known: record
// the input, the output name and the kind of output, and leave the files it would write.
#include "src/Compiler/CompilerUtils.hpp"
#include "src/Compiler/CommandUtils.hpp"
#include "mlir/IR/MLIRContext.h"
#include "drvstubs.hpp"
#include <map>
using namespace mlir;
DefaultTimingManager timingManager; TimingScope rootTimingScope;
DrvRecord drv;
namespace onnx_mlir {
extern std::map<std::string, std::vector<std::string>> CompilerConfigMap; // grows with every main()
uint64_t CURRENT_COMPILE_PHASE, TOTAL_COMPILE_PHASE;
void showCompilePhase(std::string) {}
void loadDialects(MLIRContext &) {}
int processInputFile(llvm::StringRef f, MLIRContext &c, OwningOpRef<ModuleOp> &m, std::string *) {
  if (drv.inputHook) if (int rc = drv.inputHook(f.str())) return rc;
  m = ModuleOp::create(UnknownLoc::get(&c)); drv.input = f.str(); return 0;
}
static const char *extOf(EmissionTargetType t) { switch (t) { case EmitObj: return ".o"; case EmitLib: return ".so"; case EmitJNI: return ".jar"; default: return ".onnx.mlir"; } }
int compileModule(OwningOpRef<ModuleOp> &m, MLIRContext &, std::string out, EmissionTargetType t) {
  drv.reached = true; drv.base = out; drv.output = out + extOf(t); drv.target = t; drv.tag = modelTag; drv.optLevel = OptimizationLevel; drv.mcpu = mcpu; drv.march = march; drv.hybrid = enableONNXHybridPass; drv.xopt = customEnvFlags;
  return drv.outputHook ? drv.outputHook() : 0;
}
void getVersionPrinter(llvm::raw_ostream &os) { os << "stub version\n"; }
std::string getVendorName() { return "ONNX-MLIR"; }
std::string getOnnxMlirCommitVersion() { return "v"; }
}
int om_main(int argc, char **argv);
bool drvRun(std::vector<std::string> args) {
  auto in = drv.inputHook; auto ou = drv.outputHook; drv = DrvRecord(); drv.inputHook = in; drv.outputHook = ou;
  onnx_mlir::CompilerConfigMap.clear(); llvm::cl::ResetAllOptionOccurrences(); std::vector<char *> av; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
  drv.rc = om_main(args.size(), av.data()); return drv.reached && drv.rc == 0;
}
