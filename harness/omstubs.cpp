// What the bridge to LLVM 20 leaves out: the optional Linalg path (never enabled by the checks).
#include "mlir/Pass/Pass.h"
#include "mlir/Dialect/Bufferization/Transforms/Passes.h"
#include <string>
namespace onnx_mlir { std::string getOnnxMlirCommitVersion() { return "check"; } }
namespace onnx_mlir { std::unique_ptr<mlir::Pass> createConvertONNXToLinalg(const std::string &, bool) { return nullptr; } }
namespace mlir { namespace bufferization { std::unique_ptr<Pass> createOneShotBufferizePass(const OneShotBufferizePassOptions &) { return nullptr; } } }
