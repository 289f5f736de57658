#ifndef ONNX_MLIR_EXTERNAL_UTIL_H
#define ONNX_MLIR_EXTERNAL_UTIL_H

#include <map>
#include <string>

namespace onnx_mlir {
static const std::string kExecPath = // fallback if not found by getExecPath
    "/usr/local/bin/onnx-mlir";
static const std::string kInstPath = "/usr/local";
static const std::string kOptPath = "/usr/lib/llvm-20/bin/opt";
static const std::string kLlcPath = "/usr/lib/llvm-20/bin/llc";
static const std::string kOnnxmlirPath = "/usr/local/bin/onnx-mlir";
static const std::string kCPath = "/usr/bin/gcc";
static const std::string kCxxPath = "/usr/bin/g++";
static const std::string kLinkerPath = "/usr/bin/ld";
static const std::string kObjCopyPath = "/usr/bin/objcopy";
static const std::string kArPath = "/usr/bin/ar";
static const std::string kJarPath = "";
static const std::string kDefaultTriple = "x86_64-pc-linux-gnu";
static const std::string kLrodataScript = R"()";

static const std::map<std::string, std::string> toolPathMap = {
    {"instPath", kInstPath}, {"opt", kOptPath}, {"llc", kLlcPath},
    {"onnx-mlir", kOnnxmlirPath}, {"c", kCPath}, {"cxx", kCxxPath},
    {"linker", kLinkerPath}, {"objcopy", kObjCopyPath}, {"ar", kArPath},
    {"jar", kJarPath}, {"defaultTriple", kDefaultTriple},
    {"lrodataScript", kLrodataScript}};
} // namespace onnx_mlir
#endif
