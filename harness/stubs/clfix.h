// LLVM 20's ParseCommandLineOptions has no VFS parameter: map the call of newer LLVMs onto it.
#ifdef __cplusplus
#include "llvm/Support/CommandLine.h"
#define ParseCommandLineOptions(argc, argv, overview, errs, vfs, env) ParseCommandLineOptions(argc, argv, overview, errs, env)
#endif
