#pragma once
#include <functional>
#include <string>
#include <vector>
struct DrvRecord { bool reached = false; int rc = 0; std::string input, base, output, tag, mcpu, march, xopt; int target = 0, optLevel = 0; bool hybrid = true; std::function<int(const std::string &)> inputHook; std::function<int()> outputHook; };
extern DrvRecord drv;
// run the compiler's real main() with these arguments (args[0] is the program name)
bool drvRun(std::vector<std::string> args);
