// Symbolic executor over the decoded program.
#pragma once
#include "ir.h"
#include <set>
namespace symx {
struct Config {
    u64 maxInsts = 4000000000ULL;      // total
    u64 maxPathInsts = 40000000ULL;
    u64 maxPaths = 1000000;
    double maxTime = 600;
    u64 maxMem = 6ULL << 30;           // bytes (resident)
    unsigned samples = 6;
    unsigned maxViolations = 8;
    bool trace = false;
    std::map<std::string, i64> params;
};
struct InputVal { std::string name; u64 val; unsigned w; bool isSigned; };
struct Violation {
    std::string kind, label, where;
    std::vector<InputVal> inputs;
    std::vector<std::string> stack;
};
struct Sample {
    std::vector<InputVal> inputs;
    std::vector<std::pair<std::string, std::string>> observed;
    std::string end;
};
struct Result {
    u64 insts = 0, forks = 0, pathsDone = 0, pathsAssume = 0, pathsError = 0, pathsExit = 0;
    std::map<std::string, u64> reach, asserts, assertQueries, assertProved;
    std::map<std::string, u64> incomplete;
    std::vector<Violation> violations;
    std::vector<Sample> samples;
    std::map<std::string, u64> branchForks; // location -> forks
    double wall = 0;
    u64 maxDepthPC = 0;
};
void execute(Program &prog, Config const &cfg, Result &res);
} // namespace symx
