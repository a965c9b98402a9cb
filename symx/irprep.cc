// irprep in.bc out.bc: marks functions that symx replaces as noinline and runs an O1 pipeline without vectorisation.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Instructions.h>
using namespace llvm;
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    LLVMContext ctx;
    SMDiagnostic d;
    auto m = parseIRFile(argv[1], d, ctx);
    if (!m) { d.print("irprep", errs()); return 2; }
    static const char *names[] = {"hash_key", "_M_hash_code", "_M_bucket_index", "hash_mix", "hash_combine", "strhash", "hash_bytes"};
    for (auto &f : *m) {
        if (f.isDeclaration()) continue;
        f.removeFnAttr(Attribute::OptimizeNone);
        std::string n = f.getName().str();
        bool hit = false;
        for (auto *k : names) if (n.find(k) != std::string::npos) hit = true;
        if (!hit) continue;
        f.removeFnAttr(Attribute::AlwaysInline);
        f.addFnAttr(Attribute::NoInline);
    }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PipelineTuningOptions o;
    o.LoopVectorization = false; o.SLPVectorization = false; o.LoopUnrolling = false; o.LoopInterleaving = false; o.MergeFunctions = false;
    PassBuilder PB(nullptr, o);
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    auto MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
    MPM.run(*m, MAM);
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    if (ec) return 2;
    WriteBitcodeToFile(*m, os);
    os.close();
    return 0;
}
