#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
using namespace llvm;
PreservedAnalyses vsymRun(Module&M,ModuleAnalysisManager&A);
struct VsymPlug : PassInfoMixin<VsymPlug> {
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&A){return vsymRun(M,A);}
  static bool isRequired(){return true;}
};
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"vsym","1",[](PassBuilder&PB){
    PB.registerOptimizerLastEPCallback([](ModulePassManager&MPM,OptimizationLevel){MPM.addPass(VsymPlug());});
    PB.registerPipelineParsingCallback([](StringRef n,ModulePassManager&MPM,ArrayRef<PassBuilder::PipelineElement>){if(n=="vsym"){MPM.addPass(VsymPlug());return true;}return false;});
  }};
}
