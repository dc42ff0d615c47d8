// prep in.bc out.bc out.o TAG : give every definition an externally visible unique name, redirect the
// allocator to the harness arena, scalarise vectors, and emit native code from the very same module.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/LegacyPassManager.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/TargetSelect.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/MC/TargetRegistry.h>
#include <llvm/Target/TargetMachine.h>
#include <llvm/Target/TargetOptions.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <set>
using namespace llvm;
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  InitializeNativeTarget(); InitializeNativeTargetAsmPrinter(); InitializeNativeTargetAsmParser();
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(argv[1], err, C);
  if (!M) { err.print("prep", errs()); return 1; }
  std::string tag = argv[4];
  std::set<std::string> keep = {"llvm.global_ctors", "llvm.used", "llvm.compiler.used", "llvm.global_dtors"};
  std::set<std::string> redirect = {"malloc", "calloc", "realloc", "free", "strdup", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm",
    "strlen","strcmp","strncmp","strcasecmp","strncasecmp","strchr","strrchr","strstr","strcpy","strncpy","strcat","strncat","memcmp","strtol","strtoul","strtoll","strtoull","atoi","atol",
    "toupper","tolower","isxdigit","isdigit","isalpha","isalnum","isspace","isprint","isupper","islower","ispunct","iscntrl","isgraph","strpbrk","strspn","strcspn","strtok","strtok_r","memchr","bsearch","qsort","abs","labs",
    "__isoc23_strtol","__isoc23_strtoul","__isoc23_strtoll","__isoc23_strtoull","snprintf","sprintf","vsnprintf","vsprintf","vasprintf","__ctype_b_loc","__ctype_tolower_loc","__ctype_toupper_loc","rand","srand","random","srandom","bcmp","stpcpy","strnlen","memrchr"};
  int n = 0;
  auto fix = [&](GlobalValue &g) {
    if (g.isDeclaration()) return;
    std::string nm = g.getName().str(); if (keep.count(nm)) return;
    if (g.hasLocalLinkage()) { std::string base = nm.empty() ? std::string("anon") : nm; g.setName(base + ".L" + std::to_string(n++) + "." + tag); g.setLinkage(GlobalValue::ExternalLinkage); }
    g.setVisibility(GlobalValue::DefaultVisibility); g.setDSOLocal(false);
    if (g.hasLinkOnceLinkage()) g.setLinkage(GlobalValue::WeakODRLinkage);
  };
  for (auto &g : M->globals()) fix(g);
  for (auto &f : *M) fix(f);
  for (auto &a : M->aliases()) fix(a);
  for (auto &f : *M) if (f.isDeclaration() && redirect.count(f.getName().str())) f.setName("vrt_" + f.getName().str());
  // extra optimisation: fold branches to selects, scalarise
  { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM; FunctionPassManager FPM;
    FPM.addPass(ScalarizerPass());
    FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().bonusInstThreshold(4).convertSwitchToLookupTable(false)));
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM); }
  { std::error_code ec; raw_fd_ostream os(argv[2], ec); if (ec) return 1; WriteBitcodeToFile(*M, os); }
  std::string e; auto T = TargetRegistry::lookupTarget(M->getTargetTriple(), e); if (!T) { errs() << e; return 1; }
  TargetOptions TO; auto TM = T->createTargetMachine(M->getTargetTriple(), "x86-64", "", TO, Reloc::PIC_, std::nullopt, CodeGenOptLevel::Less);
  M->setDataLayout(TM->createDataLayout());
  std::error_code ec; raw_fd_ostream os(argv[3], ec); legacy::PassManager PM;
  if (TM->addPassesToEmitFile(PM, os, nullptr, CodeGenFileType::ObjectFile)) return 1;
  PM.run(*M); os.flush();
  return 0;
}
