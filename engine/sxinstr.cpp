// Instrument linked bitcode for native replay: model renames, shared-access hooks, ASan attribute, entry renaming.
#include "renames.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/IR/Verifier.h>
#include <cstdio>
using namespace llvm;
int main(int argc, char **argv) { // in.bc out.bc entry
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(argv[1], err, C); if (!M) { err.print("sxinstr", errs()); return 2; }
  applyModelRenames(*M); const DataLayout &DL = M->getDataLayout();
  auto *V = Type::getVoidTy(C); auto *P = PointerType::get(C, 0); auto *I64 = Type::getInt64Ty(C); auto *I32 = Type::getInt32Ty(C);
  auto acc = M->getOrInsertFunction("__sxn_access", V, P, I64, I32); auto mc = M->getOrInsertFunction("__sxn_memcpy", V, P, P, I64); auto ms = M->getOrInsertFunction("__sxn_memset", V, P, I32, I64);
  bool asan = argc > 4 && std::string(argv[4]) == "asan";
  for (auto &F : *M) { if (F.isDeclaration()) continue; StringRef n = F.getName(); bool model = n.starts_with("sxm_") || n.starts_with("mdl_");
    if (asan && !model) F.addFnAttr(Attribute::SanitizeAddress);
    if (model) continue; std::vector<Instruction *> ins; for (auto &b : F) for (auto &i : b) ins.push_back(&i);
    for (auto *i : ins) {
      IRBuilder<> B(i); auto hook = [&](Value *p, Type *t, bool w) { if (isa<AllocaInst>(p) || isa<GlobalVariable>(p)) return; B.CreateCall(acc, {p, ConstantInt::get(I64, DL.getTypeStoreSize(t)), ConstantInt::get(I32, w)}); };
      if (auto l = dyn_cast<LoadInst>(i)) hook(l->getPointerOperand(), l->getType(), false);
      else if (auto s = dyn_cast<StoreInst>(i)) hook(s->getPointerOperand(), s->getValueOperand()->getType(), true);
      else if (auto a = dyn_cast<AtomicRMWInst>(i)) hook(a->getPointerOperand(), a->getType(), true);
      else if (auto x = dyn_cast<AtomicCmpXchgInst>(i)) hook(x->getPointerOperand(), x->getNewValOperand()->getType(), true);
      else if (auto m = dyn_cast<MemTransferInst>(i)) { B.CreateCall(mc, {m->getRawDest(), m->getRawSource(), B.CreateZExtOrTrunc(m->getLength(), I64)}); m->eraseFromParent(); }
      else if (auto m = dyn_cast<MemSetInst>(i)) { B.CreateCall(ms, {m->getRawDest(), B.CreateZExt(m->getValue(), I32), B.CreateZExtOrTrunc(m->getLength(), I64)}); m->eraseFromParent(); } } }
  if (auto *E = M->getFunction(argv[3])) { E->setName("SX_ENTRY"); E->setLinkage(GlobalValue::ExternalLinkage); } else { fprintf(stderr, "no entry\n"); return 2; }
  if (verifyModule(*M, &errs())) return 2;
  std::error_code ec; raw_fd_ostream o(argv[2], ec); WriteBitcodeToFile(*M, o); return 0; }
