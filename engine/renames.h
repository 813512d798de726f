// Redirect external calls to their model: if the module defines sxm_NAME, every use of the external NAME is replaced.
#pragma once
#include <llvm/IR/Module.h>
static inline void applyModelRenames(llvm::Module &M) {
  std::vector<std::pair<llvm::Function *, llvm::Function *>> r;
  for (auto &F : M) {
    std::string n = F.getName().str();
    if (n.rfind("sxm_", 0) == 0) continue;
    if (llvm::Function *G = M.getFunction("sxm_" + n)) if (!G->isDeclaration()) r.push_back({&F, G});
  }
  for (auto &p : r) if (p.first->isDeclaration()) p.first->replaceAllUsesWith(p.second);
}
