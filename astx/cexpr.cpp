// Source-to-source: marks every function declared in the selected headers `constexpr`, so that the compiler can evaluate them in static_assert.
// usage: cexpr OUTDIR FILE[,FILE...] -- flags main.cpp        (FILE: absolute paths; the rewritten copies go to OUTDIR/<basename>)
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Rewrite/Core/Rewriter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
static std::string Out;
static std::set<std::string> Files;

struct V : RecursiveASTVisitor<V> {
  ASTContext &C;
  Rewriter &R;
  std::set<unsigned> done;
  std::set<FileID> touched;
  V(ASTContext &C, Rewriter &R) : C(C), R(R) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isImplicit() || F->isDefaulted() || F->isDeleted() || F->isConstexpr()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    SourceManager &SM = C.getSourceManager();
    SourceLocation L = F->getInnerLocStart();
    if (L.isInvalid() || L.isMacroID()) return true;
    auto fe = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!fe) return true;
    std::string p = fe->getFileEntry().tryGetRealPathName().str();
    if (!Files.count(p)) return true;
    if (F->getReturnType().getAsString().find("ostream") != std::string::npos) return true;
    for (auto *P : F->parameters()) if (P->getType().getAsString().find("std::function") != std::string::npos) return true;
    if (isa<CXXDestructorDecl>(F) && cast<CXXDestructorDecl>(F)->isVirtual()) return true;
    if (!done.insert(SM.getFileOffset(L) ^ (SM.getFileID(L).getHashValue() << 20)).second) return true;
    touched.insert(SM.getFileID(L));
    R.InsertText(L, "constexpr ", false, false);
    return true;
  }
};
struct Con : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Rewriter R(C.getSourceManager(), C.getLangOpts());
    V v(C, R);
    v.TraverseDecl(C.getTranslationUnitDecl());
    for (FileID id : v.touched) {
      auto fe = C.getSourceManager().getFileEntryRefForID(id);
      std::string n = fe->getName().str();
      n = n.substr(n.rfind('/') + 1);
      std::error_code EC;
      llvm::raw_fd_ostream o(Out + "/" + n, EC);
      R.getEditBuffer(id).write(o);
    }
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Con>(); }
};
int main(int argc, char **argv) {
  Out = argv[1];
  std::string f = argv[2];
  for (size_t i = 0; i <= f.size();) { size_t j = f.find(',', i); if (j == std::string::npos) j = f.size(); Files.insert(f.substr(i, j - i)); i = j + 1; }
  std::vector<std::string> a;
  for (int i = 4; i < argc - 1; i++) a.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", a);
  tooling::ClangTool T(DB, {argv[argc - 1]});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
