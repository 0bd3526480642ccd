// astx: exports the type-checked AST of the repository's functions and records as JSON lines.
//   astx <repo-prefix> <out.jsonl> -- <clang flags> file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fcntl.h>
#include <map>
#include <set>
using namespace clang;
using llvm::json::OStream;

static std::string Prefix, OutPath;

struct Exporter : RecursiveASTVisitor<Exporter> {
  ASTContext &C;
  SourceManager &SM;
  llvm::raw_ostream &OS;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::set<const FunctionDecl *> done;
  std::map<const FunctionDecl *, int> ninst;

  Exporter(ASTContext &C, llvm::raw_ostream &OS) : C(C), SM(C.getSourceManager()), OS(OS), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[D] = n;
    return n;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    std::string s = F.str();
    if (s.compare(0, Prefix.size(), Prefix) == 0) return s.substr(Prefix.size());
    return "";
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool mine(SourceLocation L) {
    std::string f = file(L);
    return !f.empty() && f.find("include/ftk/external/") != 0 && f.find("include/ftk/basic/legacy") != 0;
  }
  std::string ty(QualType T) { return T.isNull() ? std::string("?") : T.getCanonicalType().getAsString(PP); }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream o(s);
    D->printQualifiedName(o, PP);
    return o.str();
  }

  const Stmt *strip(const Stmt *S) {
    for (;;) {
      if (!S) return S;
      if (auto *E = dyn_cast<ImplicitCastExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ConstantExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) S = E->getExpr();
      else return S;
    }
  }
  void var(OStream &J, const VarDecl *V) {
    J.object([&] {
      J.attribute("k", "Var");
      J.attribute("l", line(V->getLocation()));
      J.attribute("n", V->getNameAsString());
      J.attribute("id", id(V));
      J.attribute("t", ty(V->getType()));
      if (V->isStaticLocal()) J.attribute("static", true);
      if (V->hasInit()) { J.attribute("listinit", V->getInitStyle() != VarDecl::CInit); J.attributeBegin("init"); node(J, V->getInit()); J.attributeEnd(); }
    });
  }
  void kids(OStream &J, const Stmt *S) {
    J.attributeArray("c", [&] { for (const Stmt *K : S->children()) node(J, K); });
  }
  void ref(OStream &J, const ValueDecl *D) {
    J.attribute("n", D->getNameAsString());
    J.attribute("id", id(D));
    const char *dk = "other";
    if (isa<ParmVarDecl>(D)) dk = "parm";
    else if (auto *V = dyn_cast<VarDecl>(D)) dk = V->hasGlobalStorage() && !V->isStaticLocal() ? "global" : "var";
    else if (isa<CXXMethodDecl>(D)) dk = "method";
    else if (isa<FunctionDecl>(D)) dk = "func";
    else if (isa<FieldDecl>(D)) dk = "field";
    else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { dk = "enum"; J.attribute("v", EC->getInitVal().isSigned() ? EC->getInitVal().getSExtValue() : (int64_t)EC->getInitVal().getZExtValue()); }
    else if (isa<NonTypeTemplateParmDecl>(D)) dk = "tparm";
    J.attribute("dk", dk);
    if (!isa<ParmVarDecl>(D) && !(isa<VarDecl>(D) && !cast<VarDecl>(D)->hasGlobalStorage())) J.attribute("q", qn(D));
  }
  void fn(OStream &J, const FunctionDecl *F) {
    J.attribute("f", qn(F));
    J.attribute("fid", id(F));
    std::string fl = file(F->getLocation());
    if (!fl.empty()) J.attribute("ff", fl);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isVirtual()) J.attribute("virt", true); if (M->isStatic()) J.attribute("static", true); if (M->isConst()) J.attribute("constm", true); }
    if (auto *P = pattern(F)) J.attribute("pid", id(P));
    J.attributeArray("pt", [&] { for (auto *P : F->parameters()) J.value(ty(P->getType())); });
  }
  const FunctionDecl *pattern(const FunctionDecl *F) { return F->getTemplateInstantiationPattern(); }

  void node(OStream &J, const Stmt *S0) {
    const Stmt *S = strip(S0);
    if (!S) { J.value(nullptr); return; }
    J.object([&] {
      const char *k = S->getStmtClassName();
      J.attribute("k", k);
      J.attribute("l", line(S->getBeginLoc()));
      if (auto *E = dyn_cast<Expr>(S)) {
        J.attribute("t", ty(E->getType()));
        if (!E->getType().isNull() && !E->isValueDependent() && !E->isTypeDependent() && !isa<IntegerLiteral>(E) && E->getType()->isIntegralOrEnumerationType()) {
          Expr::EvalResult R;
          if (E->EvaluateAsInt(R, C) && R.Val.getInt().isRepresentableByInt64()) J.attribute("v", R.Val.getInt().getExtValue());
        }
      }
      switch (S->getStmtClass()) {
      case Stmt::IntegerLiteralClass: J.attribute("v", (int64_t)cast<IntegerLiteral>(S)->getValue().getLimitedValue()); return;
      case Stmt::FloatingLiteralClass: J.attribute("v", cast<FloatingLiteral>(S)->getValueAsApproximateDouble()); return;
      case Stmt::CXXBoolLiteralExprClass: return;
      case Stmt::StringLiteralClass: if (cast<StringLiteral>(S)->getCharByteWidth() == 1) J.attribute("v", llvm::json::fixUTF8(cast<StringLiteral>(S)->getString())); return;
      case Stmt::CharacterLiteralClass: return;
      case Stmt::DeclRefExprClass: ref(J, cast<DeclRefExpr>(S)->getDecl()); return;
      case Stmt::MemberExprClass: {
        auto *M = cast<MemberExpr>(S);
        ref(J, M->getMemberDecl());
        if (M->isArrow()) J.attribute("arrow", true);
        kids(J, S);
        return;
      }
      case Stmt::CXXDependentScopeMemberExprClass: {
        auto *M = cast<CXXDependentScopeMemberExpr>(S);
        J.attribute("n", M->getMember().getAsString());
        if (!M->isImplicitAccess()) { J.attributeArray("c", [&] { node(J, M->getBase()); }); }
        return;
      }
      case Stmt::UnresolvedMemberExprClass: {
        auto *M = cast<UnresolvedMemberExpr>(S);
        J.attribute("n", M->getMemberName().getAsString());
        if (!M->isImplicitAccess()) J.attributeArray("c", [&] { node(J, M->getBase()); });
        return;
      }
      case Stmt::UnresolvedLookupExprClass: J.attribute("n", cast<UnresolvedLookupExpr>(S)->getName().getAsString()); return;
      case Stmt::DependentScopeDeclRefExprClass: J.attribute("n", cast<DependentScopeDeclRefExpr>(S)->getDeclName().getAsString()); return;
      case Stmt::DeclStmtClass:
        J.attributeArray("c", [&] {
          for (auto *D : cast<DeclStmt>(S)->decls())
            if (auto *V = dyn_cast<VarDecl>(D)) var(J, V);
        });
        return;
      case Stmt::LambdaExprClass: {
        auto *L = cast<LambdaExpr>(S);
        J.attribute("fid", id(L->getCallOperator()));
        J.attributeArray("cap", [&] {
          for (auto &K : L->captures())
            J.object([&] {
              J.attribute("how", K.capturesThis() ? "this" : K.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
              if (K.capturesVariable()) { J.attribute("n", K.getCapturedVar()->getNameAsString()); J.attribute("id", id(K.getCapturedVar())); }
            });
        });
        J.attributeArray("params", [&] { for (auto *P : L->getCallOperator()->parameters()) var(J, P); });
        J.attributeBegin("body"); node(J, L->getBody()); J.attributeEnd();
        return;
      }
      case Stmt::IfStmtClass: {
        auto *I = cast<IfStmt>(S);
        if (I->getInit()) { J.attributeBegin("init"); node(J, I->getInit()); J.attributeEnd(); }
        if (I->getConditionVariableDeclStmt()) { J.attributeBegin("cvar"); node(J, I->getConditionVariableDeclStmt()); J.attributeEnd(); }
        J.attributeBegin("cond"); node(J, I->getCond()); J.attributeEnd();
        J.attributeBegin("then"); node(J, I->getThen()); J.attributeEnd();
        if (I->getElse()) { J.attributeBegin("else"); node(J, I->getElse()); J.attributeEnd(); }
        return;
      }
      case Stmt::ForStmtClass: {
        auto *F = cast<ForStmt>(S);
        J.attributeBegin("init"); node(J, F->getInit()); J.attributeEnd();
        J.attributeBegin("cond"); node(J, F->getCond()); J.attributeEnd();
        J.attributeBegin("inc"); node(J, F->getInc()); J.attributeEnd();
        J.attributeBegin("body"); node(J, F->getBody()); J.attributeEnd();
        return;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto *F = cast<CXXForRangeStmt>(S);
        J.attributeBegin("var"); var(J, F->getLoopVariable()); J.attributeEnd();
        J.attributeBegin("range"); node(J, F->getRangeInit()); J.attributeEnd();
        J.attributeBegin("body"); node(J, F->getBody()); J.attributeEnd();
        return;
      }
      case Stmt::WhileStmtClass: {
        auto *F = cast<WhileStmt>(S);
        J.attributeBegin("cond"); node(J, F->getCond()); J.attributeEnd();
        J.attributeBegin("body"); node(J, F->getBody()); J.attributeEnd();
        return;
      }
      case Stmt::DoStmtClass: {
        auto *F = cast<DoStmt>(S);
        J.attributeBegin("cond"); node(J, F->getCond()); J.attributeEnd();
        J.attributeBegin("body"); node(J, F->getBody()); J.attributeEnd();
        return;
      }
      case Stmt::SwitchStmtClass: {
        auto *F = cast<SwitchStmt>(S);
        J.attributeBegin("cond"); node(J, F->getCond()); J.attributeEnd();
        J.attributeBegin("body"); node(J, F->getBody()); J.attributeEnd();
        return;
      }
      case Stmt::CaseStmtClass: {
        auto *K = cast<CaseStmt>(S);
        J.attributeBegin("lhs"); node(J, K->getLHS()); J.attributeEnd();
        J.attributeArray("c", [&] { node(J, K->getSubStmt()); });
        return;
      }
      case Stmt::CXXTryStmtClass: {
        auto *T = cast<CXXTryStmt>(S);
        J.attributeArray("c", [&] { node(J, T->getTryBlock()); });
        J.attributeArray("catch", [&] { for (unsigned i = 0; i < T->getNumHandlers(); i++) node(J, T->getHandler(i)->getHandlerBlock()); });
        return;
      }
      case Stmt::UnaryExprOrTypeTraitExprClass: return;
      case Stmt::CXXDefaultArgExprClass: J.attributeArray("c", [&] { node(J, cast<CXXDefaultArgExpr>(S)->getExpr()); }); return;
      default: break;
      }
      if (auto *U = dyn_cast<UnaryOperator>(S)) J.attribute("op", (U->isPostfix() ? "p" : "") + UnaryOperator::getOpcodeStr(U->getOpcode()).str());
      if (auto *B = dyn_cast<BinaryOperator>(S)) J.attribute("op", B->getOpcodeStr());
      if (auto *K = dyn_cast<ExplicitCastExpr>(S)) J.attribute("cast", ty(K->getTypeAsWritten()));
      if (auto *K = dyn_cast<CXXConstructExpr>(S)) {
        J.attribute("ctor", qn(K->getConstructor()->getParent()));
        if (K->getConstructor()->isCopyOrMoveConstructor()) J.attribute("copy", true);
        J.attribute("fid", id(K->getConstructor()));
      }
      if (auto *N = dyn_cast<CXXNewExpr>(S)) { if (N->isArray()) J.attribute("array", true); }
      if (auto *N = dyn_cast<CXXDeleteExpr>(S)) { if (N->isArrayForm()) J.attribute("array", true); }
      if (auto *L = dyn_cast<InitListExpr>(S)) {
        J.attributeArray("c", [&] { for (auto *I : L->inits()) node(J, I); });
        return;
      }
      if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
        if (D->hasAssociatedStmt()) { J.attributeArray("c", [&] { node(J, D->getRawStmt()); }); return; }
      }
      if (auto *K = dyn_cast<CallExpr>(S)) {
        if (auto *F = K->getDirectCallee()) fn(J, F);
        if (auto *O = dyn_cast<CXXOperatorCallExpr>(S)) J.attribute("oop", getOperatorSpelling(O->getOperator()));
        if (auto *M = dyn_cast<CXXMemberCallExpr>(S))
          if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens()))
            if (ME->hasQualifier()) J.attribute("qualified", true);
        J.attributeBegin("callee"); node(J, K->getCallee()); J.attributeEnd();
        J.attributeArray("c", [&] { for (auto *A : K->arguments()) node(J, A); });
        return;
      }
      kids(J, S);
    });
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || !mine(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (F->isDefaulted() || !done.insert(F).second) return true;
    const FunctionDecl *P = pattern(F);
    if (P) { if (ninst[P]++ >= 2) return true; }
    std::string buf;
    llvm::raw_string_ostream o(buf);
    {
      OStream J(o);
      J.object([&] {
        J.attribute("kind", "func");
        J.attribute("q", qn(F));
        J.attribute("n", F->getNameAsString());
        J.attribute("id", id(F));
        J.attribute("file", file(F->getLocation()));
        J.attribute("l", line(F->getLocation()));
        J.attribute("e", line(F->getEndLoc()));
        J.attribute("ret", ty(F->getReturnType()));
        J.attribute("tmpl", P ? "inst" : F->isDependentContext() ? "pattern" : "");
        if (P) J.attribute("pid", id(P));
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
          J.attribute("cls", qn(M->getParent()));
          if (M->isVirtual()) J.attribute("virt", true);
          if (M->isStatic()) J.attribute("static", true);
          if (M->isConst()) J.attribute("constm", true);
          J.attribute("access", (int)M->getAccess());
          J.attributeArray("over", [&] { for (auto *X : M->overridden_methods()) J.value(id(X)); });
        }
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
          J.attribute("isctor", true);
          J.attributeArray("inits", [&] {
            for (auto *I : K->inits())
              J.object([&] {
                if (I->isAnyMemberInitializer()) J.attribute("n", I->getAnyMember()->getNameAsString());
                else if (I->isBaseInitializer()) J.attribute("base", ty(QualType(I->getBaseClass(), 0)));
                J.attribute("written", I->isWritten());
                J.attributeBegin("e"); node(J, I->getInit()); J.attributeEnd();
              });
          });
        }
        J.attributeArray("params", [&] { for (auto *Q : F->parameters()) var(J, Q); });
        J.attributeBegin("body"); node(J, F->getBody()); J.attributeEnd();
      });
    }
    OS << o.str() << "\n";
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda() || !mine(R->getLocation())) return true;
    if (R->getName().empty()) return true;
    std::string buf;
    llvm::raw_string_ostream o(buf);
    {
      OStream J(o);
      J.object([&] {
        J.attribute("kind", "record");
        J.attribute("q", qn(R));
        J.attribute("n", R->getNameAsString());
        J.attribute("t", ty(C.getRecordType(R)));
        J.attribute("file", file(R->getLocation()));
        J.attribute("l", line(R->getLocation()));
        J.attribute("tmpl", isa<ClassTemplateSpecializationDecl>(R) ? "inst" : R->isDependentContext() ? "pattern" : "");
        J.attributeArray("bases", [&] { for (auto &B : R->bases()) J.value(ty(B.getType())); });
        J.attributeArray("fields", [&] {
          for (auto *F : R->fields())
            J.object([&] {
              J.attribute("n", F->getNameAsString());
              J.attribute("id", id(F));
              J.attribute("t", ty(F->getType()));
              J.attribute("l", line(F->getLocation()));
              J.attribute("init", F->hasInClassInitializer());
              J.attribute("mutable", F->isMutable());
            });
        });
        J.attributeArray("methods", [&] {
          for (auto *M : R->methods())
            if (!M->isImplicit())
              J.object([&] {
                J.attribute("n", M->getNameAsString());
                J.attribute("id", id(M));
                J.attribute("l", line(M->getLocation()));
                if (M->isVirtual()) J.attribute("virt", true);
                if (M->isPureVirtual()) J.attribute("pure", true);
                if (M->isConst()) J.attribute("constm", true);
                J.attribute("access", (int)M->getAccess());
                J.attribute("ret", ty(M->getReturnType()));
                J.attributeArray("pt", [&] { for (auto *P : M->parameters()) J.value(ty(P->getType())); });
                J.attributeArray("over", [&] { for (auto *X : M->overridden_methods()) J.value(id(X)); });
              });
        });
      });
    }
    OS << o.str() << "\n";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!mine(D->getLocation())) return true;
    std::string buf;
    llvm::raw_string_ostream o(buf);
    {
      OStream J(o);
      J.object([&] {
        J.attribute("kind", "enum");
        J.attribute("q", D->getName().empty() ? std::string() : qn(D));
        J.attribute("file", file(D->getLocation()));
        J.attribute("l", line(D->getLocation()));
        J.attributeArray("consts", [&] {
          for (auto *E : D->enumerators())
            J.object([&] { J.attribute("n", E->getNameAsString()); J.attribute("v", E->getInitVal().isSigned() ? E->getInitVal().getSExtValue() : (int64_t)E->getInitVal().getZExtValue()); J.attribute("l", line(E->getLocation())); J.attribute("id", id(E)); });
        });
      });
    }
    OS << o.str() << "\n";
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !mine(V->getLocation()) || isa<ParmVarDecl>(V) || !V->isThisDeclarationADefinition()) return true;
    std::string buf;
    llvm::raw_string_ostream o(buf);
    {
      OStream J(o);
      J.object([&] {
        J.attribute("kind", "global");
        J.attribute("q", qn(V));
        J.attribute("file", file(V->getLocation()));
        J.attributeBegin("var"); var(J, V); J.attributeEnd();
      });
    }
    OS << o.str() << "\n";
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    if (EC) { llvm::errs() << "cannot write " << OutPath << "\n"; exit(3); }
    Exporter X(C, OS);
    X.TraverseDecl(C.getTranslationUnitDecl());
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage: astx prefix out -- flags file\n"; return 3; }
  Prefix = argv[1];
  OutPath = argv[2];
  std::vector<std::string> args;
  for (int i = 4; i < argc - 1; i++) args.push_back(argv[i]);
  std::string src = argv[argc - 1];
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {src});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
