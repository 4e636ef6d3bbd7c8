// cxfacts: dump the type-checked AST of every function defined in the analysed
// source tree (template instantiations included) as JSON.  One translation unit
// per run.  Used by the python analyses in /verif/lib.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/CXXInheritance.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

static std::string Root, OutFile;

namespace {

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::OStream &J;
  std::unique_ptr<ItaniumMangleContext> MC;
  ASTNameGenerator NG;
  std::map<std::string, int> TypeIdx;
  std::vector<std::string> Types;
  std::unordered_map<const Decl *, int> LocalIdx;
  std::set<const FunctionDecl *> DoneF;
  std::set<const CXXRecordDecl *> DoneR;
  std::set<const Decl *> DoneV;
  std::map<std::string, json::Value *> dummy;
  json::Array Funcs, Records, Enums, Globals;

  Dumper(ASTContext &C, json::OStream &J)
      : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), J(J),
        MC(ItaniumMangleContext::create(C, C.getDiagnostics())), NG(C) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.TerseOutput = true;
    PP.Indentation = 0;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto F = fileOf(L);
    return F.size() > Root.size() && F.compare(0, Root.size(), Root) == 0;
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  int ty(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    std::string S = T.getAsString(PP);
    auto It = TypeIdx.find(S);
    if (It != TypeIdx.end()) return It->second;
    int N = Types.size();
    Types.push_back(S);
    TypeIdx[S] = N;
    return N;
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return S;
  }
  bool internalLinkage(const FunctionDecl *F) {
    return F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace();
  }
  // stable key for a function
  std::string fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string S;
    if (F->isTemplated() || F->isInvalidDecl()) {
      S = "tmpl:" + qn(F) + ":" + std::to_string(line(F->getLocation()));
      return S;
    }
    bool isLam = false;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) isLam = M->getParent()->isLambda();
    llvm::raw_string_ostream OS(S);
    if (auto *M = dyn_cast<CXXConstructorDecl>(F))
      MC->mangleName(GlobalDecl(M, Ctor_Complete), OS);
    else if (auto *M = dyn_cast<CXXDestructorDecl>(F))
      MC->mangleName(GlobalDecl(M, Dtor_Complete), OS);
    else if (MC->shouldMangleDeclName(F))
      MC->mangleName(GlobalDecl(F), OS);
    else
      OS << F->getName();
    OS.flush();
    if (isLam || internalLinkage(F) ||
        F->getParentFunctionOrMethod())
      S += "@" + fileOf(F->getLocation()) + (isLam ? ":" + std::to_string(line(F->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(F->getLocation())) : "");
    return S;
  }
  std::string rid(const CXXRecordDecl *R) {
    if (!R) return "";
    R = R->getCanonicalDecl();
    QualType T = C.getRecordType(R);
    if (R->isLambda())
      return "lambda@" + fileOf(R->getLocation()) + ":" + std::to_string(line(R->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(R->getLocation()));
    return T.getCanonicalType().getAsString(PP);
  }
  int local(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = LocalIdx.find(D);
    if (It != LocalIdx.end()) return It->second;
    int N = LocalIdx.size();
    LocalIdx[D] = N;
    return N;
  }

  json::Value opt(const Stmt *S) {
    if (!S) return nullptr;
    return node(S);
  }
  json::Array list(llvm::ArrayRef<const Expr *> A) {
    json::Array R;
    for (auto *E : A) R.push_back(opt(E));
    return R;
  }
  template <class It> json::Array range(It B, It E) {
    json::Array R;
    for (; B != E; ++B) R.push_back(opt(*B));
    return R;
  }

  json::Object callee(const FunctionDecl *F) {
    json::Object O;
    O["id"] = fid(F);
    O["qn"] = qn(F);
    O["n"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = rid(M->getParent());
      if (M->isVirtual()) O["virt"] = true;
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
    }
    if (auto *A = F->getTemplateSpecializationArgs()) {
      json::Array TA;
      for (auto &T : A->asArray()) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        T.print(PP, OS, true);
        TA.push_back(OS.str());
      }
      O["targs"] = std::move(TA);
    }
    return O;
  }
  void refField(json::Object &O, const ValueDecl *V) {
    O["n"] = V->getNameAsString();
    if (auto *F = dyn_cast<FieldDecl>(V)) {
      O["fk"] = "field";
      O["rec"] = rid(dyn_cast<CXXRecordDecl>(F->getParent()));
    } else if (auto *F = dyn_cast<IndirectFieldDecl>(V)) {
      O["fk"] = "field";
      (void)F;
    } else if (auto *F = dyn_cast<FunctionDecl>(V)) {
      O["fk"] = "func";
      O["callee"] = callee(F);
    } else if (isa<EnumConstantDecl>(V)) {
      O["fk"] = "enum";
      O["qn"] = qn(V);
      O["v"] = llvm::toString(cast<EnumConstantDecl>(V)->getInitVal(), 10);
    } else if (auto *P = dyn_cast<ParmVarDecl>(V)) {
      O["fk"] = "param";
      O["i"] = P->getFunctionScopeIndex();
      O["id"] = local(P);
    } else if (auto *X = dyn_cast<VarDecl>(V)) {
      if (X->hasGlobalStorage()) {
        O["fk"] = X->isStaticLocal() ? "slocal" : "global";
        O["qn"] = qn(V);
        if (X->isStaticLocal()) O["id"] = local(X);
      } else {
        O["fk"] = "local";
        O["id"] = local(X);
      }
    } else if (auto *B = dyn_cast<BindingDecl>(V)) {
      O["fk"] = "binding";
      O["id"] = local(B);
    } else
      O["fk"] = "other";
  }
  void constInt(json::Object &O, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (T.isNull() || !T->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
      O["cv"] = llvm::toString(R.Val.getInt(), 10);
  }

  const Expr *strip(const Expr *E) {
    for (;;) {
      if (!E) return E;
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        E = P->getSubExpr();
      } else return E;
    }
  }

  json::Value node(const Stmt *S0) {
    const Stmt *S = S0;
    int ict = -1;
    if (auto *E = dyn_cast<Expr>(S)) {
      if (auto *IC = dyn_cast<ImplicitCastExpr>(E))
        if (IC->getCastKind() == CK_IntegralCast || IC->getCastKind() == CK_FloatingCast ||
            IC->getCastKind() == CK_FloatingToIntegral || IC->getCastKind() == CK_IntegralToFloating ||
            IC->getCastKind() == CK_IntegralToBoolean)
          ict = ty(IC->getType());
      if (isa<CXXDefaultArgExpr>(E)) {
        auto V = node2(strip(E));
        if (auto *O = V.getAsObject()) (*O)["defarg"] = true;
        return V;
      }
      S = strip(E);
      if (!S) return nullptr;
    }
    auto V = node2(S);
    if (ict >= 0)
      if (auto *O = V.getAsObject()) (*O)["ict"] = ict;
    return V;
  }

  /// The literal behind fmt's FMT_STRING(...).
  const StringLiteral *fmtLiteral(const CXXRecordDecl *R) {
    for (auto *M : R->methods())
      if (isa<CXXConversionDecl>(M) && M->hasBody()) {
        std::vector<const Stmt *> W = {M->getBody()};
        while (!W.empty()) {
          const Stmt *S = W.back();
          W.pop_back();
          if (!S) continue;
          if (auto *L = dyn_cast<StringLiteral>(S)) return L;
          for (auto *C : S->children()) W.push_back(C);
        }
      }
    return nullptr;
  }

  json::Array caps(const LambdaExpr *L) {
    json::Array A;
    auto I = L->capture_init_begin();
    for (auto &Cp : L->captures()) {
      json::Object O;
      if (Cp.capturesThis()) O["this"] = true;
      else if (Cp.capturesVariable()) {
        O["n"] = Cp.getCapturedVar()->getNameAsString();
        O["id"] = local(Cp.getCapturedVar());
        O["ref"] = Cp.getCaptureKind() == LCK_ByRef;
        if (auto *VD = dyn_cast<VarDecl>(Cp.getCapturedVar()))
          if (VD->isInitCapture()) O["init"] = opt(VD->getInit());
      }
      A.push_back(std::move(O));
      ++I;
    }
    return A;
  }
  json::Array params(const FunctionDecl *F) {
    json::Array A;
    for (auto *P : F->parameters()) {
      json::Object O;
      O["n"] = P->getNameAsString();
      O["id"] = local(P);
      O["t"] = ty(P->getType());
      if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg())
        O["dflt"] = opt(P->getDefaultArg());
      A.push_back(std::move(O));
    }
    return A;
  }
  json::Object varDecl(const VarDecl *V) {
    json::Object O;
    O["n"] = V->getNameAsString();
    O["id"] = local(V);
    O["t"] = ty(V->getType());
    O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->hasInit()) O["init"] = opt(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *X : D->bindings()) {
        json::Object Y;
        Y["n"] = X->getNameAsString();
        Y["id"] = local(X);
        Y["b"] = opt(X->getBinding());
        B.push_back(std::move(Y));
      }
      O["bind"] = std::move(B);
    }
    return O;
  }

  json::Value node2(const Stmt *S) {
    json::Object O;
    O["l"] = line(S->getBeginLoc());
    auto K = [&](const char *N) { O["k"] = N; };
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = ty(E->getType());
    }
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      K("Block");
      auto *X = cast<CompoundStmt>(S);
      O["b"] = range(X->body_begin(), X->body_end());
      O["le"] = line(X->getRBracLoc());
      break;
    }
    case Stmt::IfStmtClass: {
      K("If");
      auto *X = cast<IfStmt>(S);
      if (X->getInit()) O["init"] = opt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      if (X->isConstexpr()) O["constexpr"] = true;
      O["c"] = opt(X->getCond());
      if (X->isConstexpr() && X->getCond() && !X->getCond()->isValueDependent()) {
        Expr::EvalResult R;
        if (X->getCond()->EvaluateAsInt(R, C)) O["ccv"] = R.Val.getInt().getBoolValue();
      }
      O["then"] = opt(X->getThen());
      O["else"] = opt(X->getElse());
      break;
    }
    case Stmt::ForStmtClass: {
      K("For");
      auto *X = cast<ForStmt>(S);
      O["init"] = opt(X->getInit());
      O["c"] = opt(X->getCond());
      O["inc"] = opt(X->getInc());
      O["b"] = opt(X->getBody());
      break;
    }
    case Stmt::WhileStmtClass: {
      K("While");
      auto *X = cast<WhileStmt>(S);
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      O["c"] = opt(X->getCond());
      O["b"] = opt(X->getBody());
      break;
    }
    case Stmt::DoStmtClass: {
      K("Do");
      auto *X = cast<DoStmt>(S);
      O["c"] = opt(X->getCond());
      O["b"] = opt(X->getBody());
      break;
    }
    case Stmt::CXXForRangeStmtClass: {
      K("RangeFor");
      auto *X = cast<CXXForRangeStmt>(S);
      O["var"] = varDecl(X->getLoopVariable());
      O["range"] = opt(X->getRangeInit());
      if (auto *BS = X->getBeginStmt())
        if (auto *BV = dyn_cast<VarDecl>(BS->getSingleDecl()))
          if (BV->getInit())
            if (auto *BC = dyn_cast<CXXMemberCallExpr>(BV->getInit()->IgnoreImplicit()))
              if (auto *BF = BC->getMethodDecl())
                O["begin"] = callee(BF);
      O["b"] = opt(X->getBody());
      break;
    }
    case Stmt::SwitchStmtClass: {
      K("Switch");
      auto *X = cast<SwitchStmt>(S);
      if (X->getInit()) O["init"] = opt(X->getInit());
      O["c"] = opt(X->getCond());
      O["b"] = opt(X->getBody());
      if (X->isAllEnumCasesCovered()) O["allenum"] = true;
      break;
    }
    case Stmt::CaseStmtClass: {
      K("Case");
      auto *X = cast<CaseStmt>(S);
      O["v"] = opt(X->getLHS());
      if (X->getRHS()) O["hi"] = opt(X->getRHS());
      O["b"] = opt(X->getSubStmt());
      break;
    }
    case Stmt::DefaultStmtClass: {
      K("Default");
      O["b"] = opt(cast<DefaultStmt>(S)->getSubStmt());
      break;
    }
    case Stmt::ReturnStmtClass: {
      K("Return");
      O["e"] = opt(cast<ReturnStmt>(S)->getRetValue());
      break;
    }
    case Stmt::BreakStmtClass: K("Break"); break;
    case Stmt::ContinueStmtClass: K("Continue"); break;
    case Stmt::NullStmtClass: K("Null"); break;
    case Stmt::GotoStmtClass: {
      K("Goto");
      O["label"] = cast<GotoStmt>(S)->getLabel()->getName().str();
      break;
    }
    case Stmt::LabelStmtClass: {
      K("Label");
      O["label"] = cast<LabelStmt>(S)->getName();
      O["b"] = opt(cast<LabelStmt>(S)->getSubStmt());
      break;
    }
    case Stmt::AttributedStmtClass:
      return node(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::DeclStmtClass: {
      K("Decl");
      json::Array A;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["v"] = std::move(A);
      break;
    }
    case Stmt::CXXTryStmtClass: {
      K("Try");
      auto *X = cast<CXXTryStmt>(S);
      O["b"] = opt(X->getTryBlock());
      json::Array A;
      for (unsigned I = 0; I < X->getNumHandlers(); I++) {
        json::Object H;
        auto *CS = X->getHandler(I);
        if (CS->getExceptionDecl()) H["var"] = varDecl(CS->getExceptionDecl());
        H["b"] = opt(CS->getHandlerBlock());
        A.push_back(std::move(H));
      }
      O["h"] = std::move(A);
      break;
    }
    // ---- expressions
    case Stmt::IntegerLiteralClass:
      K("Int");
      O["v"] = llvm::toString(cast<IntegerLiteral>(S)->getValue(), 10,
                              cast<Expr>(S)->getType()->isSignedIntegerType());
      break;
    case Stmt::CharacterLiteralClass:
      K("Int");
      O["v"] = std::to_string(cast<CharacterLiteral>(S)->getValue());
      O["chr"] = true;
      break;
    case Stmt::CXXBoolLiteralExprClass:
      K("Bool");
      O["v"] = cast<CXXBoolLiteralExpr>(S)->getValue();
      break;
    case Stmt::FloatingLiteralClass: {
      K("Float");
      llvm::SmallString<32> B;
      cast<FloatingLiteral>(S)->getValue().toString(B);
      O["v"] = B.str().str();
      break;
    }
    case Stmt::StringLiteralClass: {
      K("Str");
      auto *X = cast<StringLiteral>(S);
      std::string V = X->getCharByteWidth() == 1 ? X->getString().str() : "<wide>";
      if (!json::isUTF8(V)) V = json::fixUTF8(V);
      O["v"] = V;
      break;
    }
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: K("NullPtr"); break;
    case Stmt::DeclRefExprClass: {
      auto *X = cast<DeclRefExpr>(S);
      K("Ref");
      refField(O, X->getDecl());
      if (isa<VarDecl>(X->getDecl())) constInt(O, X);
      break;
    }
    case Stmt::CXXThisExprClass: K("This"); break;
    case Stmt::MemberExprClass: {
      auto *X = cast<MemberExpr>(S);
      K("Mem");
      refField(O, X->getMemberDecl());
      O["o"] = opt(X->getBase());
      if (X->isArrow()) O["arrow"] = true;
      break;
    }
    case Stmt::CallExprClass:
    case Stmt::UserDefinedLiteralClass: {
      auto *X = cast<CallExpr>(S);
      K("Call");
      if (auto *F = X->getDirectCallee()) O["f"] = callee(F);
      else O["fe"] = opt(X->getCallee());
      O["a"] = range(X->arg_begin(), X->arg_end());
      break;
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *X = cast<CXXMemberCallExpr>(S);
      K("Call");
      if (auto *F = X->getMethodDecl()) {
        O["f"] = callee(F);
        O["o"] = opt(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
          if (ME->hasQualifier()) O["qual"] = true;
          if (ME->isArrow()) O["arrow"] = true;
        }
      } else
        O["fe"] = opt(X->getCallee());
      O["a"] = range(X->arg_begin(), X->arg_end());
      O["l"] = line(X->getExprLoc());
      break;
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *X = cast<CXXOperatorCallExpr>(S);
      K("Call");
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) {
        O["f"] = callee(F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
          O["o"] = opt(X->getArg(0));
          O["a"] = range(X->arg_begin() + 1, X->arg_end());
        } else
          O["a"] = range(X->arg_begin(), X->arg_end());
      } else {
        O["fe"] = opt(X->getCallee());
        O["a"] = range(X->arg_begin(), X->arg_end());
      }
      break;
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto *X = cast<CXXConstructExpr>(S);
      if (X->getConstructor()->getParent()->getName() == "FMT_COMPILE_STRING")
        if (auto *L = fmtLiteral(X->getConstructor()->getParent())) return node(L);
      K("New0");
      O["k"] = "Ctor";
      O["f"] = callee(X->getConstructor());
      if (X->getConstructor()->isCopyOrMoveConstructor()) O["copy"] = true;
      if (X->isElidable()) O["elid"] = true;
      if (X->isStdInitListInitialization()) O["stdinit"] = true;
      O["a"] = range(X->arg_begin(), X->arg_end());
      break;
    }
    case Stmt::CXXInheritedCtorInitExprClass: {
      auto *X = cast<CXXInheritedCtorInitExpr>(S);
      K("InhCtor");
      O["f"] = callee(X->getConstructor());
      break;
    }
    case Stmt::CXXNewExprClass: {
      auto *X = cast<CXXNewExpr>(S);
      K("New");
      O["ot"] = ty(X->getAllocatedType());
      O["init"] = opt(X->getInitializer());
      if (X->getArraySize() && *X->getArraySize()) O["sz"] = opt(*X->getArraySize());
      if (X->getNumPlacementArgs()) O["place"] = range(X->placement_arg_begin(), X->placement_arg_end());
      break;
    }
    case Stmt::CXXDeleteExprClass: {
      auto *X = cast<CXXDeleteExpr>(S);
      K("Delete");
      O["e"] = opt(X->getArgument());
      if (X->isArrayForm()) O["arr"] = true;
      break;
    }
    case Stmt::InitListExprClass: {
      auto *X = cast<InitListExpr>(S);
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      K("InitList");
      json::Array A;
      for (unsigned I = 0; I < X->getNumInits(); I++) A.push_back(opt(X->getInit(I)));
      O["a"] = std::move(A);
      if (auto *RD = E2R(X->getType())) {
        json::Array F;
        for (auto &B : RD->bases()) { (void)B; F.push_back("<base>"); }
        for (auto *FD : RD->fields()) F.push_back(FD->getNameAsString());
        O["fields"] = std::move(F);
        O["rec"] = rid(RD);
      }
      break;
    }
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass: K("ZeroInit"); break;
    case Stmt::CXXDefaultInitExprClass: {
      auto *X = cast<CXXDefaultInitExpr>(S);
      return X->getExpr() ? node(X->getExpr()) : json::Value(nullptr);
    }
    case Stmt::BinaryOperatorClass:
    case Stmt::CompoundAssignOperatorClass: {
      auto *X = cast<BinaryOperator>(S);
      K("Bin");
      O["op"] = X->getOpcodeStr().str();
      O["x"] = opt(X->getLHS());
      O["y"] = opt(X->getRHS());
      O["l"] = line(X->getOperatorLoc());
      break;
    }
    case Stmt::UnaryOperatorClass: {
      auto *X = cast<UnaryOperator>(S);
      K("Un");
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) O["post"] = true;
      O["e"] = opt(X->getSubExpr());
      break;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *X = cast<ConditionalOperator>(S);
      K("Cond");
      O["c"] = opt(X->getCond());
      O["x"] = opt(X->getTrueExpr());
      O["y"] = opt(X->getFalseExpr());
      break;
    }
    case Stmt::BinaryConditionalOperatorClass: {
      auto *X = cast<BinaryConditionalOperator>(S);
      K("Cond");
      O["c"] = opt(X->getCommon());
      O["x"] = opt(X->getCommon());
      O["y"] = opt(X->getFalseExpr());
      break;
    }
    case Stmt::OpaqueValueExprClass: {
      auto *X = cast<OpaqueValueExpr>(S);
      if (X->getSourceExpr()) return node(X->getSourceExpr());
      K("Opaque");
      break;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *X = cast<ArraySubscriptExpr>(S);
      K("Sub");
      O["x"] = opt(X->getBase());
      O["y"] = opt(X->getIdx());
      break;
    }
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXDynamicCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXFunctionalCastExprClass: {
      auto *X = cast<ExplicitCastExpr>(S);
      K("Cast");
      O["ck"] = S->getStmtClass() == Stmt::CXXDynamicCastExprClass       ? "dynamic"
                : S->getStmtClass() == Stmt::CXXReinterpretCastExprClass ? "reinterpret"
                : S->getStmtClass() == Stmt::CXXStaticCastExprClass      ? "static"
                : S->getStmtClass() == Stmt::CXXConstCastExprClass       ? "const"
                : S->getStmtClass() == Stmt::CXXFunctionalCastExprClass  ? "functional"
                                                                         : "c";
      O["e"] = opt(X->getSubExpr());
      break;
    }
    case Stmt::LambdaExprClass: {
      auto *X = cast<LambdaExpr>(S);
      K("Lambda");
      O["caps"] = caps(X);
      O["cd"] = X->getCaptureDefault() == LCD_ByRef ? "&" : X->getCaptureDefault() == LCD_ByCopy ? "=" : "";
      auto *M = X->getCallOperator();
      if (M->isTemplated()) {
        // generic lambda: bodies of instantiations
        json::Array A;
        if (auto *FT = M->getDescribedFunctionTemplate())
          for (auto *Sp : FT->specializations()) {
            json::Object P;
            P["id"] = fid(Sp);
            P["params"] = params(Sp);
            P["body"] = opt(Sp->getBody());
            A.push_back(std::move(P));
          }
        O["insts"] = std::move(A);
      } else {
        O["id"] = fid(M);
        O["params"] = params(M);
        O["body"] = opt(M->getBody());
      }
      break;
    }
    case Stmt::CXXThrowExprClass:
      K("Throw");
      O["e"] = opt(cast<CXXThrowExpr>(S)->getSubExpr());
      break;
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto *X = cast<UnaryExprOrTypeTraitExpr>(S);
      K("Sizeof");
      if (!X->isArgumentType()) O["e"] = opt(X->getArgumentExpr());
      else O["ot"] = ty(X->getArgumentType());
      constInt(O, X);
      break;
    }
    case Stmt::CXXTypeidExprClass: {
      K("Typeid");
      auto *X = cast<CXXTypeidExpr>(S);
      if (X->isTypeOperand()) O["ot"] = ty(X->getTypeOperand(C));
      else O["e"] = opt(X->getExprOperand());
      break;
    }
    case Stmt::PredefinedExprClass: K("Predef"); break;
    case Stmt::OffsetOfExprClass: {
      K("Offsetof");
      constInt(O, cast<Expr>(S));
      break;
    }
    default: {
      K("Other");
      O["cls"] = S->getStmtClassName();
      json::Array A;
      for (auto *Ch : S->children()) A.push_back(opt(Ch));
      O["a"] = std::move(A);
      if (auto *E = dyn_cast<Expr>(S)) constInt(O, E);
    }
    }
    return O;
  }
  const CXXRecordDecl *E2R(QualType T) { return T.isNull() ? nullptr : T->getAsCXXRecordDecl(); }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isTemplated()) return true;
    if (!F->isThisDeclarationADefinition()) {
      // declaration only: keep extern "C" prototypes
      return true;
    }
    if (F->isDeleted()) return true;
    SourceLocation L = F->getLocation();
    if (!inRoot(L)) return true;
    if (!DoneF.insert(F->getCanonicalDecl()).second) return true;
    auto *M = dyn_cast<CXXMethodDecl>(F);
    if (M && M->getParent()->isLambda()) return true; // inlined in Lambda nodes
    if (!F->hasBody() && !F->isDefaulted()) return true;
    json::Object O = callee(F);
    O["file"] = fileOf(L);
    O["l"] = line(L);
    O["le"] = line(F->getEndLoc());
    O["ret"] = ty(F->getReturnType());
    O["params"] = params(F);
    if (F->isExternC()) O["externc"] = true;
    if (F->isInlined()) O["inl"] = true;
    if (F->isNoReturn()) O["noret"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    if (M) {
      if (isa<CXXConstructorDecl>(M)) {
        O["kind"] = "ctor";
        auto *CD = cast<CXXConstructorDecl>(M);
        if (CD->isCopyConstructor()) O["copyctor"] = true;
        if (CD->isMoveConstructor()) O["movector"] = true;
        json::Array I;
        for (auto *In : CD->inits()) {
          json::Object X;
          if (In->isAnyMemberInitializer()) X["field"] = In->getAnyMember()->getNameAsString();
          else if (In->isBaseInitializer()) X["base"] = rid(In->getBaseClass()->getAsCXXRecordDecl());
          else X["deleg"] = true;
          if (!In->isWritten()) X["implicit"] = true;
          X["e"] = opt(In->getInit());
          I.push_back(std::move(X));
        }
        O["inits"] = std::move(I);
      } else if (isa<CXXDestructorDecl>(M)) O["kind"] = "dtor";
      else O["kind"] = "method";
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
      O["ov"] = std::move(Ov);
      if (M->isImplicit()) O["implicit"] = true;
    } else
      O["kind"] = "func";
    O["body"] = opt(F->getBody());
    Funcs.push_back(std::move(O));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!inRoot(R->getLocation())) return true;
    if (R->isLambda()) return true;
    if (!DoneR.insert(R->getCanonicalDecl()).second) return true;
    json::Object O;
    O["id"] = rid(R);
    O["n"] = R->getNameAsString();
    O["file"] = fileOf(R->getLocation());
    O["l"] = line(R->getLocation());
    if (R->isAbstract()) O["abstract"] = true;
    if (R->isPolymorphic()) O["poly"] = true;
    if (R->isUnion()) O["union"] = true;
    json::Array B;
    for (auto &X : R->bases()) {
      auto *BR = X.getType()->getAsCXXRecordDecl();
      B.push_back(BR ? rid(BR) : X.getType().getAsString(PP));
    }
    O["bases"] = std::move(B);
    json::Array F;
    const ASTRecordLayout *Lay = nullptr;
    if (!R->isInvalidDecl() && R->isCompleteDefinition()) Lay = &C.getASTRecordLayout(R);
    for (auto *X : R->fields()) {
      json::Object Y;
      Y["n"] = X->getNameAsString();
      Y["t"] = ty(X->getType());
      Y["l"] = line(X->getLocation());
      if (X->isMutable()) Y["mut"] = true;
      if (X->hasInClassInitializer()) Y["init"] = opt(X->getInClassInitializer());
      if (Lay) Y["off"] = (int64_t)Lay->getFieldOffset(X->getFieldIndex()) / 8;
      F.push_back(std::move(Y));
    }
    O["fields"] = std::move(F);
    if (Lay) O["size"] = (int64_t)Lay->getSize().getQuantity();
    json::Array Ms;
    for (auto *M : R->methods()) {
      if (M->isImplicit() && !M->isVirtual() && !isa<CXXConstructorDecl>(M)) continue;
      json::Object Y = callee(M);
      if (M->isPureVirtual()) Y["pure"] = true;
      if (M->isDeleted()) Y["deleted"] = true;
      if (M->isImplicit()) Y["implicit"] = true;
      if (isa<CXXConstructorDecl>(M)) Y["kind"] = "ctor";
      json::Array Ov;
      for (auto *Bm : M->overridden_methods()) Ov.push_back(fid(Bm));
      Y["ov"] = std::move(Ov);
      Y["np"] = M->getNumParams();
      json::Array Ps;
      for (auto *P : M->parameters()) Ps.push_back(ty(P->getType()));
      Y["pt"] = std::move(Ps);
      Y["ret"] = ty(M->getReturnType());
      Y["l"] = line(M->getLocation());
      Y["acc"] = M->getAccess() == AS_public ? "pub" : M->getAccess() == AS_protected ? "prot" : "priv";
      Ms.push_back(std::move(Y));
    }
    O["methods"] = std::move(Ms);
    json::Array SV;
    for (auto *D : R->decls())
      if (auto *V = dyn_cast<VarDecl>(D)) {
        json::Object Y;
        Y["n"] = V->getNameAsString();
        Y["qn"] = qn(V);
        Y["t"] = ty(V->getType());
        if (V->hasInit()) {
          Y["init"] = opt(V->getInit());
          constInt(Y, V->getInit());
        }
        SV.push_back(std::move(Y));
      }
    O["statics"] = std::move(SV);
    Records.push_back(std::move(O));
    return true;
  }

  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return true;
    if (!inRoot(E->getLocation())) return true;
    if (!DoneV.insert(E->getCanonicalDecl()).second) return true;
    json::Object O;
    O["qn"] = qn(E);
    O["file"] = fileOf(E->getLocation());
    O["l"] = line(E->getLocation());
    json::Array A;
    for (auto *X : E->enumerators()) {
      json::Object Y;
      Y["n"] = X->getNameAsString();
      Y["v"] = llvm::toString(X->getInitVal(), 10);
      A.push_back(std::move(Y));
    }
    O["e"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }

  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal()) return true;
    if (V->isTemplated()) return true;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    if (!inRoot(V->getLocation())) return true;
    if (!DoneV.insert(V).second) return true;
    json::Object O;
    O["qn"] = qn(V);
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["file"] = fileOf(V->getLocation());
    O["l"] = line(V->getLocation());
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->hasInit()) {
      O["init"] = opt(V->getInit());
      constInt(O, V->getInit());
    }
    Globals.push_back(std::move(O));
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    json::OStream J(OS);
    Dumper D(C, J);
    D.TraverseDecl(C.getTranslationUnitDecl());
    J.object([&] {
      J.attribute("functions", json::Value(std::move(D.Funcs)));
      J.attribute("records", json::Value(std::move(D.Records)));
      J.attribute("enums", json::Value(std::move(D.Enums)));
      J.attribute("globals", json::Value(std::move(D.Globals)));
      J.attributeArray("types", [&] {
        for (auto &T : D.Types) J.value(json::isUTF8(T) ? T : json::fixUTF8(T));
      });
    });
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

// usage: cxfacts ROOT OUT FILE -- flags...
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  Root = argv[1];
  OutFile = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Args{"/usr/lib/llvm-18/bin/clang++"};
  int I = 4;
  if (I < argc && std::string(argv[I]) == "--") I++;
  for (; I < argc; I++) Args.push_back(argv[I]);
  Args.push_back("-fsyntax-only");
  Args.push_back("-w");
  Args.push_back(File);
  auto FM = llvm::makeIntrusiveRefCnt<FileManager>(FileSystemOptions());
  tooling::ToolInvocation Inv(Args, std::make_unique<Action>(), FM.get());
  bool ok = Inv.run();
  return ok ? 0 : 3;
}
