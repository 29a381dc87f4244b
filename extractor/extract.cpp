// libTooling front end: parses one translation unit and writes, as JSON, every function body,
// record, global and enum of the project (and of the specification files) with resolved callees.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;      // path prefixes that count as project code
static std::vector<std::string> Excludes;   // path fragments that do not (vendored kernels)
static std::string OutFile;

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<ASTNameGenerator> NG;
  json::Array Funcs, Records, Globals, Enums, Decls;
  std::set<std::string> Seen, SeenRec, SeenGlob, SeenDecl;
  std::map<const Decl *, int> Ids;
  std::string MainName;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    NG = std::make_unique<ASTNameGenerator>(C);
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> S(P.getFilename());
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L)))
      if (!FE->getFileEntry().tryGetRealPathName().empty()) S = FE->getFileEntry().tryGetRealPathName();
    return std::string(S.str());
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inProject(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    for (auto &E : Excludes) if (F.find(E) != std::string::npos) return false;
    for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int N = Ids.size();
    return Ids[D] = N;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getNonReferenceType().getCanonicalType().getUnqualifiedType();
    return T.getAsString(PP);
  }
  std::string mangled(const FunctionDecl *F) {
    if (F->getType()->isDependentType() || F->isDependentContext()) return "";
    const auto *D = F;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      auto V = NG->getAllManglings(CD);
      if (!V.empty()) return V.front();
    }
    if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) {
      auto V = NG->getAllManglings(DD);
      if (!V.empty()) return V.front();
    }
    std::string N = NG->getName(D);
    if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) N += "@" + MainName;
    return N;
  }
  std::string qual(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string fieldName(const ValueDecl *D) {
    if (auto *F = dyn_cast<FieldDecl>(D)) return ty(C.getRecordType(F->getParent())) + "::" + F->getNameAsString();
    return qual(D);
  }
  std::string globalName(const VarDecl *V) {
    std::string N;
    if (V->isStaticLocal()) {
      auto *F = dyn_cast<FunctionDecl>(V->getDeclContext());
      N = (F ? mangled(F) : std::string("?")) + "::" + V->getNameAsString();
    } else if (auto *R = dyn_cast<CXXRecordDecl>(V->getDeclContext())) {
      N = ty(C.getRecordType(R)) + "::" + V->getNameAsString();
    } else
      N = qual(V);
    if (!V->isStaticLocal() && V->getFormalLinkage() == Linkage::Internal) N += "@" + fileOf(V->getLocation());
    return N;
  }

  json::Object node(const char *K, const Stmt *S) {
    json::Object O;
    O["k"] = K;
    O["l"] = lineOf(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) O["t"] = ty(E->getType());
    return O;
  }

  json::Value callee(const FunctionDecl *F) {
    json::Object O;
    O["n"] = qual(F);
    O["m"] = mangled(F);
    O["rt"] = ty(F->getReturnType());
    O["rref"] = F->getReturnType()->isReferenceType();
    json::Array PR;
    for (auto *P : F->parameters()) PR.push_back(paramInfo(P));
    O["params"] = std::move(PR);
    if (F->isVariadic()) O["variadic"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = ty(C.getRecordType(M->getParent()));
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["const"] = true;
    }
    if (F->isImplicit() || F->isDefaulted()) O["impl"] = true;
    return O;
  }
  json::Object paramInfo(const ParmVarDecl *P) {
    json::Object O;
    O["d"] = id(P);
    O["n"] = P->getNameAsString();
    O["t"] = ty(P->getType());
    if (P->getType()->isReferenceType()) {
      O["ref"] = true;
      if (P->getType()->isRValueReferenceType()) O["rv"] = true;
      if (P->getType().getNonReferenceType().isConstQualified()) O["const"] = true;
    }
    return O;
  }
  json::Object var(const VarDecl *V) {
    json::Object O;
    O["d"] = id(V);
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["l"] = lineOf(V->getLocation());
    if (V->getType()->isReferenceType()) O["ref"] = true;
    if (V->getType().isConstQualified()) O["const"] = true;
    if (auto *A = C.getAsConstantArrayType(V->getType())) O["arr"] = (int64_t)A->getSize().getZExtValue();
    if (V->isStaticLocal()) { O["static"] = true; O["g"] = globalName(V); }
    if (V->getInit()) O["init"] = expr(V->getInit());
    return O;
  }
  json::Value args(llvm::ArrayRef<const Expr *> A) {
    json::Array R;
    for (auto *E : A) R.push_back(expr(E));
    return R;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) {
      json::Object O = node("tmp", E);
      O["e"] = expr(P->getSubExpr());
      return O;
    }
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
      json::Object O = node("stdinit", E);
      O["e"] = expr(P->getSubExpr());
      return O;
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      json::Object O = node("int", E);
      llvm::SmallString<32> S;
      L->getValue().toString(S, 10, L->getType()->isSignedIntegerType());
      O["v"] = std::string(S.str());
      return O;
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      json::Object O = node("float", E);
      // exact source spelling is kept so that 0.00001 is the rational 1/100000
      llvm::SmallString<32> S;
      bool Inv = false;
      llvm::SmallString<32> Buf;
      StringRef Sp = Lexer::getSpelling(L->getBeginLoc(), Buf, SM, C.getLangOpts(), &Inv);
      O["v"] = Inv ? std::string("?") : Sp.str();
      L->getValue().toString(S, 17);
      O["a"] = std::string(S.str());
      return O;
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { json::Object O = node("bool", E); O["v"] = L->getValue(); return O; }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) { json::Object O = node("char", E); O["v"] = (int64_t)L->getValue(); return O; }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      json::Object O = node("str", E);
      std::string S = L->isOrdinary() || L->isUTF8() ? L->getString().str() : L->getBytes().str();
      if (!json::isUTF8(S)) S = json::fixUTF8(S);
      O["v"] = S;
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
    if (isa<CXXThisExpr>(E)) return node("this", E);
    if (auto *I = dyn_cast<ImplicitValueInitExpr>(E)) return node("zero", I);
    if (auto *I = dyn_cast<CXXScalarValueInitExpr>(E)) return node("zero", I);
    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      auto *D = R->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        json::Object O = node("enum", E);
        O["v"] = (int64_t)EC->getInitVal().getExtValue();
        O["n"] = qual(EC);
        return O;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        json::Object O = node("fref", E);
        O["f"] = callee(F);
        return O;
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          json::Object O = node("gref", E);
          O["g"] = globalName(V);
          O["n"] = V->getNameAsString();
          if (V->getType().isConstQualified()) O["const"] = true;
          if (V->isStaticLocal()) { O["static"] = true; O["d"] = id(V); }
          return O;
        }
        json::Object O = node("ref", E);
        O["d"] = id(V);
        O["n"] = V->getNameAsString();
        return O;
      }
      json::Object O = node("unk", E);
      O["w"] = "DeclRef";
      return O;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      auto *D = M->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        json::Object O = node("gref", E);
        O["g"] = globalName(V);
        O["n"] = V->getNameAsString();
        if (V->getType().isConstQualified()) O["const"] = true;
        return O;
      }
      json::Object O = node("mem", E);
      O["b"] = expr(M->getBase());
      O["f"] = fieldName(D);
      O["arrow"] = M->isArrow();
      if (D->getType()->isReferenceType()) O["fref"] = true;
      return O;
    }
    if (auto *S = dyn_cast<ArraySubscriptExpr>(E)) {
      json::Object O = node("sub", E);
      O["b"] = expr(S->getBase());
      O["i"] = expr(S->getIdx());
      return O;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      json::Object O = node("un", E);
      O["op"] = (U->isPostfix() ? std::string("post") : std::string("")) + UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      O["e"] = expr(U->getSubExpr());
      return O;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      json::Object O = node("bin", E);
      O["op"] = BinaryOperator::getOpcodeStr(B->getOpcode()).str();
      O["a"] = expr(B->getLHS());
      O["b"] = expr(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) {
        O["ct"] = ty(CA->getComputationResultType());
        O["lt"] = ty(B->getLHS()->getType());
      }
      return O;
    }
    if (auto *T = dyn_cast<AbstractConditionalOperator>(E)) {
      json::Object O = node("cond", E);
      O["c"] = expr(T->getCond());
      O["a"] = expr(T->getTrueExpr());
      O["b"] = expr(T->getFalseExpr());
      return O;
    }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      json::Object O = node("lambda", E);
      O["m"] = mangled(L->getCallOperator());
      json::Array Caps;
      auto *R = L->getLambdaClass();
      auto FI = R->field_begin();
      auto II = L->capture_init_begin();
      for (auto &Cp : L->captures()) {
        json::Object CO;
        if (Cp.capturesThis()) CO["this"] = true;
        else if (Cp.capturesVariable()) {
          CO["d"] = id(Cp.getCapturedVar());
          CO["ref"] = Cp.getCaptureKind() == LCK_ByRef;
        }
        if (*II) CO["init"] = expr(*II);
        ++II;
        ++FI;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      emitFunction(L->getCallOperator());
      return O;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      json::Object O = node("new", E);
      O["at"] = ty(N->getAllocatedType());
      if (N->isArray() && N->getArraySize()) O["n"] = expr(*N->getArraySize());
      if (N->getInitializer()) O["e"] = expr(N->getInitializer());
      return O;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) { json::Object O = node("delete", E); O["e"] = expr(D->getArgument()); O["array"] = D->isArrayForm(); return O; }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      json::Object O = node("throw", E);
      if (T->getSubExpr()) { O["e"] = expr(T->getSubExpr()); O["et"] = ty(T->getSubExpr()->getType()); }
      return O;
    }
    if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      json::Object O = node("sizeof", E);
      O["of"] = ty(S->getTypeOfArgument());
      Expr::EvalResult R;
      if (S->EvaluateAsInt(R, C)) O["v"] = (int64_t)R.Val.getInt().getExtValue();
      return O;
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      json::Object O = node("initlist", E);
      json::Array A;
      for (auto *X : (I->isSemanticForm() ? I : I->getSemanticForm())->inits()) A.push_back(expr(X));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      json::Object O = node("ctor", E);
      O["f"] = callee(K->getConstructor());
      json::Array A;
      for (auto *X : K->arguments()) A.push_back(expr(X));
      O["a"] = std::move(A);
      auto *CD = K->getConstructor();
      if (CD->isCopyConstructor()) O["copy"] = true;
      if (CD->isMoveConstructor()) O["move"] = true;
      if (CD->isDefaultConstructor()) O["dflt"] = true;
      if (K->requiresZeroInitialization()) O["zeroinit"] = true;
      if (K->isListInitialization()) O["list"] = true;
      if (K->isElidable()) O["elide"] = true;
      return O;
    }
    if (auto *K = dyn_cast<CXXInheritedCtorInitExpr>(E)) { json::Object O = node("unk", K); O["w"] = "InheritedCtor"; return O; }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      json::Object O = node("call", E);
      auto *F = CE->getDirectCallee();
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(CE)) {
        auto *Cal = MC->getCallee()->IgnoreParens();
        if (auto *ME = dyn_cast<MemberExpr>(Cal)) {
          O["k"] = "mcall";
          O["b"] = expr(ME->getBase());
          O["arrow"] = ME->isArrow();
          if (ME->hasQualifier()) O["qualified"] = true;
        }
      } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(CE)) {
        O["k"] = "opcall";
        O["op"] = getOperatorSpelling(OC->getOperator());
        O["ismem"] = F && isa<CXXMethodDecl>(F);
      }
      if (F) O["f"] = callee(F);
      else O["fe"] = expr(CE->getCallee());
      json::Array A;
      for (auto *X : CE->arguments()) A.push_back(expr(X));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *CA = dyn_cast<CastExpr>(E)) {
      const char *KN = CA->getCastKindName();
      std::string K = KN;
      if (K == "NoOp" || K == "FunctionToPointerDecay" || K == "BuiltinFnToFnPtr") return expr(CA->getSubExpr());
      if (K == "ConstructorConversion" || K == "UserDefinedConversion") {
        return expr(CA->getSubExpr());
      }
      json::Object O = node("cast", E);
      O["ck"] = K;
      O["e"] = expr(CA->getSubExpr());
      O["st"] = ty(CA->getSubExpr()->getType());
      if (isa<ExplicitCastExpr>(CA)) O["x"] = true;
      return O;
    }
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return expr(P->getSourceExpr());
    if (auto *P = dyn_cast<PredefinedExpr>(E)) return expr(P->getFunctionName());
    json::Object O = node("unk", E);
    O["w"] = E->getStmtClassName();
    return O;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object O;
      O["k"] = "expr";
      O["l"] = lineOf(S->getBeginLoc());
      O["e"] = expr(E);
      return O;
    }
    if (auto *B = dyn_cast<CompoundStmt>(S)) {
      json::Object O = node("block", S);
      json::Array A;
      for (auto *X : B->body()) A.push_back(stmt(X));
      O["b"] = std::move(A);
      return O;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      json::Object O = node("decl", S);
      json::Array A;
      for (auto *X : D->decls())
        if (auto *V = dyn_cast<VarDecl>(X)) A.push_back(var(V));
      O["v"] = std::move(A);
      return O;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      json::Object O = node("if", S);
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt()) O["cv"] = stmt(I->getConditionVariableDeclStmt());
      O["c"] = expr(I->getCond());
      O["a"] = stmt(I->getThen());
      O["b"] = stmt(I->getElse());
      return O;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      json::Object O = node("for", S);
      O["init"] = stmt(F->getInit());
      O["c"] = expr(F->getCond());
      O["inc"] = expr(F->getInc());
      O["b"] = stmt(F->getBody());
      return O;
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object O = node("rfor", S);
      O["r"] = expr(F->getRangeInit());
      O["rt"] = ty(F->getRangeInit()->getType());
      auto *LV = F->getLoopVariable();
      json::Object V;
      V["d"] = id(LV);
      V["n"] = LV->getNameAsString();
      V["t"] = ty(LV->getType());
      if (LV->getType()->isReferenceType()) V["ref"] = true;
      O["v"] = std::move(V);
      O["b"] = stmt(F->getBody());
      return O;
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      json::Object O = node("while", S);
      if (W->getConditionVariableDeclStmt()) O["cv"] = stmt(W->getConditionVariableDeclStmt());
      O["c"] = expr(W->getCond());
      O["b"] = stmt(W->getBody());
      return O;
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      json::Object O = node("do", S);
      O["c"] = expr(W->getCond());
      O["b"] = stmt(W->getBody());
      return O;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      json::Object O = node("ret", S);
      O["e"] = expr(R->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (isa<NullStmt>(S)) return node("nop", S);
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      json::Object O = node("switch", S);
      O["c"] = expr(W->getCond());
      O["b"] = stmt(W->getBody());
      return O;
    }
    if (auto *K = dyn_cast<CaseStmt>(S)) {
      json::Object O = node("case", S);
      O["v"] = expr(K->getLHS());
      O["b"] = stmt(K->getSubStmt());
      return O;
    }
    if (auto *K = dyn_cast<DefaultStmt>(S)) {
      json::Object O = node("default", S);
      O["b"] = stmt(K->getSubStmt());
      return O;
    }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      json::Object O = node("try", S);
      O["b"] = stmt(T->getTryBlock());
      json::Array A;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        json::Object HO;
        HO["t"] = H->getExceptionDecl() ? ty(H->getCaughtType()) : std::string("...");
        if (H->getExceptionDecl()) HO["d"] = id(H->getExceptionDecl());
        HO["b"] = stmt(H->getHandlerBlock());
        A.push_back(std::move(HO));
      }
      O["h"] = std::move(A);
      return O;
    }
    json::Object O = node("unk", S);
    O["w"] = S->getStmtClassName();
    return O;
  }

  void emitFunction(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) && !F->isDefaulted()) return;
    if (!Def) return;
    F = Def;
    std::string M = mangled(F);
    if (M.empty() || !Seen.insert(M).second) return;
    json::Object O;
    O["m"] = M;
    O["n"] = qual(F);
    O["file"] = fileOf(F->getLocation());
    O["l"] = lineOf(F->getLocation());
    O["rt"] = ty(F->getReturnType());
    O["rref"] = F->getReturnType()->isReferenceType();
    if (F->getReturnType()->isPointerType()) O["rptr"] = true;
    if (F->isInlined()) O["inline"] = true;
    json::Array P;
    for (auto *X : F->parameters()) P.push_back(paramInfo(X));
    O["params"] = std::move(P);
    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = ty(C.getRecordType(MD->getParent()));
      if (MD->isStatic()) O["static"] = true;
      if (MD->isVirtual()) O["virt"] = true;
      if (MD->isConst()) O["const"] = true;
      O["access"] = getAccessSpelling(MD->getAccess());
    }
    if (F->isImplicit()) O["implicit"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array I;
      for (auto *X : CD->inits()) {
        json::Object IO;
        if (X->isBaseInitializer()) IO["base"] = ty(QualType(X->getBaseClass(), 0));
        else if (X->isDelegatingInitializer()) IO["deleg"] = true;
        else if (X->getAnyMember()) IO["f"] = fieldName(X->getAnyMember());
        IO["e"] = expr(X->getInit());
        IO["written"] = X->isWritten();
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
      O["ctor"] = true;
      if (CD->isCopyConstructor()) O["copyctor"] = true;
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["body"] = stmt(F->getBody());
    Funcs.push_back(std::move(O));
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!inProject(F->getLocation())) return true;
    // every declaration, for the declared-versus-defined rule
    if (!F->isDependentContext() && !F->isImplicit()) {
      std::string M = mangled(F);
      std::string Key = M + (F->isThisDeclarationADefinition() ? "#D" : "#d");
      if (!M.empty() && SeenDecl.insert(Key).second) {
        json::Object O;
        O["m"] = M;
        O["n"] = qual(F);
        O["file"] = fileOf(F->getLocation());
        O["l"] = lineOf(F->getLocation());
        O["def"] = F->isThisDeclarationADefinition() || F->isDeleted() || F->isDefaulted();
        O["pure"] = F->isPureVirtual();
        O["deleted"] = F->isDeleted();
        O["inst"] = F->isTemplateInstantiation();
        json::Array P;
        for (auto *X : F->parameters()) P.push_back(X->getType().getCanonicalType().getAsString(PP));
        O["pt"] = std::move(P);
        Decls.push_back(std::move(O));
      }
    }
    emitFunction(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !inProject(R->getLocation())) return true;
    if (R->isLambda()) return true;
    std::string N = ty(C.getRecordType(R));
    if (!SeenRec.insert(N).second) return true;
    json::Object O;
    O["n"] = N;
    O["file"] = fileOf(R->getLocation());
    O["l"] = lineOf(R->getLocation());
    O["abstract"] = R->isAbstract();
    json::Array B, Fs, Ms;
    for (auto &X : R->bases()) B.push_back(ty(X.getType()));
    for (auto *X : R->fields()) {
      json::Object FO;
      FO["n"] = fieldName(X);
      FO["t"] = ty(X->getType());
      FO["l"] = lineOf(X->getLocation());
      FO["access"] = getAccessSpelling(X->getAccess());
      if (X->getType()->isReferenceType()) FO["ref"] = true;
      if (X->hasInClassInitializer() && X->getInClassInitializer()) FO["init"] = expr(X->getInClassInitializer());
      if (X->isMutable()) FO["mutable"] = true;
      Fs.push_back(std::move(FO));
    }
    for (auto *X : R->methods()) {
      if (X->isImplicit() && !X->hasBody()) continue;
      json::Object MO;
      MO["n"] = X->getNameAsString();
      MO["m"] = mangled(X);
      MO["virt"] = X->isVirtual();
      MO["pure"] = X->isPureVirtual();
      MO["access"] = getAccessSpelling(X->getAccess());
      json::Array OV;
      for (auto *Y : X->overridden_methods()) OV.push_back(mangled(Y));
      MO["over"] = std::move(OV);
      Ms.push_back(std::move(MO));
    }
    O["bases"] = std::move(B);
    O["fields"] = std::move(Fs);
    O["methods"] = std::move(Ms);
    O["usercopyctor"] = R->hasUserDeclaredCopyConstructor();
    O["usercopyassign"] = R->hasUserDeclaredCopyAssignment();
    O["agg"] = R->isAggregate();
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || isa<ParmVarDecl>(V) || !inProject(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (V->getType()->isDependentType()) return true;
    std::string N = globalName(V);
    bool Def = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly || V->isStaticLocal();
    if (!SeenGlob.insert(N + (Def ? "#D" : "#d")).second) return true;
    json::Object O;
    O["g"] = N;
    O["n"] = qual(V);
    O["t"] = ty(V->getType());
    O["file"] = fileOf(V->getLocation());
    O["l"] = lineOf(V->getLocation());
    O["def"] = Def;
    O["const"] = V->getType().isConstQualified() || V->isConstexpr();
    O["staticlocal"] = V->isStaticLocal();
    if (V->getInit()) O["init"] = expr(V->getInit());
    Globals.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!inProject(D->getLocation()) || D->isDependentContext()) return true;
    json::Object O;
    O["n"] = qual(D);
    json::Array V;
    for (auto *X : D->enumerators()) {
      json::Object VO;
      VO["n"] = X->getNameAsString();
      VO["v"] = (int64_t)X->getInitVal().getExtValue();
      V.push_back(std::move(VO));
    }
    O["v"] = std::move(V);
    Enums.push_back(std::move(O));
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    if (auto FE = C.getSourceManager().getFileEntryRefForID(C.getSourceManager().getMainFileID()))
      D.MainName = FE->getName().str();
    D.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O;
    O["tu"] = D.MainName;
    O["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    O["functions"] = std::move(D.Funcs);
    O["records"] = std::move(D.Records);
    O["globals"] = std::move(D.Globals);
    O["enums"] = std::move(D.Enums);
    O["decls"] = std::move(D.Decls);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << json::Value(std::move(O));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

// usage: extract OUT.json ROOTS EXCLUDES SOURCE [compiler args...]   (ROOTS and EXCLUDES are ':' separated)
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  OutFile = argv[1];
  auto split = [](StringRef S, std::vector<std::string> &V) {
    llvm::SmallVector<StringRef, 8> P;
    S.split(P, ':', -1, false);
    for (auto X : P) V.push_back(X.str());
  };
  split(argv[2], Roots);
  split(argv[3], Excludes);
  std::vector<std::string> Args;
  for (int i = 5; i < argc; ++i) Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool T(DB, {std::string(argv[4])});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
