// Fact extractor: parses translation units with clang and writes the resolved,
// type-checked program (function bodies, call targets, records, enums, globals)
// as JSON for the rule engine in /verif/sa.  It decides nothing by itself.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutPath;

static Value num(const llvm::APSInt &V) {
  if (V.isRepresentableByInt64()) return (int64_t)V.getExtValue();
  return (uint64_t)V.getLoBits(64).extractBitsAsZExtValue(V.getBitWidth() < 64 ? V.getBitWidth() : 64, 0);
}

static std::string safe(llvm::StringRef S) {
  return llvm::json::isUTF8(S) ? S.str() : llvm::json::fixUTF8(S);
}

namespace {
struct Ex : RecursiveASTVisitor<Ex> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  Object Funcs, Records, Enums, Globals;
  Array Files;
  std::map<std::string, int> FileIdx;
  std::map<const Decl *, std::string> Ids;
  std::set<std::string> UsedIds;
  std::vector<const FunctionDecl *> Pending;
  std::set<const FunctionDecl *> Done;
  std::set<const CXXRecordDecl *> RecDone;

  Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
    PP.TerseOutput = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  int fileIdx(llvm::StringRef F) {
    auto It = FileIdx.find(F.str());
    if (It != FileIdx.end()) return It->second;
    int N = Files.size();
    Files.push_back(F.str());
    FileIdx[F.str()] = N;
    return N;
  }
  // spelling location, unless it lies in scratch space / command line
  std::pair<std::string, unsigned> where(SourceLocation L) {
    if (L.isInvalid()) return {"", 0};
    SourceLocation S = SM.getSpellingLoc(L);
    if (SM.isWrittenInScratchSpace(S) || SM.isWrittenInBuiltinFile(S) ||
        SM.isWrittenInCommandLineFile(S))
      S = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(S, false);
    if (P.isInvalid()) return {"", 0};
    return {P.getFilename(), P.getLine()};
  }
  std::pair<std::string, unsigned> ewhere(SourceLocation L) {
    if (L.isInvalid()) return {"", 0};
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
    if (P.isInvalid()) return {"", 0};
    return {P.getFilename(), P.getLine()};
  }
  static bool inRoots(llvm::StringRef F) {
    for (auto &R : Roots)
      if (F.starts_with(R)) return true;
    return false;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return safe(T.getCanonicalType().getAsString(PP));
  }
  std::string id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    std::string R;
    if (isa<FunctionDecl>(D)) {
      llvm::SmallString<128> B;
      if (!index::generateUSRForDecl(D, B)) R = B.str().str();
    }
    if (R.empty()) R = "d" + std::to_string(Ids.size());
    R = safe(R);
    while (UsedIds.count(R)) R += "'";
    UsedIds.insert(R);
    Ids[D] = R;
    return R;
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream O(S);
    D->printQualifiedName(O, PP);
    return safe(O.str());
  }
  std::string qnT(const FunctionDecl *F) {
    std::string S;
    llvm::raw_string_ostream O(S);
    F->getNameForDiagnostic(O, PP, true);
    return safe(O.str());
  }
  Array loc(SourceLocation L) {
    auto W = where(L);
    auto E = ewhere(L);
    Array A{fileIdx(W.first), (int64_t)W.second};
    if (E != W) {
      A.push_back(fileIdx(E.first));
      A.push_back((int64_t)E.second);
    }
    return A;
  }
  void need(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && !Done.count(Def)) Pending.push_back(Def);
  }

  // ---- expressions -------------------------------------------------------
  void callee(Object &O, const FunctionDecl *F) {
    O["fid"] = id(F);
    O["fn"] = qn(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &X : TA->asArray()) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        X.print(PP, OS, true);
        A.push_back(safe(OS.str()));
      }
      O["ta"] = std::move(A);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["rec"] = safe(ty(C.getTypeDeclType(M->getParent())));
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["const"] = true;
    }
    Array P;
    for (auto *X : F->parameters()) P.push_back(ty(X->getType()));
    O["pt"] = std::move(P);
    if (F->isVariadic()) O["variadic"] = true;
    need(F);
  }

  Value ex(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
        Value V = ex(X->getExpr());
        if (auto *Ob = V.getAsObject()) (*Ob)["dflt"] = true;
        return V;
      }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) { E = X->getSourceExpr(); continue; } break; }
      if (auto *X = dyn_cast<GenericSelectionExpr>(E)) { if (!X->isResultDependent()) { E = X->getResultExpr(); continue; } break; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<PredefinedExpr>(E)) { if (X->getFunctionName()) { E = X->getFunctionName(); continue; } break; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay:
        case CK_FunctionToPointerDecay: case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
          E = X->getSubExpr(); continue;
        default: break;
        }
      }
      break;
    }
    Object O;
    if (isa<CallExpr>(E) && E->isGLValue()) O["lv"] = true;
    O["l"] = loc(E->getExprLoc());
    if (!E->isTypeDependent()) O["t"] = ty(E->getType());
    if (!E->isValueDependent() && !E->isTypeDependent() &&
        !E->isInstantiationDependent() &&
        E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E) &&
        !isa<CallExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C) && !R.HasSideEffects)
        O["cv"] = num(R.Val.getInt());
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "lit";
      llvm::APInt V = X->getValue();
      O["v"] = num(llvm::APSInt(V, true));
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "lit"; O["v"] = (int64_t)X->getValue(); O["ch"] = true;
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "lit"; O["v"] = X->getValue();
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "lit";
      llvm::SmallString<32> S; X->getValue().toString(S);
      O["f"] = S.str().str();
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "null";
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str";
      O["v"] = X->getCharByteWidth() == 1 ? safe(X->getString()) : std::string("<wide>");
    } else if (isa<CXXThisExpr>(E)) {
      O["k"] = "this";
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "enum"; O["n"] = qn(EC); O["v"] = num(EC->getInitVal());
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "fref"; callee(O, F);
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        O["k"] = "ref"; O["id"] = id(D); O["n"] = safe(D->getNameAsString()); O["vk"] = "binding";
        (void)B;
      } else {
        O["k"] = "ref"; O["id"] = id(D); O["n"] = safe(D->getNameAsString());
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (isa<ParmVarDecl>(V)) O["vk"] = "parm";
          else if (V->isLocalVarDecl() && !V->isStaticLocal()) O["vk"] = "local";
          else if (V->isStaticLocal()) O["vk"] = "slocal";
          else { O["vk"] = "global"; O["n"] = qn(V); global(V); }
        }
        if (X->refersToEnclosingVariableOrCapture()) O["cap"] = true;
      }
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "mref"; callee(O, F); O["b"] = ex(X->getBase());
      } else if (isa<VarDecl>(D)) { // static data member
        O["k"] = "ref"; O["id"] = id(D); O["n"] = qn(D); O["vk"] = "global"; global(cast<VarDecl>(D));
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "enum"; O["n"] = qn(EC); O["v"] = num(EC->getInitVal());
      } else {
        O["k"] = "mem"; O["n"] = safe(D->getNameAsString()); O["b"] = ex(X->getBase());
        if (X->isArrow()) O["arrow"] = true;
        if (auto *FD = dyn_cast<FieldDecl>(D)) O["rec"] = ty(C.getTypeDeclType(FD->getParent()));
        O["dt"] = ty(D->getType());
      }
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "call"; O["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl *F = X->getDirectCallee();
      Array A; unsigned I = 0;
      if (F) {
        callee(O, F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) { O["obj"] = ex(X->getArg(0)); I = 1; }
      } else O["ce"] = ex(X->getCallee());
      for (; I < X->getNumArgs(); I++) A.push_back(ex(X->getArg(I)));
      O["a"] = std::move(A);
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "call";
      if (const CXXMethodDecl *M = X->getMethodDecl()) {
        callee(O, M);
        O["obj"] = ex(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) O["arrow"] = true;
          if (ME->hasQualifier()) O["qual"] = true;
        }
      } else O["ce"] = ex(X->getCallee());
      Array A;
      for (auto *Y : X->arguments()) A.push_back(ex(Y));
      O["a"] = std::move(A);
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto *F = X->getDirectCallee()) {
        callee(O, F);
        if (F->isNoReturn() || F->hasAttr<NoReturnAttr>()) O["noret"] = true;
      } else O["ce"] = ex(X->getCallee());
      Array A;
      for (auto *Y : X->arguments()) A.push_back(ex(Y));
      O["a"] = std::move(A);
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "ctor"; callee(O, X->getConstructor());
      Array A;
      for (auto *Y : X->arguments()) A.push_back(ex(Y));
      O["a"] = std::move(A);
      if (X->getConstructor()->isCopyOrMoveConstructor()) O["copy"] = true;
      if (X->isListInitialization()) O["list"] = true;
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "ctor"; callee(O, X->getConstructor()); O["a"] = Array();
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new"; O["at"] = ty(X->getAllocatedType());
      if (X->isArray()) { O["array"] = true; if (auto S = X->getArraySize()) O["size"] = ex(*S); }
      if (X->getInitializer()) O["init"] = ex(X->getInitializer());
      if (X->getNumPlacementArgs()) O["place"] = true;
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete"; O["a"] = ex(X->getArgument());
      if (X->isArrayForm()) O["array"] = true;
      QualType DT = X->getDestroyedType();
      if (!DT.isNull()) { O["at"] = ty(DT);
        if (auto *RD = DT->getAsCXXRecordDecl(); RD && RD->hasDefinition())
          if (auto *DD = RD->getDestructor()) { O["dtor"] = id(DD); if (DD->isVirtual()) O["virt"] = true; need(DD);} }
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
      if (X->isPostfix()) O["post"] = true;
      O["a"] = ex(X->getSubExpr());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isAssignmentOp() ? "asg" : "bin"; O["op"] = X->getOpcodeStr();
      O["a"] = ex(X->getLHS()); O["b"] = ex(X->getRHS());
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "cond"; O["c"] = ex(X->getCond()); O["a"] = ex(X->getTrueExpr()); O["b"] = ex(X->getFalseExpr());
    } else if (auto *X = dyn_cast<BinaryConditionalOperator>(E)) {
      O["k"] = "cond"; O["c"] = ex(X->getCommon()); O["a"] = ex(X->getCommon()); O["b"] = ex(X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "idx"; O["a"] = ex(X->getBase()); O["b"] = ex(X->getIdx());
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      auto *Op = X->getCallOperator();
      O["fid"] = id(Op);
      O["rec"] = ty(E->getType());
      Array Cap; auto CI = X->capture_init_begin();
      for (auto &Ca : X->captures()) {
        Object Q;
        if (Ca.capturesThis()) Q["this"] = true;
        else if (Ca.capturesVariable()) {
          Q["id"] = id(Ca.getCapturedVar()); Q["n"] = safe(Ca.getCapturedVar()->getNameAsString());
          if (auto *V = dyn_cast<VarDecl>(Ca.getCapturedVar()); V && V->isInitCapture()) Q["init"] = ex(V->getInit());
        }
        Q["byref"] = Ca.getCaptureKind() == LCK_ByRef;
        (void)CI;
        Cap.push_back(std::move(Q));
      }
      O["caps"] = std::move(Cap);
      if (auto *FT = Op->getDescribedFunctionTemplate()) {
        Array Sp;
        for (auto *S : FT->specializations()) { Sp.push_back(id(S)); need(S); }
        O["specs"] = std::move(Sp);
      } else need(Op);
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      O["k"] = "ilist";
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      Array A;
      unsigned N = 0;
      for (auto *Y : S->inits()) { if (++N > 5000) break; A.push_back(ex(Y)); }
      O["a"] = std::move(A);
      if (auto *RT = E->getType()->getAsCXXRecordDecl(); RT && !isa<ClassTemplatePartialSpecializationDecl>(RT) && RT->hasDefinition() && RT->isAggregate()) {
        Array FN; for (auto *F : RT->fields()) FN.push_back(safe(F->getNameAsString()));
        O["fields"] = std::move(FN);
      }
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw"; O["a"] = X->getSubExpr() ? ex(X->getSubExpr()) : Value(nullptr);
      if (X->getSubExpr()) O["tt"] = ty(X->getSubExpr()->getType());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "cast"; O["ck"] = X->getCastKindName();
      if (isa<CXXDynamicCastExpr>(X)) O["dyn"] = true;
      if (isa<ExplicitCastExpr>(X)) O["explicit"] = true;
      O["a"] = ex(X->getSubExpr());
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O["k"] = "sizeof"; O["of"] = ty(X->getTypeOfArgument());
    } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      O["k"] = "zero";
    } else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      O["k"] = "typeid"; (void)X;
    } else if (auto *X = dyn_cast<StmtExpr>(E)) {
      O["k"] = "sexpr"; O["s"] = st(X->getSubStmt());
    } else {
      O["k"] = "other"; O["cls"] = E->getStmtClassName();
      Array A;
      for (auto *Y : E->children()) if (auto *YE = dyn_cast_or_null<Expr>(Y)) A.push_back(ex(YE));
      O["a"] = std::move(A);
    }
    return Value(std::move(O));
  }

  // ---- statements --------------------------------------------------------
  Value var(const VarDecl *V) {
    Object O;
    O["id"] = id(V); O["n"] = safe(V->getNameAsString()); O["t"] = ty(V->getType());
    O["l"] = loc(V->getLocation());
    if (V->getInit()) O["i"] = ex(V->getInit());
    if (V->getInit() && V->getInitStyle() == VarDecl::CallInit) O["call"] = true;
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getType()->isReferenceType()) O["ref"] = true;
    QualType T = V->getType();
    if (T.isConstQualified()) O["const"] = true;
    if (auto *RD = T->getAsCXXRecordDecl(); RD && RD->hasDefinition()) {
      record(RD);
      if (!RD->hasTrivialDestructor())
        if (auto *DD = RD->getDestructor()) { O["dtor"] = id(DD); need(DD); }
    }
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array B;
      for (auto *X : DD->bindings()) B.push_back(Object{{"id", id(X)}, {"n", safe(X->getNameAsString())}});
      O["bind"] = std::move(B);
    }
    if (T->isScalarType()) O["scalar"] = true;
    return Value(std::move(O));
  }
  Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { Object O; O["k"] = "expr"; O["e"] = ex(E); return Value(std::move(O)); }
    Object O;
    O["l"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block"; Array A;
      for (auto *Y : X->body()) A.push_back(st(Y));
      O["s"] = std::move(A); O["end"] = loc(X->getRBracLoc());
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl"; Array A;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      O["v"] = std::move(A);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (X->getInit()) O["init"] = st(X->getInit());
      if (X->getConditionVariable()) O["cvar"] = var(X->getConditionVariable());
      O["c"] = ex(X->getCond());
      if (X->isConstexpr()) {
        O["cx"] = true;
        if (!X->getCond()->isInstantiationDependent()) {
          auto N = X->getNondiscardedCase(C);
          if (N) { if (*N == nullptr) { O["c"] = Value(Object{{"k","lit"},{"v",false}}); }
                   else if (*N == X->getThen()) O["c"] = Value(Object{{"k","lit"},{"v",true}});
                   else O["c"] = Value(Object{{"k","lit"},{"v",false}}); }
        }
      }
      O["a"] = st(X->getThen()); O["b"] = X->getElse() ? st(X->getElse()) : Value(nullptr);
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for"; O["init"] = st(X->getInit()); O["c"] = ex(X->getCond());
      O["inc"] = ex(X->getInc()); O["s"] = st(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rfor"; O["r"] = ex(X->getRangeInit()); O["v"] = var(X->getLoopVariable()); O["s"] = st(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      if (X->getConditionVariable()) O["cvar"] = var(X->getConditionVariable());
      O["c"] = ex(X->getCond()); O["s"] = st(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "do"; O["c"] = ex(X->getCond()); O["s"] = st(X->getBody());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      if (X->getInit()) O["init"] = st(X->getInit());
      O["c"] = ex(X->getCond()); O["s"] = st(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case"; O["v"] = ex(X->getLHS()); if (X->getRHS()) O["v2"] = ex(X->getRHS()); O["s"] = st(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default"; O["s"] = st(X->getSubStmt());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "ret"; O["e"] = ex(X->getRetValue());
    } else if (isa<BreakStmt>(S)) O["k"] = "break";
    else if (isa<ContinueStmt>(S)) O["k"] = "cont";
    else if (isa<NullStmt>(S)) O["k"] = "null";
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try"; O["s"] = st(X->getTryBlock()); Array H;
      for (unsigned I = 0; I < X->getNumHandlers(); I++) {
        auto *Hn = X->getHandler(I); Object Q;
        if (Hn->getExceptionDecl()) Q["v"] = var(Hn->getExceptionDecl());
        if (!Hn->getCaughtType().isNull()) {
          QualType T = Hn->getCaughtType().getNonReferenceType().getUnqualifiedType();
          Q["t"] = ty(T);
          if (auto *RD = T->getAsCXXRecordDecl()) record(RD);
        }
        Q["s"] = st(Hn->getHandlerBlock()); Q["l"] = loc(Hn->getCatchLoc());
        H.push_back(std::move(Q));
      }
      O["h"] = std::move(H);
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) { return st(X->getSubStmt()); }
    else if (auto *X = dyn_cast<LabelStmt>(S)) { O["k"] = "label"; O["n"] = X->getName(); O["s"] = st(X->getSubStmt()); }
    else if (auto *X = dyn_cast<GotoStmt>(S)) { O["k"] = "goto"; O["n"] = safe(X->getLabel()->getNameAsString()); }
    else { O["k"] = "otherst"; O["cls"] = S->getStmtClassName(); Array A;
      for (auto *Y : S->children()) A.push_back(st(Y)); O["a"] = std::move(A); }
    return Value(std::move(O));
  }

  // ---- declarations ------------------------------------------------------
  std::set<const VarDecl *> GDone;
  void global(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (GDone.count(V)) return;
    GDone.insert(V);
    const VarDecl *Def = V->getDefinition();
    if (!Def) Def = V;
    auto W = where(Def->getLocation());
    if (!inRoots(W.first) && !inRoots(ewhere(Def->getLocation()).first)) return;
    if (Def->getType()->isDependentType()) return;
    Object O;
    O["n"] = qn(Def); O["t"] = ty(Def->getType()); O["l"] = loc(Def->getLocation());
    const VarDecl *ID = nullptr;
    if (const Expr *I = Def->getAnyInitializer(ID); I && !I->isInstantiationDependent()) O["i"] = ex(I);
    O["const"] = Def->getType().isConstQualified();
    Globals[id(V)] = std::move(O);
  }
  void record(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isDependentType() || RecDone.count(R)) return;
    RecDone.insert(R);
    Object O;
    O["n"] = qn(R); O["l"] = loc(R->getLocation());
    Array B;
    for (auto &X : R->bases()) {
      B.push_back(ty(X.getType()));
      if (auto *RD = X.getType()->getAsCXXRecordDecl()) record(RD);
    }
    O["bases"] = std::move(B);
    auto W = where(R->getLocation());
    if (inRoots(W.first)) {
      Array F;
      for (auto *X : R->fields()) {
        Object Q{{"n", safe(X->getNameAsString())}, {"t", ty(X->getType())}, {"l", loc(X->getLocation())}};
        if (X->hasInClassInitializer() && X->getInClassInitializer() && !X->getInClassInitializer()->isInstantiationDependent())
          Q["i"] = ex(X->getInClassInitializer());
        if (X->getType().isConstQualified()) Q["const"] = true;
        if (X->getType()->isScalarType()) Q["scalar"] = true;
        F.push_back(std::move(Q));
      }
      O["fields"] = std::move(F);
      Array M;
      for (auto *X : R->methods()) {
        Object Q{{"n", safe(X->getNameAsString())}, {"fid", id(X)}};
        if (X->isVirtual()) Q["virt"] = true;
        if (X->isPureVirtual()) Q["pure"] = true;
        if (X->isDeleted()) Q["deleted"] = true;
        if (X->isImplicit()) Q["implicit"] = true;
        if (isa<CXXDestructorDecl>(X)) Q["dtor"] = true;
        if (auto *CD = dyn_cast<CXXConstructorDecl>(X)) { Q["ctor"] = true; if (CD->isCopyConstructor()) Q["copyctor"] = true; }
        if (X->isCopyAssignmentOperator()) Q["copyasg"] = true;
        Q["access"] = (int)X->getAccess();
        Array Ov;
        for (auto *Z : X->overridden_methods()) Ov.push_back(id(Z));
        if (!Ov.empty()) Q["over"] = std::move(Ov);
        M.push_back(std::move(Q));
      }
      O["methods"] = std::move(M);
    }
    Records[ty(C.getTypeDeclType(R))] = std::move(O);
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentType() &&
        (inRoots(where(R->getLocation()).first) || inRoots(ewhere(R->getLocation()).first))) record(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentType()) return true;
    if (!inRoots(where(E->getLocation()).first) && !inRoots(ewhere(E->getLocation()).first)) return true;
    Array A;
    for (auto *X : E->enumerators())
      A.push_back(Object{{"n", safe(X->getNameAsString())}, {"v", num(X->getInitVal())}});
    Enums[qn(E)] = Object{{"l", loc(E->getLocation())}, {"e", std::move(A)}, {"scoped", E->isScoped()}};
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && !isa<ParmVarDecl>(V) && !V->isInvalidDecl() &&
        !V->getDeclContext()->isDependentContext())
      global(V);
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && F->hasBody()) emit(F);
    return true;
  }
  void emit(const FunctionDecl *F) {
    if (Done.count(F)) return;
    if (F->isDependentContext() || F->isInvalidDecl()) return;
    auto W = where(F->getLocation());
    auto E = ewhere(F->getLocation());
    if (!inRoots(W.first) && !inRoots(E.first)) return;
    if (!F->getBody()) return;
    Done.insert(F);
    Object O;
    O["n"] = qn(F); O["full"] = qnT(F); O["short"] = safe(F->getNameAsString());
    O["l"] = loc(F->getLocation());
    O["bl"] = loc(F->getBody()->getBeginLoc());
    O["ret"] = ty(F->getReturnType());
    if (F->isImplicit()) O["implicit"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    if (F->isNoReturn()) O["noret"] = true;
    if (F->getTemplateInstantiationPattern()) O["inst"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &X : TA->asArray()) {
        std::string S; llvm::raw_string_ostream OS(S); X.print(PP, OS, true); A.push_back(safe(OS.str()));
      }
      O["ta"] = std::move(A);
    }
    Array P;
    for (auto *X : F->parameters()) {
      Object Q{{"id", id(X)}, {"n", safe(X->getNameAsString())}, {"t", ty(X->getType())}};
      if (X->getType()->isReferenceType()) Q["ref"] = true;
      P.push_back(std::move(Q));
    }
    O["p"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["rec"] = ty(C.getTypeDeclType(M->getParent()));
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["const"] = true;
      record(M->getParent());
      if (M->getParent()->isLambda()) O["lambda"] = true;
      Array Ov;
      for (auto *Z : M->overridden_methods()) Ov.push_back(id(Z));
      if (!Ov.empty()) O["over"] = std::move(Ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      Array I;
      for (auto *X : K->inits()) {
        Object Q;
        if (X->isMemberInitializer() || X->isIndirectMemberInitializer()) Q["f"] = safe(X->getAnyMember()->getNameAsString());
        else if (X->isBaseInitializer()) Q["b"] = ty(QualType(X->getBaseClass(), 0));
        else if (X->isDelegatingInitializer()) Q["d"] = true;
        Q["e"] = ex(X->getInit()); Q["w"] = X->isWritten();
        I.push_back(std::move(Q));
      }
      O["init"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["body"] = st(F->getBody());
    Funcs[id(F)] = std::move(O);
  }
  void drain() {
    while (!Pending.empty()) {
      auto *F = Pending.back();
      Pending.pop_back();
      emit(F);
    }
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Ex V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
    V.drain();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    Object Root;
    Root["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    Root["files"] = std::move(V.Files);
    Root["funcs"] = std::move(V.Funcs);
    Root["records"] = std::move(V.Records);
    Root["enums"] = std::move(V.Enums);
    Root["globals"] = std::move(V.Globals);
    OS << Value(std::move(Root));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

// extract OUT ROOT[:ROOT...] SOURCE -- FLAGS...
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  OutPath = argv[1];
  std::string R = argv[2];
  for (size_t P = 0; P <= R.size();) {
    size_t Q = R.find(':', P);
    if (Q == std::string::npos) Q = R.size();
    Roots.push_back(R.substr(P, Q - P));
    P = Q + 1;
  }
  std::string Src = argv[3];
  std::vector<std::string> Args;
  for (int I = 5; I < argc; I++) Args.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool T(DB, {Src});
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-resource-dir=/usr/lib/llvm-18/lib/clang/18", tooling::ArgumentInsertPosition::END));
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
