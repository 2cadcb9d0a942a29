// oml-extract: dumps the type-checked bodies of every function defined under a source root
// (template instantiations included) as JSON. Built on clang's libTooling; nothing is executed.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace js = llvm::json;
using js::Value; using js::Object; using js::Array;

static std::string SrcRoot, OutPath;

struct DiagCollector : DiagnosticConsumer {
  Array errs; unsigned nerr = 0;
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
    DiagnosticConsumer::HandleDiagnostic(L, I);
    if (L < DiagnosticsEngine::Error) return;
    ++nerr;
    llvm::SmallString<256> s; I.FormatDiagnostic(s);
    std::string loc;
    if (I.hasSourceManager() && I.getLocation().isValid())
      loc = I.getLocation().printToString(I.getSourceManager());
    if (errs.size() < 50) errs.push_back(Object{{"msg", s.str().str()}, {"loc", loc}});
  }
};
static DiagCollector *TheDiags;

class Dumper {
public:
  ASTContext &C; SourceManager &SM;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) { PP.SuppressTagKeyword = true; }
  PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  std::map<std::string, int> fileIdx; Array files;
  std::map<const void*, int> typeIdx; Array types; std::vector<Object> typeObjs;
  std::map<const FunctionDecl*, int> fnIdx; std::vector<const FunctionDecl*> fnQueue;
  std::map<const CXXRecordDecl*, int> clsIdx; std::vector<const CXXRecordDecl*> clsQueue;

  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[D] = n; return n; }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> real;
    if (!llvm::sys::fs::real_path(P.getFilename(), real)) return real.str().str();
    return P.getFilename();
  }
  std::map<FileID, std::string> fcache;
  std::string file(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L); FileID F = SM.getFileID(L);
    auto it = fcache.find(F); if (it != fcache.end()) return it->second;
    return fcache[F] = fileOf(L);
  }
  bool inSrc(SourceLocation L) { std::string f = file(L); return f.compare(0, SrcRoot.size(), SrcRoot) == 0; }
  int line(SourceLocation L) { if (L.isInvalid()) return 0; return SM.getExpansionLineNumber(L); }

  std::string qname(const NamedDecl *D) {
    std::string n;
    if (D->getDeclName().isIdentifier()) n = D->getName().str(); else n = D->getNameAsString();
    // constructors/destructors print template args; use the class name
    if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) n = CD->getParent()->getName().str();
    if (auto *DD = dyn_cast<CXXDestructorDecl>(D)) n = "~" + DD->getParent()->getName().str();
    if (isa<CXXConversionDecl>(D)) n = "operator-conv";
    if (n.empty()) n = "(anon)";
    const DeclContext *DC = D->getDeclContext();
    while (DC) {
      if (auto *ND = dyn_cast<NamespaceDecl>(DC)) { if (!ND->isInline() && !ND->isAnonymousNamespace()) n = ND->getName().str() + "::" + n; }
      else if (auto *RD = dyn_cast<RecordDecl>(DC)) { std::string r = RD->getName().str(); if (r.empty()) r = "(anon)"; n = r + "::" + n; }
      else if (auto *FD = dyn_cast<FunctionDecl>(DC)) { (void)FD; n = "(local)::" + n; break; }
      DC = DC->getParent();
    }
    return n;
  }

  static int64_t enumConst(const CXXRecordDecl *RD, StringRef name, bool &ok) {
    for (auto *D : RD->decls())
      if (auto *E = dyn_cast<EnumDecl>(D))
        for (auto *EC : E->enumerators())
          if (EC->getName() == name) { ok = true; return EC->getInitVal().getExtValue(); }
    return 0;
  }
  const CXXRecordDecl *findBase(const CXXRecordDecl *RD, StringRef name, int depth = 0) {
    if (!RD || depth > 12) return nullptr;
    if (RD->getName() == name && isa<ClassTemplateSpecializationDecl>(RD)) return RD;
    if (!RD->hasDefinition()) return nullptr;
    RD = RD->getDefinition();
    for (auto &B : RD->bases())
      if (auto *BD = B.getType()->getAsCXXRecordDecl())
        if (auto *R = findBase(BD, name, depth + 1)) return R;
    return nullptr;
  }

  int T(QualType Q) {
    if (Q.isNull()) return -1;
    Q = Q.getCanonicalType();
    void *key = Q.getAsOpaquePtr();
    auto it = typeIdx.find(key);
    if (it != typeIdx.end()) return it->second;
    int me = typeObjs.size(); typeIdx[key] = me; typeObjs.emplace_back();
    Object o = mkType(Q);
    if (Q.isConstQualified()) o["const"] = true;
    typeObjs[me] = std::move(o);
    return me;
  }
  Object mkType(QualType Q) {
    Object o; const Type *Ty = Q.getTypePtr();
    if (auto *R = Ty->getAs<ReferenceType>()) { o["c"] = "ref"; o["to"] = T(R->getPointeeType()); o["cref"] = R->getPointeeType().isConstQualified(); o["rv"] = Ty->isRValueReferenceType(); return o; }
    if (auto *P = Ty->getAs<PointerType>()) { o["c"] = "ptr"; o["to"] = T(P->getPointeeType()); return o; }
    if (Ty->isBooleanType()) { o["c"] = "bool"; return o; }
    if (Ty->isVoidType()) { o["c"] = "void"; return o; }
    if (Ty->isEnumeralType()) { o["c"] = "enum"; o["q"] = qname(Ty->castAs<EnumType>()->getDecl()); return o; }
    if (Ty->isIntegerType()) { o["c"] = "int"; o["bits"] = (int64_t)C.getTypeSize(Q); o["sg"] = Ty->isSignedIntegerType(); return o; }
    if (Ty->isRealFloatingType()) { o["c"] = "float"; o["bits"] = (int64_t)C.getTypeSize(Q); return o; }
    if (auto *RD = Ty->getAsCXXRecordDecl()) {
      const CXXRecordDecl *DB = nullptr;
      if (RD->hasDefinition() || isa<ClassTemplateSpecializationDecl>(RD)) DB = findBase(RD, "DenseBase");
      if (DB) {
        bool ok1 = false, ok2 = false;
        int64_t r = enumConst(DB->getDefinition() ? DB->getDefinition() : DB, "RowsAtCompileTime", ok1);
        int64_t c = enumConst(DB->getDefinition() ? DB->getDefinition() : DB, "ColsAtCompileTime", ok2);
        o["c"] = "eig"; o["n"] = RD->getName().str();
        if (ok1) o["r"] = r; if (ok2) o["cc"] = c;
        o["arr"] = findBase(RD, "ArrayBase") != nullptr;
        o["plain"] = (RD->getName() == "Matrix" || RD->getName() == "Array");
        for (auto *D : (DB->getDefinition() ? DB->getDefinition() : DB)->decls())
          if (auto *TD = dyn_cast<TypedefNameDecl>(D)) if (TD->getName() == "Scalar") o["sc"] = T(TD->getUnderlyingType());
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) if (RD->getName() == "Block" || RD->getName() == "Ref" || RD->getName() == "Map" || RD->getName()=="VectorBlock" || RD->getName()=="Transpose" || RD->getName()=="ArrayWrapper" || RD->getName()=="Reshaped" || RD->getName()=="IndexedView" || RD->getName()=="Diagonal" || RD->getName()=="Replicate") {
          if (S->getTemplateArgs().size() && S->getTemplateArgs()[0].getKind() == TemplateArgument::Type) { o["vc"] = S->getTemplateArgs()[0].getAsType().isConstQualified(); o["inner"] = T(S->getTemplateArgs()[0].getAsType()); }
        }
        return o;
      }
      o["c"] = "rec"; o["q"] = qname(RD);
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array ta; for (auto &A : S->getTemplateArgs().asArray()) ta.push_back(targ(A, 0)); o["ta"] = std::move(ta);
      }
      if (inSrc(RD->getLocation()) || RD->isLambda()) o["cls"] = cls(RD);
      else if (RD->getLocation().isValid() && SM.isInMainFile(SM.getExpansionLoc(RD->getLocation()))) o["cls"] = cls(RD);
      return o;
    }
    if (auto *AT = C.getAsArrayType(Q)) { o["c"] = "array"; o["to"] = T(AT->getElementType()); return o; }
    o["c"] = "other"; std::string s = Q.getAsString(PP); if (s.size() > 200) s.resize(200); o["s"] = s; return o;
  }
  Value targ(const TemplateArgument &A, int d) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return Object{{"T", T(A.getAsType())}};
    case TemplateArgument::Integral: return Object{{"I", A.getAsIntegral().getExtValue()}};
    case TemplateArgument::Pack: { Array a; for (auto &x : A.pack_elements()) a.push_back(targ(x, d + 1)); return Object{{"P", std::move(a)}}; }
    default: return Object{{"O", 1}};
    }
  }
  int cls(const CXXRecordDecl *RD) {
    RD = RD->getCanonicalDecl();
    auto it = clsIdx.find(RD); if (it != clsIdx.end()) return it->second;
    int n = clsQueue.size(); clsIdx[RD] = n; clsQueue.push_back(RD); return n;
  }
  const FunctionDecl *defOf(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) return D;
    if (auto *P = F->getTemplateInstantiationPattern()) (void)P;
    return nullptr;
  }
  int fn(const FunctionDecl *F) {
    const FunctionDecl *K = F->getCanonicalDecl();
    auto it = fnIdx.find(K); if (it != fnIdx.end()) return it->second;
    int n = fnQueue.size(); fnIdx[K] = n; fnQueue.push_back(K); return n;
  }
  bool ours(const FunctionDecl *F) {
    if (inSrc(F->getLocation())) return true;
    return F->getLocation().isValid() && SM.isInMainFile(SM.getExpansionLoc(F->getLocation()));
  }

  Object fref(const FunctionDecl *F) {
    Object o; o["q"] = qname(F);
    if (ours(F)) o["id"] = fn(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) { Array ta; for (auto &A : TA->asArray()) ta.push_back(targ(A, 0)); o["ta"] = std::move(ta); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isStatic()) o["st"] = true;
      if (M->isConst()) o["cm"] = true;
      if (M->isVirtual()) o["virt"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) { if (CD->isCopyOrMoveConstructor()) o["cp"] = true; if (CD->isDefaultConstructor()) o["def"] = true; if (CD->isImplicit() || CD->isDefaulted()) o["impl"] = true; }
    // parameter reference kinds (to know what a foreign callee may write)
    Array ps; for (auto *P : F->parameters()) { QualType t = P->getType(); std::string k = "v"; if (t->isReferenceType()) k = t->getPointeeType().isConstQualified() ? "c" : (t->isRValueReferenceType() ? "m" : "r"); else if (t->isPointerType()) k = t->getPointeeType().isConstQualified() ? "pc" : "p"; ps.push_back(k); }
    o["ps"] = std::move(ps);
    return o;
  }

  static const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<FullExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else break;
    }
    return E;
  }
  std::string fstr(const llvm::APFloat &f) { llvm::SmallString<32> s; f.toString(s, 17, 0); return s.str().str(); }

  Value E(const Expr *X) {
    if (!X) return nullptr;
    X = strip(X);
    Object o; o["l"] = line(X->getBeginLoc());
    o["t"] = T(X->getType());
    if (X->isGLValue()) o["lv"] = X->isLValue() ? 1 : 2;
    if (auto *CE = dyn_cast<CastExpr>(X)) {
      CastKind K = CE->getCastKind();
      switch (K) {
      case CK_NoOp: case CK_LValueToRValue: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
      case CK_UserDefinedConversion: case CK_ConstructorConversion:
      case CK_ToVoid: case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic:
        return E(CE->getSubExpr());
      case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_BaseToDerived:
        return E(CE->getSubExpr());
      case CK_NullToPointer: o["k"] = "null"; return o;
      case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast:
      case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: {
        o["k"] = "cast"; o["ck"] = CE->getCastKindName(); o["impl"] = isa<ImplicitCastExpr>(CE); o["e"] = E(CE->getSubExpr()); return o; }
      default: o["k"] = "cast"; o["ck"] = CE->getCastKindName(); o["e"] = E(CE->getSubExpr()); return o;
      }
    }
    if (auto *L = dyn_cast<IntegerLiteral>(X)) { o["k"] = "int"; llvm::SmallString<40> s; L->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return o; }
    if (auto *L = dyn_cast<FloatingLiteral>(X)) { o["k"] = "flt"; o["v"] = fstr(L->getValue()); 
      // source spelling gives the exact decimal
      SourceLocation B = SM.getSpellingLoc(L->getBeginLoc()); bool inv = false; 
      StringRef buf = Lexer::getSourceText(CharSourceRange::getTokenRange(B, B), SM, C.getLangOpts(), &inv); if (!inv) o["src"] = buf.str();
      return o; }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(X)) { o["k"] = "bool"; o["v"] = L->getValue(); return o; }
    if (auto *L = dyn_cast<StringLiteral>(X)) { o["k"] = "str"; if (L->isOrdinary() || L->isUTF8()) { std::string s = L->getString().str(); if (!js::isUTF8(s)) s = js::fixUTF8(s); o["v"] = s; } return o; }
    if (auto *L = dyn_cast<CharacterLiteral>(X)) { o["k"] = "int"; o["v"] = std::to_string(L->getValue()); return o; }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) { o["k"] = "null"; return o; }
    if (auto *D = dyn_cast<DeclRefExpr>(X)) {
      const ValueDecl *V = D->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) { o["k"] = "int"; o["v"] = std::to_string(EC->getInitVal().getExtValue()); o["en"] = EC->getNameAsString(); return o; }
      if (auto *F = dyn_cast<FunctionDecl>(V)) { o["k"] = "fref"; o["fn"] = fref(F); return o; }
      if (auto *B = dyn_cast<BindingDecl>(V)) { o["k"] = "var"; o["id"] = id(B); o["n"] = B->getNameAsString(); return o; }
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
          o["k"] = "gvar"; o["q"] = qname(VD); o["id"] = id(VD);
          Expr::EvalResult R;
          if (!X->isValueDependent() && X->getType()->isIntegralOrEnumerationType() && X->EvaluateAsInt(R, C)) o["v"] = std::to_string(R.Val.getInt().getExtValue());
          else if (VD->getType().isConstQualified() && VD->getType()->isRealFloatingType()) { llvm::APFloat f(0.0); if (X->EvaluateAsFloat(f, C)) o["fv"] = fstr(f); }
          return o;
        }
        o["k"] = "var"; o["id"] = id(VD); o["n"] = VD->getNameAsString(); if (VD->isStaticLocal()) o["slocal"] = true; return o;
      }
      o["k"] = "unk"; o["cls"] = "DeclRef"; return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(X)) {
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) { o["k"] = "mem"; o["b"] = E(M->getBase()); o["f"] = F->getNameAsString(); o["ar"] = M->isArrow(); return o; }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) { o["k"] = "gvar"; o["q"] = qname(V); o["id"] = id(V); Expr::EvalResult R; if (X->getType()->isIntegralOrEnumerationType() && X->EvaluateAsInt(R, C)) o["v"] = std::to_string(R.Val.getInt().getExtValue()); return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) { o["k"] = "int"; o["v"] = std::to_string(EC->getInitVal().getExtValue()); return o; }
      o["k"] = "unk"; o["cls"] = "Member"; return o;
    }
    if (isa<CXXThisExpr>(X)) { o["k"] = "this"; return o; }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
      o["k"] = "mcall"; o["obj"] = E(MC->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) { o["ar"] = ME->isArrow(); if (ME->hasQualifier()) o["qual"] = true; }
      if (auto *F = MC->getMethodDecl()) { o["fn"] = fref(F); if (isa<CXXConversionDecl>(F)) o["conv"] = true; }
      Array a; for (auto *A : MC->arguments()) a.push_back(E(A)); o["a"] = std::move(a); return o;
    }
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
      o["k"] = "opcall"; o["op"] = getOperatorSpelling(OC->getOperator());
      if (auto *F = OC->getDirectCallee()) { o["fn"] = fref(F); o["memop"] = isa<CXXMethodDecl>(F); }
      Array a; for (auto *A : OC->arguments()) a.push_back(E(A)); o["a"] = std::move(a); return o;
    }
    if (auto *CE = dyn_cast<CallExpr>(X)) {
      o["k"] = "call";
      if (auto *F = CE->getDirectCallee()) o["fn"] = fref(F); else o["callee"] = E(CE->getCallee());
      Array a; for (auto *A : CE->arguments()) a.push_back(E(A)); o["a"] = std::move(a); return o;
    }
    if (auto *CC = dyn_cast<CXXConstructExpr>(X)) {
      o["k"] = "ctor"; o["fn"] = fref(CC->getConstructor());
      if (CC->isElidable()) o["el"] = true; if (CC->isListInitialization()) o["li"] = true; if (CC->isStdInitListInitialization()) o["il"] = true;
      Array a; for (auto *A : CC->arguments()) a.push_back(E(A)); o["a"] = std::move(a); return o;
    }
    if (auto *I = dyn_cast<InitListExpr>(X)) {
      if (I->isSyntacticForm() && I->getSemanticForm()) I = I->getSemanticForm();
      o["k"] = "ilist"; Array a; for (auto *A : I->inits()) a.push_back(E(A)); o["a"] = std::move(a); return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(X)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); o["post"] = U->isPostfix(); o["e"] = E(U->getSubExpr()); return o; }
    if (auto *B = dyn_cast<CompoundAssignOperator>(X)) { o["k"] = "casg"; std::string s = B->getOpcodeStr().str(); s.pop_back(); o["op"] = s; o["ct"] = T(B->getComputationResultType()); o["lt"] = T(B->getComputationLHSType()); o["a"] = E(B->getLHS()); o["b"] = E(B->getRHS()); return o; }
    if (auto *B = dyn_cast<BinaryOperator>(X)) { o["k"] = B->getOpcode() == BO_Assign ? "asg" : "bin"; o["op"] = B->getOpcodeStr().str(); o["a"] = E(B->getLHS()); o["b"] = E(B->getRHS()); return o; }
    if (auto *Q = dyn_cast<ConditionalOperator>(X)) { o["k"] = "cond"; o["c"] = E(Q->getCond()); o["a"] = E(Q->getTrueExpr()); o["b"] = E(Q->getFalseExpr()); return o; }
    if (auto *S = dyn_cast<ArraySubscriptExpr>(X)) { o["k"] = "idx"; o["a"] = E(S->getBase()); o["b"] = E(S->getIdx()); return o; }
    if (auto *D = dyn_cast<CXXDefaultArgExpr>(X)) { Value v = E(D->getExpr()); if (auto *vo = v.getAsObject()) (*vo)["defarg"] = true; return v; }
    if (auto *D = dyn_cast<CXXDefaultInitExpr>(X)) return E(D->getExpr());
    if (isa<CXXScalarValueInitExpr>(X) || isa<ImplicitValueInitExpr>(X)) { o["k"] = "zero"; return o; }
    if (auto *Th = dyn_cast<CXXThrowExpr>(X)) { o["k"] = "throw"; if (Th->getSubExpr()) o["e"] = E(Th->getSubExpr()); return o; }
    if (auto *La = dyn_cast<LambdaExpr>(X)) return lambda(La, std::move(o));
    if (auto *SZ = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) { Expr::EvalResult R; if (X->EvaluateAsInt(R, C)) { o["k"] = "int"; o["v"] = std::to_string(R.Val.getInt().getExtValue()); return o; } (void)SZ; }
    if (auto *N = dyn_cast<CXXNewExpr>(X)) { o["k"] = "new"; if (N->getInitializer()) o["e"] = E(N->getInitializer()); return o; }
    if (auto *N = dyn_cast<CXXDeleteExpr>(X)) { o["k"] = "delete"; o["e"] = E(N->getArgument()); return o; }
    if (auto *OV = dyn_cast<OpaqueValueExpr>(X)) return E(OV->getSourceExpr());
    if (isa<RecoveryExpr>(X)) { o["k"] = "err"; Array a; for (auto *S : X->children()) if (S) if (auto *SE = dyn_cast<Expr>(S)) a.push_back(E(SE)); o["a"] = std::move(a); return o; }
    { Expr::EvalResult R; if (!X->isValueDependent() && X->getType()->isIntegralOrEnumerationType() && X->EvaluateAsInt(R, C)) { o["k"] = "int"; o["v"] = std::to_string(R.Val.getInt().getExtValue()); return o; } }
    o["k"] = "unk"; o["cls"] = X->getStmtClassName();
    Array a; for (auto *S : X->children()) if (S) if (auto *SE = dyn_cast<Expr>(S)) a.push_back(E(SE)); o["a"] = std::move(a);
    return o;
  }

  Value lambda(const LambdaExpr *La, Object o) {
    o["k"] = "lambda";
    Array caps;
    auto ci = La->capture_init_begin();
    for (auto &c : La->captures()) {
      Object k; 
      if (c.capturesThis()) { k["this"] = true; k["ref"] = c.getCaptureKind() == LCK_This; }
      else if (c.capturesVariable()) { k["id"] = id(c.getCapturedVar()); k["n"] = c.getCapturedVar()->getNameAsString(); k["ref"] = c.getCaptureKind() == LCK_ByRef; if (auto *VD = dyn_cast<VarDecl>(c.getCapturedVar())) if (VD->isInitCapture()) k["init"] = E(VD->getInit()); }
      if (ci != La->capture_init_end()) ++ci;
      caps.push_back(std::move(k));
    }
    o["caps"] = std::move(caps);
    const CXXMethodDecl *Op = La->getCallOperator();
    if (La->isGenericLambda()) {
      if (auto *FT = La->getCallOperator()->getDescribedFunctionTemplate()) {
        Array specs;
        for (auto *S : FT->specializations()) { const FunctionDecl *D = defOf(S); if (D) specs.push_back(callable(D)); }
        if (!specs.empty()) { o["specs"] = std::move(specs); return o; }
      }
      o["generic_unresolved"] = true; return o;
    }
    Object c = callable(Op); for (auto &kv : c) o[kv.first] = std::move(kv.second);
    return o;
  }
  Object callable(const FunctionDecl *D) {
    Object c; Array ps; for (auto *P : D->parameters()) ps.push_back(param(P)); c["ps"] = std::move(ps);
    c["ret"] = T(D->getReturnType()); c["body"] = S(D->getBody()); return c;
  }
  Object param(const ParmVarDecl *P) {
    Object p; p["id"] = id(P); p["n"] = P->getNameAsString(); p["t"] = T(P->getType()); p["l"] = line(P->getLocation());
    if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) p["def"] = E(P->getDefaultArg());
    else if (P->hasDefaultArg()) p["hasdef"] = true;
    return p;
  }
  Value var(const VarDecl *V) {
    Object v; v["id"] = id(V); v["n"] = V->getNameAsString(); v["t"] = T(V->getType()); v["l"] = line(V->getLocation());
    if (V->getInit()) v["init"] = E(V->getInit());
    if (V->isStaticLocal()) v["static"] = true;
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array bs; for (auto *B : DD->bindings()) { Object b; b["id"] = id(B); b["n"] = B->getNameAsString(); b["t"] = T(B->getType());
        if (auto *HV = B->getHoldingVar()) b["hold"] = E(HV->getInit()); else if (B->getBinding()) b["e"] = E(B->getBinding()); bs.push_back(std::move(b)); }
      v["bind"] = std::move(bs);
    }
    return v;
  }

  Value S(const Stmt *X) {
    if (!X) return nullptr;
    Object o; o["l"] = line(X->getBeginLoc());
    if (auto *Cs = dyn_cast<CompoundStmt>(X)) { o["k"] = "blk"; Array a; for (auto *s : Cs->body()) a.push_back(S(s)); o["b"] = std::move(a); o["el"] = line(Cs->getEndLoc()); return o; }
    if (auto *D = dyn_cast<DeclStmt>(X)) { o["k"] = "decl"; Array a; for (auto *d : D->decls()) { if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(var(V)); } o["v"] = std::move(a); return o; }
    if (auto *I = dyn_cast<IfStmt>(X)) { o["k"] = "if"; if (I->getInit()) o["init"] = S(I->getInit()); if (I->getConditionVariable()) o["cv"] = var(I->getConditionVariable()); o["c"] = E(I->getCond()); o["a"] = S(I->getThen()); if (I->getElse()) o["b"] = S(I->getElse()); if (I->isConstexpr()) { o["cx"] = true; } return o; }
    if (auto *F = dyn_cast<ForStmt>(X)) { o["k"] = "for"; if (F->getInit()) o["init"] = S(F->getInit()); if (F->getCond()) o["c"] = E(F->getCond()); if (F->getInc()) o["inc"] = E(F->getInc()); o["body"] = S(F->getBody()); return o; }
    if (auto *W = dyn_cast<WhileStmt>(X)) { o["k"] = "while"; if (W->getConditionVariable()) o["cv"] = var(W->getConditionVariable()); o["c"] = E(W->getCond()); o["body"] = S(W->getBody()); return o; }
    if (auto *W = dyn_cast<DoStmt>(X)) { o["k"] = "do"; o["c"] = E(W->getCond()); o["body"] = S(W->getBody()); return o; }
    if (auto *R = dyn_cast<CXXForRangeStmt>(X)) { o["k"] = "rfor"; if (R->getInit()) o["init"] = S(R->getInit()); o["var"] = var(R->getLoopVariable()); o["range"] = E(R->getRangeInit()); o["body"] = S(R->getBody()); return o; }
    if (auto *R = dyn_cast<ReturnStmt>(X)) { o["k"] = "ret"; if (R->getRetValue()) o["e"] = E(R->getRetValue()); return o; }
    if (isa<BreakStmt>(X)) { o["k"] = "brk"; return o; }
    if (isa<ContinueStmt>(X)) { o["k"] = "cont"; return o; }
    if (isa<NullStmt>(X)) { o["k"] = "nop"; return o; }
    if (auto *Sw = dyn_cast<SwitchStmt>(X)) { o["k"] = "switch"; if (Sw->getInit()) o["init"] = S(Sw->getInit()); o["c"] = E(Sw->getCond()); o["body"] = S(Sw->getBody()); return o; }
    if (auto *Ca = dyn_cast<CaseStmt>(X)) { o["k"] = "case"; o["v"] = E(Ca->getLHS()); o["s"] = S(Ca->getSubStmt()); return o; }
    if (auto *Df = dyn_cast<DefaultStmt>(X)) { o["k"] = "default"; o["s"] = S(Df->getSubStmt()); return o; }
    if (auto *Tr = dyn_cast<CXXTryStmt>(X)) { o["k"] = "try"; o["body"] = S(Tr->getTryBlock()); Array a; for (unsigned i = 0; i < Tr->getNumHandlers(); ++i) { Object h; auto *H = Tr->getHandler(i); if (H->getExceptionDecl()) h["var"] = var(H->getExceptionDecl()); h["body"] = S(H->getHandlerBlock()); a.push_back(std::move(h)); } o["h"] = std::move(a); return o; }
    if (auto *A = dyn_cast<AttributedStmt>(X)) return S(A->getSubStmt());
    if (auto *Ex = dyn_cast<Expr>(X)) { o["k"] = "expr"; o["e"] = E(Ex); return o; }
    o["k"] = "unks"; o["cls"] = X->getStmtClassName(); return o;
  }

  Object function(const FunctionDecl *K, int idx) {
    Object o; o["idx"] = idx; o["q"] = qname(K);
    const FunctionDecl *D = defOf(K); const FunctionDecl *F = D ? D : K;
    std::string f = file(F->getLocation());
    if (f.compare(0, SrcRoot.size(), SrcRoot) == 0) f = f.substr(SrcRoot.size() + 1);
    o["file"] = f; o["line"] = line(F->getLocation()); o["insrc"] = inSrc(F->getLocation());
    o["endline"] = line(F->getEndLoc());
    Array ps; for (auto *P : F->parameters()) ps.push_back(param(P)); o["ps"] = std::move(ps);
    o["ret"] = T(F->getReturnType());
    if (auto *TA = F->getTemplateSpecializationArgs()) { Array ta; for (auto &A : TA->asArray()) ta.push_back(targ(A, 0)); o["ta"] = std::move(ta); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = cls(M->getParent()); if (M->isVirtual()) o["virt"] = true; if (M->isPureVirtual()) o["pure"] = true; if (M->isStatic()) o["st"] = true; if (M->isConst()) o["cm"] = true;
      const char *acc = M->getAccess() == AS_public ? "pub" : M->getAccess() == AS_protected ? "prot" : "priv"; o["acc"] = acc; }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true; if (CD->isImplicit()) o["impl"] = true; if (CD->isCopyOrMoveConstructor()) o["cp"] = true;
      Array is; for (auto *I : CD->inits()) { Object i; i["w"] = I->isWritten(); i["l"] = line(I->getSourceLocation());
        if (I->isAnyMemberInitializer()) { i["f"] = I->getAnyMember()->getNameAsString(); } else if (I->isBaseInitializer()) { i["base"] = T(QualType(I->getBaseClass(), 0)); } else if (I->isDelegatingInitializer()) i["deleg"] = true;
        i["e"] = E(I->getInit()); is.push_back(std::move(i)); }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (D) o["body"] = S(D->getBody());
    return o;
  }
  Object classInfo(const CXXRecordDecl *K, int idx) {
    Object o; o["idx"] = idx; o["q"] = qname(K);
    const CXXRecordDecl *D = K->getDefinition();
    o["file"] = file(K->getLocation()).substr(0, 400); o["line"] = line(K->getLocation());
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(K)) { Array ta; for (auto &A : S->getTemplateArgs().asArray()) ta.push_back(targ(A, 0)); o["ta"] = std::move(ta); }
    if (!D) { o["incomplete"] = true; return o; }
    Array fs; for (auto *F : D->fields()) { Object f; f["n"] = F->getNameAsString(); f["t"] = T(F->getType()); f["l"] = line(F->getLocation()); if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = E(F->getInClassInitializer()); fs.push_back(std::move(f)); }
    o["fields"] = std::move(fs);
    Array bs; for (auto &B : D->bases()) bs.push_back(T(B.getType())); o["bases"] = std::move(bs);
    if (K->isLambda()) { o["lambda"] = true; return o; }
    Array ms; for (auto *M : D->methods()) { if (M->isImplicit() && !isa<CXXConstructorDecl>(M)) continue; if (M->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) continue; Object m; m["n"] = qname(M).substr(qname(M).rfind("::") + 2); m["id"] = fn(M); 
      Array ov; for (auto *O : M->overridden_methods()) ov.push_back(fn(O)); m["ov"] = std::move(ov); ms.push_back(std::move(m)); }
    o["methods"] = std::move(ms);
    if (auto *DT = D->getDestructor()) { o["vdtor"] = DT->isVirtual(); }
    o["poly"] = D->isPolymorphic(); 
    return o;
  }
};

class Finder : public RecursiveASTVisitor<Finder> {
public:
  Dumper &D; explicit Finder(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl *X) {
    if (X && !isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && !isa<LinkageSpecDecl>(X)) {
      // do not descend into foreign declarations
      if (X->getLocation().isValid() && D.SM.isInSystemHeader(D.SM.getExpansionLoc(X->getLocation()))) return true;
    }
    return RecursiveASTVisitor::TraverseDecl(X);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (D.ours(F) && F->isThisDeclarationADefinition()) D.fn(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isDependentContext() || R->isLambda() || R->isInjectedClassName()) return true;
    if (R->isThisDeclarationADefinition() && D.inSrc(R->getLocation())) D.cls(R);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C); Finder F(D); F.TraverseDecl(C.getTranslationUnitDecl());
    Array fns, clss; size_t fi = 0, ci = 0;
    while (fi < D.fnQueue.size() || ci < D.clsQueue.size()) {
      while (fi < D.fnQueue.size()) { fns.push_back(D.function(D.fnQueue[fi], fi)); ++fi; }
      while (ci < D.clsQueue.size()) { clss.push_back(D.classInfo(D.clsQueue[ci], ci)); ++ci; }
    }
    Array ty; for (auto &t : D.typeObjs) ty.push_back(std::move(t));
    Object root; root["functions"] = std::move(fns); root["classes"] = std::move(clss); root["types"] = std::move(ty);
    root["errors"] = std::move(TheDiags->errs); root["nerr"] = (int64_t)TheDiags->nerr;
    std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec); os << Value(std::move(root)); os << "\n";
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
  // oml-extract SRC_ROOT TU OUT -- flags...
  if (argc < 4) { llvm::errs() << "usage: oml-extract SRCROOT TU OUT -- flags\n"; return 64; }
  llvm::SmallString<256> real; if (!llvm::sys::fs::real_path(argv[1], real)) SrcRoot = real.str().str(); else SrcRoot = argv[1];
  OutPath = argv[3];
  std::vector<std::string> flags; for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {argv[2]});
  DiagCollector Diags; TheDiags = &Diags; Tool.setDiagnosticConsumer(&Diags);
  Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return 0;
}
