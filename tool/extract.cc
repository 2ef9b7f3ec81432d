// hsa-extract: lowers every function of the analysed source tree to a small
// resolved IR (JSON lines).  One process per translation unit.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string gRoot;   // source root prefix, e.g. /repo/
static llvm::raw_ostream *gOut;

namespace {
class Lower {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
public:
  Lower(ASTContext &C): C(C), PP(C.getPrintingPolicy()) {
    PP.adjustForCPlusPlus(); PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
    PP.SuppressUnwrittenScope = true; PP.PrintCanonicalTypes = true; PP.SuppressDefaultTemplateArgs = true;
  }
  std::string type(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string valtype(QualType T) {
    if (T.isNull()) return "?";
    return T.getNonReferenceType().getCanonicalType().getUnqualifiedType().getAsString(PP);
  }
  std::string cls(const CXXRecordDecl *R) {
    if (!R) return "";
    if (R->isLambda()) return "(lambda)";
    return QualType(R->getTypeForDecl(), 0).getCanonicalType().getAsString(PP);
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<256> Buf;
    if (auto *F = dyn_cast<FunctionDecl>(D)) D = F->getCanonicalDecl();
    index::generateUSRForDecl(D, Buf);
    return std::string(Buf.str());
  }
  std::string qname(const NamedDecl *D) {
    if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
      std::string n = D->getDeclName().getAsString();
      if (isa<CXXConstructorDecl>(M)) n = "<ctor>";
      else if (isa<CXXDestructorDecl>(M)) n = "<dtor>";
      return cls(M->getParent()) + "::" + n;
    }
    return D->getQualifiedNameAsString();
  }
  int line(SourceLocation L) {
    auto &SM = C.getSourceManager();
    return SM.getExpansionLineNumber(L);
  }
  std::string file(SourceLocation L) {
    auto &SM = C.getSourceManager();
    auto E = SM.getExpansionLoc(L);
    auto F = SM.getFilename(E);
    std::string s = F.str();
    if (s.rfind(gRoot, 0) == 0) return s.substr(gRoot.size());
    return s;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  Object N(const char *k, const Stmt *S) {
    Object o; o["k"] = k;
    if (S) o["l"] = line(S->getBeginLoc());
    return o;
  }
  static const char *castKind(const CastExpr *E) {
    switch (E->getCastKind()) {
    case CK_IntegralCast: return "int";
    case CK_FloatingToIntegral: return "f2i";
    case CK_IntegralToFloating: return "i2f";
    case CK_FloatingCast: return "flt";
    case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: return "bool";
    case CK_Dynamic: return "dyn";
    case CK_BaseToDerived: return "down";
    default: return nullptr;
    }
  }
  Value args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array a; for (auto *e : R) a.push_back(expr(e)); return a;
  }
  Value fnref(const FunctionDecl *F, Object &o) {
    o["q"] = qname(F);
    o["id"] = usr(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virt"] = true;
    }
    // which parameters are non-const references / pointers
    Array m;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      if (T->isReferenceType() && !T->getPointeeType().isConstQualified()) m.push_back(T->isRValueReferenceType() ? 2 : 1);
      else if (T->isPointerType() && !T->getPointeeType().isConstQualified()) m.push_back(3);
      else if (T->isReferenceType() || T->isPointerType()) m.push_back(4);
      else m.push_back(0);
    }
    o["pm"] = std::move(m);
    return nullptr;
  }
  const Expr *isAssert(const Expr *E) {
    // (cond) ? void(0) : __assert_fail(...)
    E = E->IgnoreParenImpCasts();
    auto *CO = dyn_cast<ConditionalOperator>(E);
    if (!CO) return nullptr;
    const Expr *F = CO->getFalseExpr()->IgnoreParenCasts();
    if (auto *CE = dyn_cast<CallExpr>(F))
      if (auto *FD = CE->getDirectCallee())
        if (FD->getNameAsString() == "__assert_fail") return CO->getCond();
    return nullptr;
  }
  Value varDecl(const VarDecl *V) {
    Object o;
    o["n"] = V->getNameAsString(); o["id"] = id(V); o["t"] = valtype(V->getType());
    if (V->getType()->isReferenceType()) o["ref"] = true;
    if (V->getType().getNonReferenceType().isConstQualified()) o["c"] = true;
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getType()->isPointerType()) o["ptr"] = true;
    if (V->hasInit() && V->getInit()) {
      if (V->getInitStyle() == VarDecl::CallInit) o["ci"] = true;
      o["init"] = expr(V->getInit());
    }
    o["l"] = line(V->getLocation());
    return o;
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *A = isAssert(E)) { Object o = N("assert", E); o["e"] = expr(A); return o; }
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: return expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: { auto v = expr(cast<CXXDefaultArgExpr>(E)->getExpr()); return v; }
    case Stmt::CXXDefaultInitExprClass: { auto v = expr(cast<CXXDefaultInitExpr>(E)->getExpr()); return v; }
    case Stmt::CXXStdInitializerListExprClass: return expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
    case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(E)->getSourceExpr());
    default: break;
    }
    if (auto *CE = dyn_cast<CastExpr>(E)) {
      if (CE->getCastKind() == CK_ConstructorConversion || CE->getCastKind() == CK_UserDefinedConversion)
        return expr(CE->getSubExpr());
      const char *ck = castKind(CE);
      if (!ck && CE->getCastKind() == CK_ToVoid) ck = nullptr;
      if (!ck && CE->getCastKind() == CK_Dependent) ck = "dep";
      if (!ck) return expr(CE->getSubExpr());
      Object o = N("cast", E); o["ck"] = ck; o["t"] = valtype(E->getType()); o["f"] = valtype(CE->getSubExpr()->getType()); o["e"] = expr(CE->getSubExpr());
      if (isa<ExplicitCastExpr>(E)) o["x"] = true;
      return o;
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      Object o = N("int", E);
      llvm::SmallString<32> s; L->getValue().toString(s, 10, L->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str()); return o;
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) { Object o = N("flt", E); o["v"] = L->getValueAsApproximateDouble(); return o; }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = N("bool", E); o["v"] = L->getValue(); return o; }
    if (auto *L = dyn_cast<StringLiteral>(E)) { Object o = N("str", E); o["v"] = L->getCharByteWidth() == 1 ? json::fixUTF8(L->getString()) : std::string("?"); return o; }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) { Object o = N("int", E); o["v"] = std::to_string(L->getValue()); o["chr"] = true; return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return N("null", E);
    if (isa<CXXThisExpr>(E)) return N("this", E);
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        Object o = N("enum", E); o["n"] = EC->getQualifiedNameAsString();
        o["v"] = std::to_string(EC->getInitVal().getExtValue());
        if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) o["en"] = usr(ED);
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(V)) { Object o = N("fn", E); fnref(F, o); return o; }
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        Object o = N("var", E);
        o["n"] = VD->getNameAsString(); o["t"] = valtype(VD->getType());
        if (VD->hasGlobalStorage()) {
          o["vk"] = VD->isStaticLocal() ? "static" : "global";
          o["q"] = VD->getQualifiedNameAsString();
          if (VD->getType().isConstQualified()) o["c"] = true;
          if (VD->isStaticLocal()) o["id"] = id(VD);
        } else {
          o["vk"] = isa<ParmVarDecl>(VD) ? "param" : "local";
          o["id"] = id(VD);
        }
        if (VD->getType()->isReferenceType()) o["ref"] = true;
        return o;
      }
      if (auto *BD = dyn_cast<BindingDecl>(V)) {
        Object o = N("var", E); o["n"] = BD->getNameAsString(); o["vk"] = "local"; o["id"] = id(BD); o["t"] = valtype(BD->getType()); return o;
      }
      if (auto *FD = dyn_cast<FieldDecl>(V)) { // &C::f
        Object o = N("fieldref", E); o["n"] = FD->getNameAsString(); return o;
      }
      Object o = N("ref", E); o["n"] = V->getNameAsString(); return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        Object o = N("mem", E);
        o["b"] = expr(M->getBase()); o["n"] = F->getNameAsString();
        if (auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) o["c"] = cls(R);
        o["t"] = valtype(F->getType());
        if (F->getType()->isReferenceType()) o["ref"] = true;
        if (M->isArrow()) o["arrow"] = true;
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        Object o = N("var", E); o["n"] = V->getNameAsString(); o["vk"] = "global"; o["q"] = V->getQualifiedNameAsString(); o["t"] = valtype(V->getType()); return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) { Object o = N("fn", E); fnref(F, o); o["o"] = expr(M->getBase()); return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) { Object o = N("enum", E); o["n"] = EC->getQualifiedNameAsString(); o["v"] = std::to_string(EC->getInitVal().getExtValue()); return o; }
    }
    if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = N("call", E);
      o["op"] = getOperatorSpelling(O->getOperator());
      o["t"] = valtype(E->getType());
      auto *F = O->getDirectCallee();
      if (F) fnref(F, o);
      unsigned start = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["o"] = expr(O->getArg(0)); start = 1; }
      Array a; for (unsigned i = start; i < O->getNumArgs(); i++) a.push_back(expr(O->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = N("call", E);
      o["t"] = valtype(E->getType());
      if (E->isLValue()) o["lv"] = true;
      if (auto *F = MC->getMethodDecl()) {
        fnref(F, o);
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens()))
          if (ME->hasQualifier()) o["nv"] = true; // explicitly qualified: non virtual
        o["o"] = expr(MC->getImplicitObjectArgument());
      } else {
        o["f"] = expr(MC->getCallee());
      }
      o["a"] = args(MC->arguments());
      return o;
    }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      Object o = N("call", E);
      o["t"] = valtype(E->getType());
      if (E->isLValue()) o["lv"] = true;
      if (auto *F = CE->getDirectCallee()) fnref(F, o);
      else o["f"] = expr(CE->getCallee());
      o["a"] = args(CE->arguments());
      return o;
    }
    if (auto *CE = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = CE->getConstructor();
      if (CE->getNumArgs() >= 1 && CD->isCopyOrMoveConstructor()) {
        bool restDefault = true;
        for (unsigned i = 1; i < CE->getNumArgs(); i++) if (!isa<CXXDefaultArgExpr>(CE->getArg(i))) restDefault = false;
        if (restDefault) return expr(CE->getArg(0));
      }
      Object o = N("ctor", E);
      o["c"] = cls(CD->getParent()); o["id"] = usr(CD);
      Array a; for (auto *x : CE->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *CE = dyn_cast<CXXUnresolvedConstructExpr>(E)) {
      Object o = N("ctor", E); o["c"] = type(CE->getTypeAsWritten()); Array a; for (auto *x : CE->arguments()) a.push_back(expr(x)); o["a"] = std::move(a); return o;
    }
    if (auto *CE = dyn_cast<CXXScalarValueInitExpr>(E)) { Object o = N("zero", E); o["t"] = valtype(CE->getType()); return o; }
    if (auto *CE = dyn_cast<ImplicitValueInitExpr>(E)) { Object o = N("zero", E); o["t"] = valtype(CE->getType()); return o; }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->isAssignmentOp()) {
        Object o = N("asg", E); o["op"] = B->getOpcodeStr().str(); o["lhs"] = expr(B->getLHS()); o["r"] = expr(B->getRHS()); o["t"] = valtype(B->getLHS()->getType());
        if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) { std::string ct = valtype(CA->getComputationResultType()); if (Value(ct) != o["t"]) o["ct"] = ct; }
        return o;
      }
      Object o = N("bin", E); o["op"] = B->getOpcodeStr().str(); o["lhs"] = expr(B->getLHS()); o["r"] = expr(B->getRHS()); o["t"] = valtype(E->getType());
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      if (U->getOpcode() == UO_Extension || U->getOpcode() == UO_Plus) return expr(U->getSubExpr());
      Object o = N("un", E);
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isIncrementDecrementOp()) { o["post"] = U->isPostfix(); }
      o["op"] = op; o["e"] = expr(U->getSubExpr()); o["t"] = valtype(E->getType());
      return o;
    }
    if (auto *CO = dyn_cast<ConditionalOperator>(E)) {
      Object o = N("cond", E); o["c"] = expr(CO->getCond()); o["a"] = expr(CO->getTrueExpr()); o["b"] = expr(CO->getFalseExpr()); return o;
    }
    if (auto *AS = dyn_cast<ArraySubscriptExpr>(E)) { Object o = N("idx", E); o["b"] = expr(AS->getBase()); o["i"] = expr(AS->getIdx()); return o; }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      Object o = N("lam", E);
      Array caps;
      auto ii = L->capture_init_begin();
      for (auto &c : L->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["n"] = c.getCapturedVar()->getNameAsString(); co["id"] = id(c.getCapturedVar()); co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (ii && *ii) { co["init"] = expr(*ii); }
          if (auto *cv = dyn_cast<VarDecl>(c.getCapturedVar())) if (cv->isInitCapture()) { co["ic"] = true; if (cv->getInit()) co["init"] = expr(cv->getInit()); }
        }
        caps.push_back(std::move(co)); ++ii;
      }
      o["caps"] = std::move(caps);
      if (L->isMutable()) o["mut"] = true;
      const CXXMethodDecl *M = L->getCallOperator();
      // prefer an instantiated body for generic lambdas
      if (auto *FT = L->getDependentCallOperator()) {
        o["generic"] = true;
        for (auto *S : FT->specializations()) if (S->hasBody()) { M = cast<CXXMethodDecl>(S); break; }
      }
      Array ps; for (auto *p : M->parameters()) ps.push_back(varDecl(p));
      o["ps"] = std::move(ps);
      o["body"] = stmt(M->getBody() ? M->getBody() : L->getBody());
      return o;
    }
    if (auto *NE = dyn_cast<CXXNewExpr>(E)) {
      Object o = N("new", E);
      o["t"] = type(NE->getAllocatedType());
      if (NE->isArray()) { o["arr"] = true; if (auto S = NE->getArraySize()) o["n"] = expr(*S); }
      if (NE->hasInitializer()) o["init"] = expr(NE->getInitializer());
      return o;
    }
    if (auto *DE = dyn_cast<CXXDeleteExpr>(E)) { Object o = N("del", E); o["e"] = expr(DE->getArgument()); return o; }
    if (auto *IL = dyn_cast<InitListExpr>(E)) {
      Object o = N("list", E); Array a; for (auto *x : IL->inits()) a.push_back(expr(x)); o["a"] = std::move(a); o["t"] = valtype(E->getType()); return o;
    }
    if (auto *PL = dyn_cast<ParenListExpr>(E)) {
      Object o = N("list", E); Array a; for (unsigned i = 0; i < PL->getNumExprs(); i++) a.push_back(expr(PL->getExpr(i))); o["a"] = std::move(a); return o;
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      Object o = N("throw", E);
      if (T->getSubExpr()) { o["t"] = valtype(T->getSubExpr()->getType()); o["e"] = expr(T->getSubExpr()); }
      return o;
    }
    if (auto *M = dyn_cast<CXXDependentScopeMemberExpr>(E)) {
      Object o = N("umem", E); o["n"] = M->getMember().getAsString(); if (!M->isImplicitAccess()) o["b"] = expr(M->getBase()); return o;
    }
    if (auto *M = dyn_cast<UnresolvedMemberExpr>(E)) {
      Object o = N("umem", E); o["n"] = M->getMemberName().getAsString(); if (!M->isImplicitAccess()) o["b"] = expr(M->getBase()); return o;
    }
    if (auto *M = dyn_cast<OverloadExpr>(E)) { Object o = N("uref", E); o["n"] = M->getName().getAsString(); return o; }
    if (auto *M = dyn_cast<DependentScopeDeclRefExpr>(E)) { Object o = N("uref", E); o["n"] = M->getDeclName().getAsString(); return o; }
    if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Object o = N("sizeof", E);
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["k"] = "int"; o["v"] = std::string(s.str()); }
      (void)S; return o;
    }
    // fallback
    Object o = N("u", E); o["cls"] = E->getStmtClassName();
    Array ch; for (auto *c : E->children()) if (c) { if (auto *ce = dyn_cast<Expr>(c)) ch.push_back(expr(ce)); else ch.push_back(stmt(c)); }
    o["ch"] = std::move(ch);
    return o;
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    if (auto *B = dyn_cast<CompoundStmt>(S)) {
      Object o = N("block", S); Array a; for (auto *c : B->body()) a.push_back(stmt(c)); o["s"] = std::move(a); o["le"] = line(B->getRBracLoc()); return o;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      Object o = N("decl", S); Array a;
      for (auto *d : D->decls()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(d)) {
          Object v; v["decomp"] = true; v["id"] = id(DD); v["n"] = "?"; v["t"] = valtype(DD->getType());
          if (DD->getType()->isReferenceType()) v["ref"] = true;
          if (DD->getInit()) v["init"] = expr(DD->getInit());
          Array bs; for (auto *b : DD->bindings()) { Object bo; bo["n"] = b->getNameAsString(); bo["id"] = id(b); bs.push_back(std::move(bo)); }
          v["bs"] = std::move(bs); v["l"] = line(DD->getLocation());
          a.push_back(std::move(v));
        } else if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      }
      o["v"] = std::move(a); return o;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      Object o = N("if", S);
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
      if (I->isConstexpr()) o["cx"] = true;
      o["c"] = expr(I->getCond()); o["t"] = stmt(I->getThen());
      if (I->getElse()) o["e"] = stmt(I->getElse());
      return o;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      Object o = N("for", S);
      if (F->getInit()) o["i"] = stmt(F->getInit());
      if (F->getCond()) o["c"] = expr(F->getCond());
      if (F->getInc()) o["n"] = expr(F->getInc());
      o["b"] = stmt(F->getBody()); return o;
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      Object o = N("while", S);
      if (W->getConditionVariable()) o["cv"] = varDecl(W->getConditionVariable());
      o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return o;
    }
    if (auto *W = dyn_cast<DoStmt>(S)) { Object o = N("do", S); o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return o; }
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      Object o = N("rfor", S);
      if (R->getInit()) o["init"] = stmt(R->getInit());
      if (auto *DD = dyn_cast<DecompositionDecl>(R->getLoopVariable())) {
        Object v; v["decomp"] = true; v["id"] = id(DD); v["n"] = "?"; Array bs; for (auto *b : DD->bindings()) { Object bo; bo["n"] = b->getNameAsString(); bo["id"] = id(b); bs.push_back(std::move(bo)); } v["bs"] = std::move(bs);
        if (DD->getType()->isReferenceType()) v["ref"] = true;
        o["var"] = std::move(v);
      } else {
        auto *LV = R->getLoopVariable();
        Object v; v["n"] = LV->getNameAsString(); v["id"] = id(LV); v["t"] = valtype(LV->getType());
        if (LV->getType()->isReferenceType()) v["ref"] = true;
        if (LV->getType().getNonReferenceType().isConstQualified()) v["c"] = true;
        o["var"] = std::move(v);
      }
      o["range"] = expr(R->getRangeInit()); o["b"] = stmt(R->getBody()); return o;
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      Object o = N("switch", S);
      if (W->getInit()) o["init"] = stmt(W->getInit());
      o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody());
      o["ct"] = valtype(W->getCond()->IgnoreParenImpCasts()->getType());
      return o;
    }
    if (auto *K = dyn_cast<CaseStmt>(S)) {
      Object o = N("case", S); o["v"] = expr(K->getLHS()); if (K->getRHS()) o["v2"] = expr(K->getRHS());
      Expr::EvalResult R;
      if (!K->getLHS()->isValueDependent() && K->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["iv"] = std::string(s.str()); }
      o["s"] = stmt(K->getSubStmt()); return o;
    }
    if (auto *K = dyn_cast<DefaultStmt>(S)) { Object o = N("default", S); o["s"] = stmt(K->getSubStmt()); return o; }
    if (auto *R = dyn_cast<ReturnStmt>(S)) { Object o = N("ret", S); if (R->getRetValue()) o["e"] = expr(R->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) return N("break", S);
    if (isa<ContinueStmt>(S)) return N("cont", S);
    if (isa<NullStmt>(S)) return N("null_s", S);
    if (auto *L = dyn_cast<LabelStmt>(S)) return stmt(L->getSubStmt());
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      Object o = N("try", S); o["b"] = stmt(T->getTryBlock()); Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto *H = T->getHandler(i); Object h; h["l"] = line(H->getBeginLoc());
        if (H->getExceptionDecl()) { h["t"] = valtype(H->getCaughtType()); h["var"] = H->getExceptionDecl()->getNameAsString(); h["id"] = id(H->getExceptionDecl()); }
        h["b"] = stmt(H->getHandlerBlock()); hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs); return o;
    }
    if (auto *P = dyn_cast<OMPExecutableDirective>(S)) {
      Object o = N("omp", S);
      o["kind"] = llvm::omp::getOpenMPDirectiveName(P->getDirectiveKind()).str();
      Array cl;
      for (auto *c : P->clauses()) {
        if (!c || c->isImplicit()) continue;
        Object co; co["kind"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        Array vs; for (auto *ch : c->children()) if (auto *e = dyn_cast_or_null<Expr>(ch)) vs.push_back(expr(e));
        co["vars"] = std::move(vs); cl.push_back(std::move(co));
      }
      o["clauses"] = std::move(cl);
      if (P->hasAssociatedStmt()) o["s"] = stmt(P->getRawStmt());
      return o;
    }
    if (auto *CS = dyn_cast<CapturedStmt>(S)) return stmt(CS->getCapturedStmt());
    if (auto *OC = dyn_cast<OMPCanonicalLoop>(S)) return stmt(OC->getLoopStmt());
    Object o = N("us", S); o["cls"] = S->getStmtClassName();
    Array ch; for (auto *c : S->children()) if (c) ch.push_back(stmt(c));
    o["ch"] = std::move(ch);
    return o;
  }
  Value function(const FunctionDecl *F) {
    Ids.clear();
    Object o; o["kind"] = "function";
    o["id"] = usr(F); o["q"] = qname(F); o["n"] = F->getNameAsString();
    o["file"] = file(F->getLocation()); o["line"] = line(F->getLocation());
    o["endline"] = line(F->getEndLoc());
    o["ret"] = type(F->getReturnType());
    if (F->getTemplatedKind() != FunctionDecl::TK_NonTemplate) o["tk"] = int(F->getTemplatedKind());
    if (F->isInlined()) o["inline"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = cls(M->getParent());
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virt"] = true;
      o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      Array ov; for (auto *b : M->overridden_methods()) ov.push_back(usr(b)); o["ov"] = std::move(ov);
      if (isa<CXXConstructorDecl>(M)) o["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (M->isImplicit() || M->isDefaulted()) o["implicit"] = true;
    }
    Array ps; for (auto *p : F->parameters()) {
      Value v = varDecl(p);
      if (v.getAsObject()->get("init")) { Value iv = *v.getAsObject()->get("init"); v.getAsObject()->erase("init"); (*v.getAsObject())["def"] = std::move(iv); }
      ps.push_back(std::move(v));
    }
    o["ps"] = std::move(ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto *I : CD->inits()) {
        Object io; io["l"] = line(I->getSourceLocation()); io["w"] = I->isWritten();
        if (I->isAnyMemberInitializer()) { io["f"] = I->getAnyMember()->getNameAsString(); }
        else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        if (I->isInClassMemberInitializer()) io["icl"] = true;
        io["e"] = expr(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(F->getBody());
    return o;
  }
  Value record(const CXXRecordDecl *R) {
    Object o; o["kind"] = "record"; o["n"] = cls(R); o["file"] = file(R->getLocation()); o["line"] = line(R->getLocation());
    o["sn"] = R->getNameAsString();
    if (R->isAbstract()) o["abstract"] = true;
    Array bs; for (auto &b : R->bases()) if (auto *br = b.getType()->getAsCXXRecordDecl()) bs.push_back(cls(br));
    o["bases"] = std::move(bs);
    Array fs;
    for (auto *f : R->fields()) {
      Object fo; fo["n"] = f->getNameAsString(); fo["t"] = valtype(f->getType()); fo["l"] = line(f->getLocation());
      QualType T = f->getType();
      if (T->isReferenceType()) fo["ref"] = true;
      if (T->isPointerType()) fo["ptr"] = true;
      if (T->isArithmeticType() || T->isEnumeralType() || T->isPointerType()) fo["scalar"] = true;
      if (T.isConstQualified()) fo["c"] = true;
      if (f->isMutable()) fo["mutable"] = true;
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fo["access"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto *m : R->methods()) {
      Object mo; mo["n"] = isa<CXXConstructorDecl>(m) ? std::string("<ctor>") : isa<CXXDestructorDecl>(m) ? std::string("<dtor>") : m->getNameAsString();
      mo["id"] = usr(m); mo["l"] = line(m->getLocation());
      if (m->isVirtual()) mo["virt"] = true;
      if (m->isPureVirtual()) mo["pure"] = true;
      if (m->isConst()) mo["const"] = true;
      if (m->isStatic()) mo["static"] = true;
      if (m->isImplicit() || m->isDefaulted()) mo["implicit"] = true;
      if (m->isDeleted()) mo["deleted"] = true;
      if (m->hasAttr<OverrideAttr>()) mo["override"] = true;
      mo["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      mo["ret"] = type(m->getReturnType());
      Array pt; for (auto *p : m->parameters()) pt.push_back(type(p->getType())); mo["pt"] = std::move(pt);
      Array ov; for (auto *b : m->overridden_methods()) ov.push_back(usr(b)); mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    return o;
  }
  Value enumd(const EnumDecl *E) {
    Object o; o["kind"] = "enum"; o["id"] = usr(E); o["q"] = E->getQualifiedNameAsString(); o["file"] = file(E->getLocation()); o["line"] = line(E->getLocation());
    Array a; for (auto *c : E->enumerators()) { Object co; co["n"] = c->getQualifiedNameAsString(); co["v"] = std::to_string(c->getInitVal().getExtValue()); a.push_back(std::move(co)); }
    o["cs"] = std::move(a); return o;
  }
  Value global(const VarDecl *V) {
    Ids.clear();
    Object o; o["kind"] = "global"; o["q"] = V->getQualifiedNameAsString(); o["t"] = type(V->getType()); o["file"] = file(V->getLocation()); o["line"] = line(V->getLocation());
    if (V->getType().isConstQualified()) o["c"] = true;
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit() && V->getInit() && !V->getInit()->isValueDependent()) o["init"] = expr(V->getInit());
    return o;
  }
};

class Visitor: public RecursiveASTVisitor<Visitor> {
  ASTContext &C; Lower L; std::set<std::string> Seen;
  bool in(SourceLocation Loc) {
    if (Loc.isInvalid()) return false;
    auto &SM = C.getSourceManager();
    auto F = SM.getFilename(SM.getExpansionLoc(Loc));
    return F.starts_with(gRoot);
  }
  void emit(const std::string &key, Value v) { *gOut << key << "\t" << v << "\n"; }
public:
  Visitor(ASTContext &C): C(C), L(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody()) return true;
    if (F->isDependentContext()) return true;
    if (!in(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string u = L.usr(F);
    if (!Seen.insert(u).second) return true;
    emit("F" + u, L.function(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda()) return true;
    if (R->isDependentContext()) return true;
    if (!in(R->getLocation())) return true;
    if (!Seen.insert("R" + L.cls(R)).second) return true;
    emit("R" + L.cls(R), L.record(R));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!in(E->getLocation()) || !E->isThisDeclarationADefinition()) return true;
    if (!Seen.insert("E" + L.usr(E)).second) return true;
    emit("E" + L.usr(E), L.enumd(E)); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || !in(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!V->isThisDeclarationADefinition()) return true;
    if (V->isStaticLocal() || V->getType().isNull()) { }
    if (!Seen.insert("V" + V->getQualifiedNameAsString() + std::to_string(L.line(V->getLocation()))).second) return true;
    emit("V" + V->getQualifiedNameAsString() + std::to_string(L.line(V->getLocation())), L.global(V)); return true;
  }
};
class Consumer: public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    Visitor V(C); V.TraverseDecl(C.getTranslationUnitDecl());
    *gOut << "D\t{\"kind\":\"done\"}\n";
  }
};
class Action: public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
class Factory: public tooling::FrontendActionFactory {
public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
}
// usage: hsa-extract ROOT OUT FILE -- FLAGS...
int main(int argc, const char **argv)
{
  if (argc < 5) { llvm::errs() << "usage: hsa-extract ROOT OUT FILE -- FLAGS\n"; return 2; }
  gRoot = argv[1];
  std::error_code EC;
  llvm::raw_fd_ostream out(argv[2], EC);
  if (EC) { llvm::errs() << EC.message() << "\n"; return 2; }
  gOut = &out;
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {std::string(argv[3])});
  Factory F;
  int rc = T.run(&F);
  return rc;
}
