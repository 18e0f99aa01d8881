// astx: dump the type-checked, name-resolved program of one translation unit
// (functions, records, globals, enumerators defined under a source root) as JSON.
// Purely a front end: it decides nothing; the analyses live in ../engine.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Root;      // absolute prefix of analysed sources
static std::string OutFile;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  ASTContext &C;
  SourceManager &SM;
  json::Array Funcs, Records, Globals;
  json::Object Enums;
  std::set<std::string> SeenF, SeenR, SeenG;
  std::map<const Decl *, int> Ids;
  PrintingPolicy PP;

  explicit Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.adjustForCPlusPlus();
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "?";
    return B.str().str();
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L).str();
    llvm::SmallString<256> P(F);
    return P.str().str();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    return F.compare(0, Root.size(), Root) == 0;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }

  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType().getUnqualifiedType();
    if (T->isReferenceType()) return "r:" + ty(T->getPointeeType());
    if (T->isPointerType()) return "p:" + ty(T->getPointeeType());
    if (T->isBooleanType()) return "b";
    if (T->isEnumeralType()) {
      auto *ED = T->getAs<EnumType>()->getDecl();
      QualType IT = ED->getIntegerType();
      if (!IT.isNull()) return ty(IT);
      return "u32";
    }
    if (T->isIntegerType() && !T->isDependentType()) {
      unsigned w = C.getTypeSize(T);
      return (T->isUnsignedIntegerType() ? "u" : "i") + std::to_string(w);
    }
    if (T->isRealFloatingType()) return "f" + std::to_string(C.getTypeSize(T));
    if (T->isVoidType()) return "void";
    if (T->isNullPtrType()) return "p:void";
    if (auto *AT = C.getAsConstantArrayType(T))
      return "a" + std::to_string(AT->getSize().getZExtValue()) + ":" + ty(AT->getElementType());
    if (auto *RT = T->getAs<RecordType>()) {
      std::string s;
      llvm::raw_string_ostream os(s);
      QualType(RT, 0).print(os, PP);
      return "R:" + os.str();
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    T.print(os, PP);
    return os.str();
  }

  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    // drop template args of functions, keep those of classes out as well
    const DeclContext *DC = D->getDeclContext();
    std::vector<std::string> parts;
    while (DC && !DC->isTranslationUnit()) {
      if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline() && !N->isAnonymousNamespace()) parts.push_back(N->getNameAsString());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        parts.push_back(R->getNameAsString());
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(F->getNameAsString());
      }
      DC = DC->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
    os << D->getNameAsString();
    return os.str();
  }
  std::string clsName(const CXXRecordDecl *R) {
    return ty(C.getRecordType(R)).substr(2);
  }

  // ---------------------------------------------------------------- expressions
  json::Value E(const Expr *e) {
    if (!e) return nullptr;
    json::Object o = X(e);
    return json::Value(std::move(o));
  }
  void cv(const Expr *e, json::Object &o) {
    if (o.get("v") || e->isValueDependent() || e->isTypeDependent()) return;
    if (!e->getType()->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      auto V = R.Val.getInt();
      o["cv"] = V.isUnsigned() ? json::Value((int64_t)V.getZExtValue()) : json::Value((int64_t)V.getSExtValue());
    }
  }
  json::Object mk(const char *k, const Expr *e) {
    json::Object o;
    o["k"] = k;
    o["l"] = line(e->getExprLoc());
    o["t"] = ty(e->getType());
    return o;
  }
  json::Array Es(llvm::ArrayRef<const Expr *> v) {
    json::Array a;
    for (auto *x : v) a.push_back(E(x));
    return a;
  }
  template <class It> json::Array ER(It b, It e) {
    json::Array a;
    for (; b != e; ++b) a.push_back(E(*b));
    return a;
  }
  void fn(const FunctionDecl *F, json::Object &o) {
    o["f"] = qname(F);
    o["u"] = usr(F);
    o["rett"] = F->getReturnType().getAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()) o["cls"] = clsName(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
    }
    json::Array pt;
    for (auto *P : F->parameters()) {
      std::string t = ty(P->getType());
      // mark const refs / const pointees: not out-params
      QualType Q = P->getType();
      if ((Q->isReferenceType() || Q->isPointerType()) && Q->getPointeeType().isConstQualified()) t = "c" + t;
      pt.push_back(t);
    }
    o["pt"] = std::move(pt);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) o["const"] = true;
  }

  json::Object X(const Expr *e) {
    // transparent wrappers
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(e)) { e = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(e)) { e = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(e)) { e = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(e)) { e = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(e)) { e = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(e)) { e = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(e)) { e = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(e)) { e = P->getSubExpr(); continue; }
      break;
    }
    if (auto *CE = dyn_cast<CastExpr>(e)) {
      switch (CE->getCastKind()) {
        case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
        case CK_IntegralToBoolean: case CK_BooleanToSignedIntegral: {
          json::Object o = mk("cast", e);
          o["e"] = E(CE->getSubExpr());
          cv(e, o);
          return o;
        }
        case CK_PointerToBoolean: {
          json::Object o = mk("ptrbool", e);
          o["e"] = E(CE->getSubExpr());
          return o;
        }
        case CK_NullToPointer: {
          json::Object o = mk("null", e);
          return o;
        }
        case CK_Dynamic: {
          json::Object o = mk("dyncast", e);
          o["e"] = E(CE->getSubExpr());
          return o;
        }
        case CK_LValueToRValue: {
          json::Object o = X(CE->getSubExpr());
          if (!o.get("cv")) cv(e, o);
          return o;
        }
        case CK_ToVoid: {
          json::Object o = mk("tovoid", e);
          o["e"] = E(CE->getSubExpr());
          return o;
        }
        default: {
          // pointer/class casts, decay: transparent, but keep the target type
          json::Object o = X(CE->getSubExpr());
          if (isa<ExplicitCastExpr>(CE) || CE->getCastKind() == CK_BitCast) o["ct"] = ty(CE->getType());
          return o;
        }
      }
    }
    if (auto *L = dyn_cast<IntegerLiteral>(e)) {
      auto o = mk("int", e);
      o["v"] = (int64_t)L->getValue().getLimitedValue();
      return o;
    }
    if (auto *L = dyn_cast<CharacterLiteral>(e)) { auto o = mk("int", e); o["v"] = (int64_t)L->getValue(); return o; }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(e)) { auto o = mk("int", e); o["v"] = (int64_t)L->getValue(); return o; }
    if (auto *L = dyn_cast<StringLiteral>(e)) {
      auto o = mk("str", e);
      std::string s = L->getCharByteWidth() == 1 ? L->getString().str() : "";
      o["v"] = json::fixUTF8(s);
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return mk("null", e);
    if (auto *F = dyn_cast<FloatingLiteral>(e)) { auto o = mk("float", e); return o; }
    if (auto *P = dyn_cast<PredefinedExpr>(e)) { auto o = mk("str", e); o["v"] = "__func__"; return o; }
    if (isa<CXXThisExpr>(e)) return mk("this", e);
    if (auto *D = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *V = D->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        auto o = mk("int", e);
        o["v"] = (int64_t)EC->getInitVal().getExtValue();
        o["en"] = qname(EC);
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(V)) {
        auto o = mk("fnref", e);
        fn(F, o);
        return o;
      }
      auto o = mk("var", e);
      o["n"] = V->getNameAsString();
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->hasGlobalStorage()) { o["g"] = qname(VD); o["id"] = id(VD); if (VD->isStaticLocal()) o["sl"] = true; }
        else o["id"] = id(VD);
      } else o["id"] = id(V);
      cv(e, o);
      return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(e)) {
      const ValueDecl *V = M->getMemberDecl();
      if (auto *VD = dyn_cast<VarDecl>(V)) {  // static member
        auto o = mk("var", e);
        o["n"] = VD->getNameAsString();
        o["g"] = qname(VD);
        o["id"] = id(VD);
        cv(e, o);
        return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        auto o = mk("int", e);
        o["v"] = (int64_t)EC->getInitVal().getExtValue();
        return o;
      }
      auto o = mk("mem", e);
      o["n"] = V->getNameAsString();
      o["q"] = qname(V);
      o["arrow"] = M->isArrow();
      o["b"] = E(M->getBase());
      if (isa<FunctionDecl>(V)) { o["k"] = "memfn"; fn(cast<FunctionDecl>(V), o); }
      return o;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(e)) {
      auto o = mk("idx", e);
      o["b"] = E(A->getBase());
      o["i"] = E(A->getIdx());
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(e)) {
      auto o = mk("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) o["post"] = true;
      o["e"] = E(U->getSubExpr());
      cv(e, o);
      return o;
    }
    if (auto *B = dyn_cast<BinaryOperator>(e)) {
      auto o = mk(B->isAssignmentOp() ? "asg" : "bin", e);
      o["op"] = B->getOpcodeStr().str();
      o["a"] = E(B->getLHS());
      o["c"] = E(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(e)) o["crt"] = ty(CA->getComputationResultType());
      if (!B->isAssignmentOp()) cv(e, o);
      return o;
    }
    if (auto *Q = dyn_cast<AbstractConditionalOperator>(e)) {
      auto o = mk("cond", e);
      if (auto *BC = dyn_cast<BinaryConditionalOperator>(e)) o["a"] = E(BC->getCommon()); else o["a"] = E(Q->getCond());
      if (isa<BinaryConditionalOperator>(e)) { o["elvis"] = true; }
      else o["x"] = E(Q->getTrueExpr());
      o["y"] = E(Q->getFalseExpr());
      cv(e, o);
      return o;
    }
    if (auto *O = dyn_cast<OpaqueValueExpr>(e)) {
      if (O->getSourceExpr()) return X(O->getSourceExpr());
      return mk("unk", e);
    }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      auto o = mk("sizeof", e);
      cv(e, o);
      if (U->getKind() == UETT_SizeOf) {
        o["of"] = ty(U->getTypeOfArgument());
        if (!U->isArgumentType()) o["e"] = E(U->getArgumentExpr());
      }
      return o;
    }
    if (auto *OO = dyn_cast<OffsetOfExpr>(e)) {
      auto o = mk("offsetof", e);
      cv(e, o);
      std::string p;
      for (unsigned i = 0; i < OO->getNumComponents(); ++i) {
        auto &N = OO->getComponent(i);
        if (N.getKind() == OffsetOfNode::Field) { if (!p.empty()) p += "."; p += qname(N.getField()); }
      }
      o["field"] = p;
      o["rec"] = ty(OO->getTypeSourceInfo()->getType());
      return o;
    }
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto o = mk("call", e);
      o["op"] = getOperatorSpelling(OC->getOperator());
      if (auto *F = OC->getDirectCallee()) fn(F, o);
      o["args"] = ER(OC->arg_begin(), OC->arg_end());
      if (auto *F = OC->getDirectCallee())
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) o["memop"] = !M->isStatic();
      return o;
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(e)) {
      auto o = mk("call", e);
      const CXXMethodDecl *M = MC->getMethodDecl();
      if (M) fn(M, o);
      if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
        o["obj"] = E(ME->getBase());
        o["arrow"] = ME->isArrow();
        o["ot"] = ty(ME->getBase()->getType());
        if (ME->hasQualifier()) o["nonvirt"] = true;
      } else {
        o["fx"] = E(MC->getCallee());
      }
      o["args"] = ER(MC->arg_begin(), MC->arg_end());
      return o;
    }
    if (auto *CE = dyn_cast<CallExpr>(e)) {
      auto o = mk("call", e);
      if (auto *F = CE->getDirectCallee()) fn(F, o);
      else o["fx"] = E(CE->getCallee());
      o["args"] = ER(CE->arg_begin(), CE->arg_end());
      cv(e, o);
      return o;
    }
    if (auto *CC = dyn_cast<CXXConstructExpr>(e)) {
      const CXXConstructorDecl *D = CC->getConstructor();
      if (D->isCopyOrMoveConstructor() && CC->getNumArgs() >= 1) {
        auto o = X(CC->getArg(0));
        if (D->isMoveConstructor()) {}
        return o;
      }
      auto o = mk("ctor", e);
      fn(D, o);
      o["args"] = ER(CC->arg_begin(), CC->arg_end());
      return o;
    }
    if (auto *CI = dyn_cast<CXXInheritedCtorInitExpr>(e)) { return mk("unk", e); }
    if (auto *SV = dyn_cast<CXXScalarValueInitExpr>(e)) { auto o = mk("int", e); o["v"] = 0; return o; }
    if (auto *IV = dyn_cast<ImplicitValueInitExpr>(e)) { auto o = mk("zero", e); return o; }
    if (auto *N = dyn_cast<CXXNewExpr>(e)) {
      auto o = mk("new", e);
      o["at"] = ty(N->getAllocatedType());
      if (N->isArray() && N->getArraySize() && *N->getArraySize()) o["n"] = E(*N->getArraySize());
      if (N->getInitializer()) o["init"] = E(N->getInitializer());
      return o;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(e)) {
      auto o = mk("del", e);
      o["arr"] = D->isArrayForm();
      o["e"] = E(D->getArgument());
      return o;
    }
    if (auto *I = dyn_cast<InitListExpr>(e)) {
      auto o = mk("ilist", e);
      const InitListExpr *S = I->isSemanticForm() ? I : (I->getSemanticForm() ? I->getSemanticForm() : I);
      json::Array a;
      for (unsigned i = 0; i < S->getNumInits(); ++i) a.push_back(E(S->getInit(i)));
      o["args"] = std::move(a);
      if (S->hasArrayFiller()) o["filler"] = true;
      return o;
    }
    if (auto *L = dyn_cast<LambdaExpr>(e)) {
      auto o = mk("lambda", e);
      json::Array ps;
      for (auto *P : L->getCallOperator()->parameters()) {
        json::Object p; p["id"] = id(P); p["n"] = P->getNameAsString(); p["t"] = ty(P->getType());
        ps.push_back(std::move(p));
      }
      o["params"] = std::move(ps);
      o["cap"] = L->getCaptureDefault() == LCD_ByRef ? "ref" : "val";
      o["body"] = S(L->getBody());
      return o;
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(e)) { auto o = mk("throw", e); if (T->getSubExpr()) o["e"] = E(T->getSubExpr()); return o; }
    if (auto *VA = dyn_cast<VAArgExpr>(e)) return mk("unk", e);
    if (auto *SE = dyn_cast<StmtExpr>(e)) { auto o = mk("stmtexpr", e); o["body"] = S(SE->getSubStmt()); return o; }
    auto o = mk("unk", e);
    o["cls"] = e->getStmtClassName();
    json::Array a;
    for (auto *c : e->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(E(ce));
    o["args"] = std::move(a);
    cv(e, o);
    return o;
  }

  // ---------------------------------------------------------------- statements
  json::Object var(const VarDecl *V) {
    json::Object v;
    v["id"] = id(V);
    v["n"] = V->getNameAsString();
    v["t"] = ty(V->getType());
    if (V->getType()->isReferenceType()) v["ref"] = true;
    if (V->isStaticLocal()) { v["static"] = true; v["g"] = qname(V); }
    if (V->hasInit()) v["init"] = E(V->getInit());
    return v;
  }
  json::Value S(const Stmt *s) {
    if (!s) return nullptr;
    json::Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto *e = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = E(e);
      return o;
    }
    if (auto *c = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "seq";
      json::Array a;
      for (auto *x : c->body()) a.push_back(S(x));
      o["s"] = std::move(a);
      o["end"] = line(c->getRBracLoc());
      return o;
    }
    if (auto *d = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto *x : d->decls())
        if (auto *V = dyn_cast<VarDecl>(x)) a.push_back(var(V));
      o["vars"] = std::move(a);
      return o;
    }
    if (auto *i = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (i->getInit()) o["init"] = S(i->getInit());
      if (i->getConditionVariableDeclStmt()) o["cvar"] = S(i->getConditionVariableDeclStmt());
      o["c"] = E(i->getCond());
      o["x"] = S(i->getThen());
      o["y"] = S(i->getElse());
      return o;
    }
    if (auto *w = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (w->getConditionVariableDeclStmt()) o["cvar"] = S(w->getConditionVariableDeclStmt());
      o["c"] = E(w->getCond());
      o["b"] = S(w->getBody());
      return o;
    }
    if (auto *w = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = E(w->getCond());
      o["b"] = S(w->getBody());
      return o;
    }
    if (auto *f = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = S(f->getInit());
      o["c"] = E(f->getCond());
      o["inc"] = E(f->getInc());
      o["b"] = S(f->getBody());
      return o;
    }
    if (auto *r = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      json::Object v = var(r->getLoopVariable());
      v.erase("init");
      o["var"] = std::move(v);
      o["range"] = E(r->getRangeInit());
      o["b"] = S(r->getBody());
      return o;
    }
    if (auto *w = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (w->getInit()) o["init"] = S(w->getInit());
      if (w->getConditionVariableDeclStmt()) o["cvar"] = S(w->getConditionVariableDeclStmt());
      o["c"] = E(w->getCond());
      o["b"] = S(w->getBody());
      return o;
    }
    if (auto *c = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = E(c->getLHS());
      if (c->getRHS()) o["v2"] = E(c->getRHS());
      o["b"] = S(c->getSubStmt());
      return o;
    }
    if (auto *c = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["b"] = S(c->getSubStmt());
      return o;
    }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(s)) { o["k"] = "null"; return o; }
    if (auto *r = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      o["e"] = E(r->getRetValue());
      return o;
    }
    if (auto *g = dyn_cast<GotoStmt>(s)) { o["k"] = "goto"; o["lab"] = g->getLabel()->getNameAsString(); return o; }
    if (auto *g = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["lab"] = g->getDecl()->getNameAsString(); o["b"] = S(g->getSubStmt()); return o; }
    if (auto *t = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = S(t->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) a.push_back(S(t->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(a);
      return o;
    }
    if (auto *a = dyn_cast<AttributedStmt>(s)) return S(a->getSubStmt());
    o["k"] = "unk";
    o["cls"] = s->getStmtClassName();
    return o;
  }

  // ---------------------------------------------------------------- decls
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody()) return true;
    if (F->isDependentContext()) return true;
    if (F->isDefaulted()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (!inRoot(F->getLocation())) return true;
    std::string u = usr(F);
    if (!SeenF.insert(u).second) return true;
    json::Object o;
    fn(F, o);
    o["ret"] = ty(F->getReturnType());
    o["rett"] = F->getReturnType().getAsString();
    o["file"] = fileOf(F->getLocation());
    o["l"] = line(F->getLocation());
    if (auto *B = dyn_cast_or_null<CompoundStmt>(F->getBody())) o["end"] = line(B->getRBracLoc());
    json::Array ps;
    for (auto *P : F->parameters()) {
      json::Object p;
      p["id"] = id(P);
      p["n"] = P->getNameAsString();
      p["t"] = ty(P->getType());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) {
        Expr::EvalResult R;
        const Expr *D = P->getDefaultArg();
        if (D && !D->isValueDependent() && D->getType()->isIntegralOrEnumerationType() &&
            D->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
          p["dv"] = (int64_t)R.Val.getInt().getExtValue();
      }
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (F->isVariadic()) o["variadic"] = true;
    if (F->isNoReturn()) o["noret"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      json::Array ov;
      for (auto it = M->begin_overridden_methods(); it != M->end_overridden_methods(); ++it) ov.push_back(usr(*it));
      o["over"] = std::move(ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["isctor"] = true;
      json::Array in;
      for (auto *I : K->inits()) {
        json::Object i;
        if (I->isMemberInitializer()) { i["n"] = I->getMember()->getNameAsString(); i["q"] = qname(I->getMember()); i["mt"] = ty(I->getMember()->getType()); }
        else if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) i["deleg"] = true;
        i["w"] = I->isWritten();
        if (I->getInit()) i["e"] = E(I->getInit());
        in.push_back(std::move(i));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["isdtor"] = true;
    o["body"] = S(F->getBody());
    Funcs.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoot(R->getLocation())) return true;
    std::string n = clsName(R);
    if (!SeenR.insert(n).second) return true;
    json::Object o;
    o["name"] = n;
    o["q"] = qname(R);
    o["file"] = fileOf(R->getLocation());
    o["l"] = line(R->getLocation());
    json::Array bases;
    for (auto &B : R->bases()) bases.push_back(ty(B.getType()));
    o["bases"] = std::move(bases);
    o["abstract"] = R->isAbstract();
    json::Array fs;
    const ASTRecordLayout *L = nullptr;
    if (!R->isInvalidDecl()) L = &C.getASTRecordLayout(R);
    for (auto *Fd : R->fields()) {
      json::Object f;
      f["n"] = Fd->getNameAsString();
      f["q"] = qname(Fd);
      f["t"] = ty(Fd->getType());
      f["dt"] = Fd->getType().getAsString();
      if (L) f["off"] = (int64_t)(L->getFieldOffset(Fd->getFieldIndex()) / 8);
      f["sz"] = (int64_t)(C.getTypeSizeInChars(Fd->getType()).getQuantity());
      if (Fd->isBitField()) f["bits"] = (int64_t)Fd->getBitWidthValue(C);
      if (Fd->getInClassInitializer()) f["init"] = E(Fd->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *M : R->methods()) {
      json::Object m;
      fn(M, m);
      m["pure"] = M->isPureVirtual();
      m["n"] = M->getNameAsString();
      m["acc"] = (int)M->getAccess();
      json::Array ov;
      for (auto it = M->begin_overridden_methods(); it != M->end_overridden_methods(); ++it) ov.push_back(usr(*it));
      m["over"] = std::move(ov);
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    Records.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal()) return true;
    if (!V->isThisDeclarationADefinition()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!inRoot(V->getLocation())) return true;
    std::string u = usr(V);
    if (!SeenG.insert(u).second) return true;
    json::Object o;
    o["g"] = qname(V);
    o["t"] = ty(V->getType());
    o["file"] = fileOf(V->getLocation());
    o["l"] = line(V->getLocation());
    o["const"] = V->getType().isConstQualified();
    if (V->hasInit() && !V->getInit()->isValueDependent()) o["init"] = E(V->getInit());
    Globals.push_back(std::move(o));
    return true;
  }
  bool VisitEnumConstantDecl(EnumConstantDecl *D) {
    if (!inRoot(D->getLocation())) return true;
    Enums[qname(D)] = (int64_t)D->getInitVal().getExtValue();
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  CompilerInstance &CI;
  std::string In;
  Consumer(CompilerInstance &CI, StringRef In) : CI(CI), In(In.str()) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["tu"] = In;
    o["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    o["funcs"] = std::move(D.Funcs);
    o["records"] = std::move(D.Records);
    o["globals"] = std::move(D.Globals);
    o["enums"] = std::move(D.Enums);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    os << json::Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef In) override {
    return std::make_unique<Consumer>(CI, In);
  }
};
}  // namespace

// usage: astx ROOT OUT SRC -- compiler args
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: astx ROOT OUT SRC -- args\n"; return 2; }
  Root = argv[1];
  OutFile = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
