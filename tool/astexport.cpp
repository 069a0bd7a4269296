// astexport: dumps the clang AST of the functions, records and globals that are
// defined in the repository's own sources as JSON, one object per translation
// unit.  It drops: comments, source formatting, parentheses and implicit
// cleanups; nothing that carries a run-time meaning (locals' destructors are
// re-created by the verifier from scopes and types).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;

struct Exporter {
  ASTContext &C;
  PrintingPolicy PP;
  SourceManager &SM;
  std::map<const void *, int> Ids;
  std::set<const FunctionDecl *> Seen;
  Array Functions, Records, Globals;
  std::set<std::string> SeenRec, SeenGlob;

  Exporter(ASTContext &C)
      : C(C), PP(C.getLangOpts()), SM(C.getSourceManager()) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
    PP.AnonymousTagLocations = false;
  }
  int id(const void *p) {
    auto it = Ids.find(p);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[p] = n;
    return n;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string locfile(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  int locline(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = locfile(L);
    if (const FileEntry *FE = SM.getFileEntryForID(SM.getFileID(SM.getExpansionLoc(L))))
      if (!FE->tryGetRealPathName().empty()) f = FE->tryGetRealPathName().str();
    return f.compare(0, Root.size(), Root) == 0;
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    return os.str();
  }
  std::string fkey(const FunctionDecl *F) {
    std::string s = qname(F) + "(";
    bool first = true;
    for (auto *P : F->parameters()) {
      if (!first) s += ", ";
      first = false;
      s += ty(P->getType());
    }
    if (F->isVariadic()) s += ", ...";
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) s += " const";
    return s;
  }

  // ------------------------------------------------------------- expressions
  Value lit(const llvm::APSInt &V, QualType T) {
    llvm::SmallString<32> s;
    V.toString(s, 10);
    return Object{{"k", "Int"}, {"v", std::string(s.str())}, {"t", ty(T)}};
  }
  Value exprOrNull(const Expr *E) {
    if (!E) return nullptr;
    return expr(E);
  }
  Array exprs(llvm::ArrayRef<const Expr *> A) {
    Array r;
    for (auto *e : A) r.push_back(expr(e));
    return r;
  }
  template <class It> Array argl(It b, It e) {
    Array r;
    for (; b != e; ++b) r.push_back(expr(*b));
    return r;
  }
  Value calleeRef(const FunctionDecl *F) {
    noteFunction(F);
    Object o{{"key", fkey(F)}, {"q", qname(F)}, {"ret", ty(F->getReturnType())}};
    Array ps;
    for (auto *P : F->parameters()) ps.push_back(ty(P->getType()));
    o["params"] = std::move(ps);
    o["name"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(M->getParent()));
      o["static"] = M->isStatic();
      o["virtual"] = M->isVirtual();
      o["const"] = M->isConst();
    }
    if (F->isVariadic()) o["variadic"] = true;
    o["user"] = inRoot(F->getLocation());
    return o;
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
      Object o{{"k", "StdInitList"}, {"t", ty(E->getType())}};
      o["e"] = expr(P->getSubExpr());
      return o;
    }
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) {
      Object o{{"k", "Tmp"}, {"t", ty(E->getType())}, {"l", locline(E->getExprLoc())}};
      o["vc"] = E->isLValue() ? "l" : "x";
      o["e"] = expr(P->getSubExpr());
      return o;
    }
    // integral constants without side effects
    if (!E->isValueDependent() && E->isPRValue() &&
        E->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C) && !E->HasSideEffects(C) && R.Val.isInt())
        return lit(R.Val.getInt(), E->getType());
    }
    Object o{{"t", ty(E->getType())}, {"l", locline(E->getExprLoc())}};
    o["vc"] = E->isLValue() ? "l" : (E->isXValue() ? "x" : "p");
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(V)) {
        o["k"] = "FuncRef";
        o["f"] = calleeRef(F);
        return o;
      }
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->isLocalVarDeclOrParm()) {
          o["k"] = "Var";
          o["id"] = id(VD->getCanonicalDecl());
          o["name"] = VD->getNameAsString();
          if (VD->isStaticLocal()) o["staticlocal"] = true;
          return o;
        }
        noteGlobal(VD);
        o["k"] = "Global";
        o["q"] = qname(VD);
        return o;
      }
      if (auto *B = dyn_cast<BindingDecl>(V)) {
        o["k"] = "Binding";
        o["id"] = id(B->getCanonicalDecl());
        o["name"] = B->getNameAsString();
        return o;
      }
      o["k"] = "Unsupported";
      o["what"] = std::string("DeclRef:") + V->getDeclKindName();
      return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *V = M->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(V)) {
        o["k"] = "Member";
        o["base"] = expr(M->getBase());
        o["arrow"] = M->isArrow();
        o["name"] = F->getNameAsString();
        o["cls"] = ty(C.getRecordType(F->getParent()));
        noteRecord(dyn_cast<CXXRecordDecl>(F->getParent()));
        return o;
      }
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        noteGlobal(VD);
        o["k"] = "Global";
        o["q"] = qname(VD);
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(V)) {
        o["k"] = "MemberFunc";
        o["base"] = expr(M->getBase());
        o["arrow"] = M->isArrow();
        o["f"] = calleeRef(F);
        return o;
      }
    }
    if (isa<CXXThisExpr>(E)) {
      o["k"] = "This";
      return o;
    }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      o["k"] = "Str";
      Array b;
      for (unsigned char c : L->getBytes()) b.push_back((int)c);
      o["bytes"] = std::move(b);
      return o;
    }
    if (auto *L = dyn_cast<PredefinedExpr>(E)) {
      return expr(L->getFunctionName());
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "Float";
      llvm::SmallString<32> s;
      L->getValue().bitcastToAPInt().toString(s, 10, false);
      o["bits"] = std::string(s.str());
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "Null";
      return o;
    }
    if (auto *I = dyn_cast<CastExpr>(E)) {
      o["k"] = "Cast";
      o["ck"] = I->getCastKindName();
      o["e"] = expr(I->getSubExpr());
      if (isa<CXXDynamicCastExpr>(E)) o["dyn"] = true;
      if (isa<ExplicitCastExpr>(E)) o["explicit"] = true;
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      o["post"] = U->isPostfix();
      o["e"] = expr(U->getSubExpr());
      return o;
    }
    if (auto *B = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "CompAssign";
      o["op"] = B->getOpcodeStr().str();
      o["ct"] = ty(B->getComputationLHSType());
      o["a"] = expr(B->getLHS());
      o["b"] = expr(B->getRHS());
      return o;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      o["k"] = "Bin";
      o["op"] = B->getOpcodeStr().str();
      o["a"] = expr(B->getLHS());
      o["b"] = expr(B->getRHS());
      return o;
    }
    if (auto *K = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "Cond";
      o["c"] = expr(K->getCond());
      o["a"] = expr(K->getTrueExpr());
      o["b"] = expr(K->getFalseExpr());
      return o;
    }
    if (auto *S = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "Index";
      o["a"] = expr(S->getBase());
      o["i"] = expr(S->getIdx());
      return o;
    }
    if (auto *K = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "OpCall";
      o["op"] = getOperatorSpelling(K->getOperator());
      if (auto *F = K->getDirectCallee()) {
        o["f"] = calleeRef(F);
        auto *MD = dyn_cast<CXXMethodDecl>(F);
        o["member"] = MD && !MD->isStatic();
      }
      o["args"] = argl(K->arg_begin(), K->arg_end());
      return o;
    }
    if (auto *K = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "MCall";
      if (auto *F = K->getMethodDecl()) o["f"] = calleeRef(F);
      else { o["k"] = "Unsupported"; o["what"] = "ptr-to-member call"; return o; }
      const Expr *B = K->getImplicitObjectArgument();
      o["obj"] = expr(B);
      o["arrow"] = B->getType()->isPointerType();
      o["args"] = argl(K->arg_begin(), K->arg_end());
      return o;
    }
    if (auto *K = dyn_cast<CallExpr>(E)) {
      o["k"] = "Call";
      if (auto *F = K->getDirectCallee()) {
        o["f"] = calleeRef(F);
        if (F->getBuiltinID()) o["builtin"] = true;
      } else
        o["callee"] = expr(K->getCallee());
      o["args"] = argl(K->arg_begin(), K->arg_end());
      return o;
    }
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "Construct";
      o["f"] = calleeRef(K->getConstructor());
      noteRecord(K->getConstructor()->getParent());
      o["copy"] = K->getConstructor()->isCopyConstructor();
      o["move"] = K->getConstructor()->isMoveConstructor();
      o["default"] = K->getConstructor()->isDefaultConstructor();
      o["trivial"] = K->getConstructor()->isTrivial();
      o["implicitctor"] = K->getConstructor()->isImplicit() || K->getConstructor()->isDefaulted();
      o["listinit"] = K->isStdInitListInitialization();
      o["zeroinit"] = K->requiresZeroInitialization();
      o["args"] = argl(K->arg_begin(), K->arg_end());
      return o;
    }
    if (auto *K = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "Unsupported";
      o["what"] = "inherited ctor";
      (void)K;
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      o["k"] = "ValueInit";
      return o;
    }
    if (auto *K = dyn_cast<InitListExpr>(E)) {
      o["k"] = "InitList";
      Array a;
      for (unsigned i = 0; i < K->getNumInits(); ++i) a.push_back(expr(K->getInit(i)));
      o["e"] = std::move(a);
      if (K->hasArrayFiller()) o["filler"] = expr(K->getArrayFiller());
      if (auto *CAT = C.getAsConstantArrayType(K->getType()))
        o["n"] = (int64_t)CAT->getSize().getZExtValue();
      if (auto *RD = K->getType()->getAsCXXRecordDecl()) noteRecord(RD);
      return o;
    }
    if (auto *K = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "New";
      o["at"] = ty(K->getAllocatedType());
      o["array"] = K->isArray();
      o["init"] = exprOrNull(K->getInitializer());
      return o;
    }
    if (auto *K = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "Delete";
      o["e"] = expr(K->getArgument());
      return o;
    }
    if (auto *K = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "Throw";
      o["e"] = exprOrNull(K->getSubExpr());
      if (K->getSubExpr()) o["et"] = ty(K->getSubExpr()->getType());
      return o;
    }
    if (auto *K = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "Lambda";
      Array caps;
      unsigned i = 0;
      auto init = K->capture_init_begin();
      for (auto &c : K->captures()) {
        Object co;
        if (c.capturesThis()) co["kind"] = c.getCaptureKind() == LCK_StarThis ? "starthis" : "this";
        else if (c.capturesVariable()) {
          co["kind"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          auto *VD = dyn_cast<VarDecl>(c.getCapturedVar());
          co["id"] = VD ? id(VD->getCanonicalDecl()) : -1;
          co["name"] = c.getCapturedVar()->getNameAsString();
          if (VD && VD->isInitCapture()) co["initcap"] = true;
        } else co["kind"] = "other";
        if (*init) co["init"] = expr(*init);
        ++init; ++i;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      auto *Op = K->getCallOperator();
      Array ps;
      for (auto *P : Op->parameters())
        ps.push_back(Object{{"id", id(P->getCanonicalDecl())}, {"name", P->getNameAsString()}, {"t", ty(P->getType())}});
      o["params"] = std::move(ps);
      o["ret"] = ty(Op->getReturnType());
      o["body"] = stmt(K->getBody());
      o["mutable"] = K->isMutable();
      return o;
    }
    if (auto *K = dyn_cast<CXXTypeidExpr>(E)) {
      o["k"] = "Typeid";
      if (K->isTypeOperand()) o["to"] = ty(K->getTypeOperand(C));
      else o["e"] = expr(K->getExprOperand());
      return o;
    }
    if (auto *K = dyn_cast<ArrayInitLoopExpr>(E)) {
      o["k"] = "ArrayCopy";
      o["e"] = expr(K->getCommonExpr()->getSourceExpr());
      return o;
    }
    if (auto *K = dyn_cast<OpaqueValueExpr>(E)) {
      if (K->getSourceExpr()) return expr(K->getSourceExpr());
    }
    if (auto *K = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (K->EvaluateAsInt(R, C)) return lit(R.Val.getInt(), E->getType());
    }
    if (auto *K = dyn_cast<StmtExpr>(E)) {
      o["k"] = "StmtExpr";
      o["s"] = stmt(K->getSubStmt());
      return o;
    }
    if (auto *K = dyn_cast<VAArgExpr>(E)) {
      o["k"] = "Unsupported"; o["what"] = "va_arg"; (void)K;
      return o;
    }
    if (auto *K = dyn_cast<CXXRewrittenBinaryOperator>(E))
      return expr(K->getSemanticForm());
    o["k"] = "Unsupported";
    o["what"] = E->getStmtClassName();
    return o;
  }
  // -------------------------------------------------------------- statements
  Value varDecl(const VarDecl *V) {
    Object o{{"id", id(V->getCanonicalDecl())}, {"name", V->getNameAsString()},
             {"t", ty(V->getType())}, {"l", locline(V->getLocation())}};
    if (V->getType()->getAsCXXRecordDecl()) noteRecord(V->getType()->getAsCXXRecordDecl());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getInit()) o["init"] = expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      Array bs;
      for (auto *B : D->bindings())
        bs.push_back(Object{{"id", id(B->getCanonicalDecl())}, {"name", B->getNameAsString()},
                            {"t", ty(B->getType())}, {"e", exprOrNull(B->getBinding())},
                            {"hold", B->getHoldingVar() ? varDecl(B->getHoldingVar()) : Value(nullptr)}});
      o["bindings"] = std::move(bs);
    }
    return o;
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S))
      return Object{{"s", "Expr"}, {"e", expr(E)}, {"l", locline(E->getExprLoc())}};
    Object o{{"l", locline(S->getBeginLoc())}};
    if (auto *K = dyn_cast<CompoundStmt>(S)) {
      o["s"] = "Block";
      Array b;
      for (auto *x : K->body()) b.push_back(stmt(x));
      o["b"] = std::move(b);
      return o;
    }
    if (auto *K = dyn_cast<DeclStmt>(S)) {
      o["s"] = "Decl";
      Array vs;
      for (auto *D : K->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) vs.push_back(varDecl(V));
        else if (auto *R = dyn_cast<CXXRecordDecl>(D)) noteRecord(R);
      }
      o["v"] = std::move(vs);
      return o;
    }
    if (auto *K = dyn_cast<IfStmt>(S)) {
      o["s"] = "If";
      if (K->getInit()) o["init"] = stmt(K->getInit());
      if (K->getConditionVariable()) o["cv"] = varDecl(K->getConditionVariable());
      o["c"] = expr(K->getCond());
      o["then"] = stmt(K->getThen());
      o["else"] = stmt(K->getElse());
      return o;
    }
    if (auto *K = dyn_cast<WhileStmt>(S)) {
      o["s"] = "While";
      if (K->getConditionVariable()) o["cv"] = varDecl(K->getConditionVariable());
      o["c"] = expr(K->getCond());
      o["body"] = stmt(K->getBody());
      return o;
    }
    if (auto *K = dyn_cast<DoStmt>(S)) {
      o["s"] = "Do";
      o["c"] = expr(K->getCond());
      o["body"] = stmt(K->getBody());
      return o;
    }
    if (auto *K = dyn_cast<ForStmt>(S)) {
      o["s"] = "For";
      o["init"] = stmt(K->getInit());
      if (K->getConditionVariable()) o["cv"] = varDecl(K->getConditionVariable());
      o["c"] = exprOrNull(K->getCond());
      o["inc"] = exprOrNull(K->getInc());
      o["body"] = stmt(K->getBody());
      return o;
    }
    if (auto *K = dyn_cast<CXXForRangeStmt>(S)) {
      o["s"] = "RangeFor";
      if (K->getInit()) o["init"] = stmt(K->getInit());
      o["range"] = expr(K->getRangeInit());
      o["var"] = varDecl(K->getLoopVariable());
      o["body"] = stmt(K->getBody());
      return o;
    }
    if (auto *K = dyn_cast<SwitchStmt>(S)) {
      o["s"] = "Switch";
      if (K->getInit()) o["init"] = stmt(K->getInit());
      if (K->getConditionVariable()) o["cv"] = varDecl(K->getConditionVariable());
      o["c"] = expr(K->getCond());
      o["body"] = stmt(K->getBody());
      return o;
    }
    if (auto *K = dyn_cast<CaseStmt>(S)) {
      o["s"] = "Case";
      o["v"] = expr(K->getLHS());
      if (K->getRHS()) o["v2"] = expr(K->getRHS());
      o["sub"] = stmt(K->getSubStmt());
      return o;
    }
    if (auto *K = dyn_cast<DefaultStmt>(S)) {
      o["s"] = "Default";
      o["sub"] = stmt(K->getSubStmt());
      return o;
    }
    if (isa<BreakStmt>(S)) { o["s"] = "Break"; return o; }
    if (isa<ContinueStmt>(S)) { o["s"] = "Continue"; return o; }
    if (isa<NullStmt>(S)) { o["s"] = "Null"; return o; }
    if (auto *K = dyn_cast<ReturnStmt>(S)) {
      o["s"] = "Return";
      o["e"] = exprOrNull(K->getRetValue());
      return o;
    }
    if (auto *K = dyn_cast<CXXTryStmt>(S)) {
      o["s"] = "Try";
      o["body"] = stmt(K->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < K->getNumHandlers(); ++i) {
        auto *H = K->getHandler(i);
        Object h;
        h["t"] = H->getCaughtType().isNull() ? "..." : ty(H->getCaughtType());
        if (H->getExceptionDecl()) h["var"] = varDecl(H->getExceptionDecl());
        h["body"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (auto *K = dyn_cast<AttributedStmt>(S)) return stmt(K->getSubStmt());
    if (auto *K = dyn_cast<LabelStmt>(S)) { o["s"] = "Unsupported"; o["what"] = "label"; (void)K; return o; }
    o["s"] = "Unsupported";
    o["what"] = S->getStmtClassName();
    return o;
  }
  // ------------------------------------------------------------ declarations
  std::vector<const FunctionDecl *> Work;
  void noteFunction(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def)) {
      // implicitly instantiated templates
      if (auto *P = F->getTemplateInstantiationPattern())
        if (inRoot(P->getLocation())) { /* body not instantiated */ }
      return;
    }
    if (!inRoot(Def->getLocation())) return;
    if (Def->isDependentContext()) return;
    if (Seen.insert(Def).second) Work.push_back(Def);
  }
  void noteGlobal(const VarDecl *V) {
    const VarDecl *Def = V->getDefinition();
    if (!Def) { // static member declared elsewhere
      const VarDecl *I = nullptr;
      if (const Expr *E = V->getAnyInitializer(I)) { (void)E; Def = I; }
    }
    std::string q = qname(V);
    if (SeenGlob.count(q)) return;
    if (!Def || !inRoot(Def->getLocation())) return;
    SeenGlob.insert(q);
    Object o{{"q", q}, {"t", ty(Def->getType())}, {"file", locfile(Def->getLocation())}};
    if (Def->getInit()) o["init"] = expr(Def->getInit());
    Globals.push_back(std::move(o));
  }
  void noteRecord(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition();
    if (!R || R->isDependentContext() || !inRoot(R->getLocation())) return;
    std::string q = ty(C.getRecordType(R));
    if (R->isLambda() || !SeenRec.insert(q).second) return;
    Object o{{"q", q}, {"file", locfile(R->getLocation())}};
    Array bases, fields;
    for (auto &b : R->bases()) {
      bases.push_back(ty(b.getType()));
      noteRecord(b.getType()->getAsCXXRecordDecl());
    }
    for (auto *F : R->fields()) {
      Object f{{"name", F->getNameAsString()}, {"t", ty(F->getType())}, {"mutable", F->isMutable()}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      fields.push_back(std::move(f));
      noteRecord(F->getType()->getAsCXXRecordDecl());
    }
    o["bases"] = std::move(bases);
    o["fields"] = std::move(fields);
    o["poly"] = R->isPolymorphic();
    if (auto *D = R->getDestructor()) {
      if (!D->isImplicit() && !D->isDefaulted()) { o["dtor"] = fkey(D); noteFunction(D); }
    }
    bool userCopy = false;
    for (auto *K : R->ctors())
      if (K->isCopyConstructor() && !K->isImplicit() && !K->isDefaulted()) { userCopy = true; o["copyctor"] = fkey(K); noteFunction(K); }
    o["usercopy"] = userCopy;
    for (auto *M : R->methods())
      if (M->isCopyAssignmentOperator() && !M->isImplicit() && !M->isDefaulted()) { o["copyassign"] = fkey(M); noteFunction(M); }
    Records.push_back(std::move(o));
  }
  void emitFunction(const FunctionDecl *F) {
    Object o{{"key", fkey(F)}, {"q", qname(F)}, {"name", F->getNameAsString()},
             {"ret", ty(F->getReturnType())}, {"file", locfile(F->getLocation())},
             {"line", locline(F->getLocation())}};
    Array ps;
    for (auto *P : F->parameters())
      ps.push_back(Object{{"id", id(P->getCanonicalDecl())}, {"name", P->getNameAsString()}, {"t", ty(P->getType())}});
    o["params"] = std::move(ps);
    if (F->isVariadic()) o["variadic"] = true;
    o["endline"] = locline(F->getEndLoc());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(M->getParent()));
      o["static"] = M->isStatic();
      noteRecord(M->getParent());
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      o["copyctor"] = K->isCopyConstructor();
      Array is;
      for (auto *I : K->inits()) {
        Object io;
        if (I->isMemberInitializer()) { io["field"] = I->getMember()->getNameAsString(); io["ft"] = ty(I->getMember()->getType()); }
        else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        else io["other"] = true;
        io["init"] = expr(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["implicit"] = F->isImplicit() || F->isDefaulted();
    o["body"] = stmt(F->getBody());
    Functions.push_back(std::move(o));
  }
  void drain() {
    while (!Work.empty()) {
      auto *F = Work.back();
      Work.pop_back();
      emitFunction(F);
    }
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter &X;
  Visitor(Exporter &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && X.inRoot(F->getLocation()) && !F->isDependentContext()) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F))
        if (M->getParent()->isLambda()) return true;
      X.noteFunction(F);
    }
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->isLocalVarDeclOrParm() && V->isThisDeclarationADefinition() && X.inRoot(V->getLocation()) &&
        !V->getDeclContext()->isDependentContext())
      X.noteGlobal(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && X.inRoot(R->getLocation())) X.noteRecord(R);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) {
      llvm::errs() << "astexport: compile error\n";
      exit(3);
    }
    Exporter X(C);
    Visitor V(X);
    // only descend into declarations of our own files
    for (auto *D : C.getTranslationUnitDecl()->decls()) {
      if (X.inRoot(D->getLocation())) V.TraverseDecl(D);
    }
    X.drain();
    Object o;
    o["functions"] = std::move(X.Functions);
    o["records"] = std::move(X.Records);
    o["globals"] = std::move(X.Globals);
    llvm::outs() << Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
int main(int argc, char **argv) {
  if (argc < 3) { llvm::errs() << "usage: astexport ROOT FILE [flags]\n"; return 2; }
  Root = argv[1];
  std::vector<std::string> flags;
  for (int i = 3; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {argv[2]});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
