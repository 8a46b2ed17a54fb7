// Dumps the type-resolved program (functions, records, enums) of one translation unit as JSON.
// Only declarations whose body is located under one of the given roots are dumped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {
class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C; SourceManager &SM; PrintingPolicy PP; std::unique_ptr<MangleContext> MC;
  std::map<std::string,int> TypeIdx; Array Types;
  std::map<std::string,int> FileIdx; Array Files;
  std::map<const Decl*,int> Ids; int NextId = 1;
  std::set<std::string> Seen;
  Array Funcs, Records, Enums, Globals;
  std::set<const Decl*> SeenRec;
  Dumper(ASTContext &C): C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), MC(ItaniumMangleContext::create(C, C.getDiagnostics())) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = false; PP.FullyQualifiedName = true;
    PP.SuppressDefaultTemplateArgs = true; PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  int type(QualType T) {
    std::string s = T.isNull() ? "" : T.getCanonicalType().getAsString(PP);
    auto it = TypeIdx.find(s);
    if(it != TypeIdx.end()) return it->second;
    int n = TypeIdx.size(); TypeIdx[s] = n; Types.push_back(s); return n;
  }
  int file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string s = SM.getFilename(L).str();
    auto it = FileIdx.find(s);
    if(it != FileIdx.end()) return it->second;
    int n = FileIdx.size(); FileIdx[s] = n; Files.push_back(s); return n;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    if(L.isInvalid()) return false;
    std::string s = SM.getFilename(SM.getExpansionLoc(L)).str();
    for(auto &r : Roots) if(s.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = Ids.find(D); if(it != Ids.end()) return it->second; return Ids[D] = NextId++; }
  std::string mangled(const FunctionDecl *F) {
    std::string s; llvm::raw_string_ostream os(s);
    if(isa<FunctionDecl>(F) && F->getDescribedFunctionTemplate()) return "";
    if(F->isDependentContext()) return "";
    if(auto *CD = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
    else if(auto *DD = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
    else if(MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
    else os << F->getNameAsString();
    os.flush();
    if(F->getFormalLinkage() == Linkage::Internal) {
      const FunctionDecl *def = nullptr;
      if(F->hasBody(def)) { s += "@" + SM.getFilename(SM.getExpansionLoc(def->getLocation())).str(); }
      else s += "@" + SM.getFilename(SM.getExpansionLoc(F->getLocation())).str();
    }
    return s;
  }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP); os.flush(); return s;
  }

  const Expr *strip(const Expr *E) {
    while(true) {
      if(auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if(auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if(auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if(auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if(auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if(auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if(auto *P = dyn_cast<FullExpr>(E)) E = P->getSubExpr();
      else if(auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else break;
    }
    return E;
  }
  Object base(const char *k, const Expr *E) {
    Object o; o["k"] = k; o["l"] = line(E->getBeginLoc()); o["t"] = type(E->getType()); return o;
  }
  Value callee(const FunctionDecl *F) {
    Object o; o["q"] = qname(F); o["m"] = mangled(F);
    o["ret"] = type(F->getReturnType());
    if(F->isNoReturn() || F->hasAttr<NoReturnAttr>()) o["noret"] = true;
    Array ps; for(auto *p : F->parameters()) ps.push_back(type(p->getType())); o["pt"] = std::move(ps);
    if(auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["const"] = M->isConst(); o["virt"] = M->isVirtual(); o["static"] = M->isStatic();
      o["cls"] = qname(M->getParent());
    }
    if(auto *P = F->getType()->getAs<FunctionProtoType>())
      if(isNoexceptExceptionSpec(P->getExceptionSpecType()) && P->canThrow() == CT_Cannot) o["noexc"] = true;
    if(inRoots(F->getLocation())) o["own"] = true;
    return Value(std::move(o));
  }
  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) { Array a; for(auto *e : r) a.push_back(expr(e)); return a; }

  Value expr(const Expr *E0) {
    if(!E0) return nullptr;
    const Expr *E = strip(E0);
    if(auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
      Object o = base("DefaultArg", E); o["e"] = expr(P->getExpr()); return Value(std::move(o));
    }
    if(auto *P = dyn_cast<CastExpr>(E)) {
      CastKind K = P->getCastKind();
      switch(K) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_UserDefinedConversion:
        case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
          return expr(P->getSubExpr());
        default: break;
      }
      Object o = base("Cast", E); o["ck"] = P->getCastKindName(); o["e"] = expr(P->getSubExpr());
      if(isa<ExplicitCastExpr>(P)) o["explicit"] = true;
      if(isa<CXXConstCastExpr>(P)) o["constcast"] = true;
      return Value(std::move(o));
    }
    if(auto *P = dyn_cast<IntegerLiteral>(E)) { Object o = base("Int", E); llvm::SmallString<32> s; P->getValue().toString(s, 10, true); o["v"] = P->getValue().getActiveBits() <= 62 ? Value((int64_t)P->getValue().getZExtValue()) : Value(s.str().str()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CharacterLiteral>(E)) { Object o = base("Int", E); o["v"] = (int64_t)P->getValue(); o["chr"] = true; return Value(std::move(o)); }
    if(auto *P = dyn_cast<FloatingLiteral>(E)) { Object o = base("Float", E); o["v"] = P->getValueAsApproximateDouble(); return Value(std::move(o)); }
    if(auto *P = dyn_cast<StringLiteral>(E)) { Object o = base("Str", E); o["v"] = llvm::json::fixUTF8(P->isOrdinary() ? P->getString() : llvm::StringRef("")); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = base("Bool", E); o["v"] = P->getValue(); return Value(std::move(o)); }
    if(isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { return Value(base("Null", E)); }
    if(isa<CXXThisExpr>(E)) return Value(base("This", E));
    if(auto *P = dyn_cast<DeclRefExpr>(E)) {
      Object o = base("Ref", E); const ValueDecl *D = P->getDecl();
      o["n"] = D->getNameAsString();
      if(auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["rk"] = "enum"; o["q"] = qname(EC); o["v"] = (int64_t)EC->getInitVal().getExtValue(); }
      else if(auto *F = dyn_cast<FunctionDecl>(D)) { o["rk"] = "func"; o["fn"] = callee(F); }
      else if(auto *V = dyn_cast<VarDecl>(D)) {
        o["id"] = id(V);
        if(isa<ParmVarDecl>(V)) o["rk"] = "param";
        else if(V->isLocalVarDecl() && !V->isStaticLocal()) o["rk"] = "local";
        else { o["rk"] = "global"; o["q"] = qname(V); if(V->isStaticLocal()) o["slocal"] = true; o["isconst"] = V->getType().isConstQualified(); if(V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true; }
      }
      else { o["rk"] = "other"; o["id"] = id(D); }
      if(P->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      return Value(std::move(o));
    }
    if(auto *P = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = P->getMemberDecl();
      if(auto *V = dyn_cast<VarDecl>(D)) { Object o = base("Ref", E); o["n"] = V->getNameAsString(); o["id"] = id(V); o["rk"] = "global"; o["q"] = qname(V); o["isconst"] = V->getType().isConstQualified(); return Value(std::move(o)); }
      if(auto *EC = dyn_cast<EnumConstantDecl>(D)) { Object o = base("Ref", E); o["n"] = EC->getNameAsString(); o["rk"] = "enum"; o["q"] = qname(EC); o["v"] = (int64_t)EC->getInitVal().getExtValue(); return Value(std::move(o)); }
      Object o = base("Member", E); o["b"] = expr(P->getBase()); o["n"] = D->getNameAsString(); o["arrow"] = P->isArrow();
      if(auto *F = dyn_cast<FieldDecl>(D)) { o["cls"] = qname(F->getParent()); o["fi"] = (int)F->getFieldIndex(); if(F->isMutable()) o["mutable"] = true; }
      if(auto *F = dyn_cast<FunctionDecl>(D)) o["fn"] = callee(F);
      return Value(std::move(o));
    }
    if(auto *P = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = base("OpCall", E); o["op"] = getOperatorSpelling(P->getOperator());
      if(auto *F = P->getDirectCallee()) { o["fn"] = callee(F); o["ismem"] = isa<CXXMethodDecl>(F); }
      o["a"] = args(P->arguments()); return Value(std::move(o));
    }
    if(auto *P = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = base("MCall", E);
      if(auto *F = P->getMethodDecl()) {
        o["fn"] = callee(F);
        if(auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens())) if(ME->hasQualifier() && F->isVirtual()) o["nonvirt"] = true;
      }
      if(auto *O = P->getImplicitObjectArgument()) { o["o"] = expr(O); }
      o["a"] = args(P->arguments()); return Value(std::move(o));
    }
    if(auto *P = dyn_cast<CallExpr>(E)) {
      Object o = base("Call", E);
      if(auto *F = P->getDirectCallee()) o["fn"] = callee(F); else o["ce"] = expr(P->getCallee());
      o["a"] = args(P->arguments()); return Value(std::move(o));
    }
    if(auto *P = dyn_cast<CXXConstructExpr>(E)) {
      Object o = base("Construct", E); o["fn"] = callee(P->getConstructor());
      const CXXConstructorDecl *CD = P->getConstructor();
      if(CD->isCopyConstructor()) o["copy"] = true;
      if(CD->isMoveConstructor()) o["move"] = true;
      Array a; for(unsigned i = 0; i < P->getNumArgs(); i++) a.push_back(expr(P->getArg(i))); o["a"] = std::move(a);
      return Value(std::move(o));
    }
    if(auto *P = dyn_cast<InitListExpr>(E)) { Object o = base("InitList", E); Array a; for(auto *e : P->inits()) a.push_back(expr(e)); o["a"] = std::move(a); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { Object o = base("StdInit", E); o["e"] = expr(P->getSubExpr()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<UnaryOperator>(E)) { Object o = base("Un", E); o["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str(); if(P->isPostfix()) o["post"] = true; o["e"] = expr(P->getSubExpr()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CompoundAssignOperator>(E)) { Object o = base("Assign", E); o["op"] = P->getOpcodeStr().str(); o["x"] = expr(P->getLHS()); o["y"] = expr(P->getRHS()); o["ct"] = type(P->getComputationResultType()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<BinaryOperator>(E)) { Object o = base(P->isAssignmentOp() ? "Assign" : "Bin", E); o["op"] = P->getOpcodeStr().str(); o["x"] = expr(P->getLHS()); o["y"] = expr(P->getRHS()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<ConditionalOperator>(E)) { Object o = base("Cond", E); o["c"] = expr(P->getCond()); o["x"] = expr(P->getTrueExpr()); o["y"] = expr(P->getFalseExpr()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<ArraySubscriptExpr>(E)) { Object o = base("Index", E); o["b"] = expr(P->getBase()); o["i"] = expr(P->getIdx()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CXXNewExpr>(E)) { Object o = base("New", E); o["nt"] = type(P->getAllocatedType()); o["array"] = P->isArray(); if(P->isArray() && P->getArraySize()) o["n"] = expr(*P->getArraySize()); if(P->getInitializer()) o["init"] = expr(P->getInitializer()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CXXDeleteExpr>(E)) { Object o = base("Delete", E); o["array"] = P->isArrayForm(); o["e"] = expr(P->getArgument()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CXXThrowExpr>(E)) { Object o = base("Throw", E); o["e"] = P->getSubExpr() ? expr(P->getSubExpr()) : Value(nullptr); if(P->getSubExpr()) o["tt"] = type(P->getSubExpr()->getType()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CXXScalarValueInitExpr>(E)) { Object o = base("ZeroInit", E); return Value(std::move(o)); }
    if(isa<ImplicitValueInitExpr>(E)) return Value(base("ZeroInit", E));
    if(auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Object o = base("SizeOf", E); (void)P; return Value(std::move(o)); }
    if(auto *P = dyn_cast<LambdaExpr>(E)) {
      Object o = base("Lambda", E); Array ps; for(auto *p : P->getCallOperator()->parameters()) { Object q; q["id"] = id(p); q["n"] = p->getNameAsString(); q["t"] = type(p->getType()); ps.push_back(std::move(q)); }
      o["ps"] = std::move(ps); o["body"] = stmt(P->getBody());
      Array caps; for(auto &cp : P->captures()) if(cp.capturesVariable()) { Object q; q["id"] = id(cp.getCapturedVar()); q["byref"] = cp.getCaptureKind() == LCK_ByRef; caps.push_back(std::move(q)); }
      o["caps"] = std::move(caps);
      return Value(std::move(o));
    }
    if(auto *P = dyn_cast<StmtExpr>(E)) { Object o = base("StmtExpr", E); o["s"] = stmt(P->getSubStmt()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CXXInheritedCtorInitExpr>(E)) { Object o = base("Construct", E); o["fn"] = callee(P->getConstructor()); o["a"] = Array(); return Value(std::move(o)); }
    if(auto *P = dyn_cast<OpaqueValueExpr>(E)) return expr(P->getSourceExpr());
    if(auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(P->getSemanticForm());
    if(isa<PredefinedExpr>(E)) { Object o = base("Str", E); o["v"] = ""; return Value(std::move(o)); }
    Object o = base("Unknown", E); o["cls"] = E->getStmtClassName();
    Array ch; for(auto *s : E->children()) if(auto *e = dyn_cast_or_null<Expr>(s)) ch.push_back(expr(e)); o["a"] = std::move(ch);
    return Value(std::move(o));
  }
  Value var(const VarDecl *V) {
    Object q; q["id"] = id(V); q["n"] = V->getNameAsString(); q["t"] = type(V->getType()); q["l"] = line(V->getLocation());
    if(V->isStaticLocal()) q["static"] = true;
    if(auto *VT = C.getAsVariableArrayType(V->getType())) q["vla"] = expr(VT->getSizeExpr());
    if(V->getTLSKind() != VarDecl::TLS_None) q["tls"] = true;
    q["init"] = V->getInit() ? expr(V->getInit()) : Value(nullptr);
    return Value(std::move(q));
  }
  Object sbase(const char *k, const Stmt *S) { Object o; o["k"] = k; o["l"] = line(S->getBeginLoc()); return o; }
  Value stmt(const Stmt *S) {
    if(!S) return nullptr;
    if(auto *E = dyn_cast<Expr>(S)) { Object o = sbase("Expr", S); o["e"] = expr(E); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CompoundStmt>(S)) { Object o = sbase("Block", S); Array a; for(auto *s : P->body()) a.push_back(stmt(s)); o["b"] = std::move(a); return Value(std::move(o)); }
    if(auto *P = dyn_cast<DeclStmt>(S)) { Object o = sbase("Decl", S); Array a; for(auto *d : P->decls()) if(auto *V = dyn_cast<VarDecl>(d)) a.push_back(var(V)); o["v"] = std::move(a); return Value(std::move(o)); }
    if(auto *P = dyn_cast<IfStmt>(S)) { Object o = sbase("If", S); if(P->getInit()) o["init"] = stmt(P->getInit()); if(P->getConditionVariable()) o["cv"] = var(P->getConditionVariable()); o["c"] = expr(P->getCond()); o["x"] = stmt(P->getThen()); o["y"] = stmt(P->getElse()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<ForStmt>(S)) { Object o = sbase("For", S); o["init"] = stmt(P->getInit()); o["c"] = expr(P->getCond()); o["inc"] = expr(P->getInc()); o["b"] = stmt(P->getBody()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CXXForRangeStmt>(S)) { Object o = sbase("RangeFor", S); o["v"] = var(P->getLoopVariable()); o["r"] = expr(P->getRangeInit()); o["b"] = stmt(P->getBody()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<WhileStmt>(S)) { Object o = sbase("While", S); if(P->getConditionVariable()) o["cv"] = var(P->getConditionVariable()); o["c"] = expr(P->getCond()); o["b"] = stmt(P->getBody()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<DoStmt>(S)) { Object o = sbase("Do", S); o["c"] = expr(P->getCond()); o["b"] = stmt(P->getBody()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<ReturnStmt>(S)) { Object o = sbase("Return", S); o["e"] = expr(P->getRetValue()); return Value(std::move(o)); }
    if(isa<BreakStmt>(S)) return Value(sbase("Break", S));
    if(isa<ContinueStmt>(S)) return Value(sbase("Continue", S));
    if(isa<NullStmt>(S)) return Value(sbase("Nop", S));
    if(auto *P = dyn_cast<AttributedStmt>(S)) return stmt(P->getSubStmt());
    if(auto *P = dyn_cast<LabelStmt>(S)) { Object o = sbase("Label", S); o["b"] = stmt(P->getSubStmt()); return Value(std::move(o)); }
    if(isa<GotoStmt>(S)) return Value(sbase("Goto", S));
    if(auto *P = dyn_cast<CXXTryStmt>(S)) {
      Object o = sbase("Try", S); o["b"] = stmt(P->getTryBlock()); Array h;
      for(unsigned i = 0; i < P->getNumHandlers(); i++) { auto *c = P->getHandler(i); Object q; q["t"] = c->getExceptionDecl() ? type(c->getCaughtType()) : -1; if(c->getExceptionDecl()) q["v"] = var(c->getExceptionDecl()); q["b"] = stmt(c->getHandlerBlock()); h.push_back(std::move(q)); }
      o["h"] = std::move(h); return Value(std::move(o));
    }
    if(auto *P = dyn_cast<SwitchStmt>(S)) { Object o = sbase("Switch", S); o["c"] = expr(P->getCond()); o["b"] = stmt(P->getBody()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CaseStmt>(S)) { Object o = sbase("Case", S); o["v"] = expr(P->getLHS()); Expr::EvalResult R; if(P->getLHS()->EvaluateAsInt(R, C)) o["cv"] = (int64_t)R.Val.getInt().getExtValue(); o["b"] = stmt(P->getSubStmt()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<DefaultStmt>(S)) { Object o = sbase("Default", S); o["b"] = stmt(P->getSubStmt()); return Value(std::move(o)); }
    if(auto *P = dyn_cast<CapturedStmt>(S)) return stmt(P->getCapturedStmt());
    if(auto *P = dyn_cast<OMPExecutableDirective>(S)) {
      Object o = sbase("OMP", S); o["d"] = llvm::omp::getOpenMPDirectiveName(P->getDirectiveKind()).str();
      Array cl;
      for(auto *c : P->clauses()) {
        if(!c || c->isImplicit()) continue;
        Object q; q["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        Array vs;
        auto addv = [&](const Expr *e) { const Expr *x = strip(e); if(auto *D = dyn_cast<DeclRefExpr>(x)) vs.push_back(id(D->getDecl())); };
        if(auto *x = dyn_cast<OMPPrivateClause>(c)) for(auto *e : x->varlists()) addv(e);
        if(auto *x = dyn_cast<OMPFirstprivateClause>(c)) for(auto *e : x->varlists()) addv(e);
        if(auto *x = dyn_cast<OMPLastprivateClause>(c)) for(auto *e : x->varlists()) addv(e);
        if(auto *x = dyn_cast<OMPSharedClause>(c)) for(auto *e : x->varlists()) addv(e);
        if(auto *x = dyn_cast<OMPReductionClause>(c)) { for(auto *e : x->varlists()) addv(e); q["op"] = x->getNameInfo().getAsString(); Array ts; for(auto *e : x->varlists()) ts.push_back(type(e->getType())); q["ts"] = std::move(ts); }
        if(auto *x = dyn_cast<OMPCollapseClause>(c)) { Expr::EvalResult R; if(x->getNumForLoops()->EvaluateAsInt(R, C)) q["n"] = (int64_t)R.Val.getInt().getExtValue(); }
        q["v"] = std::move(vs); cl.push_back(std::move(q));
      }
      o["cl"] = std::move(cl);
      o["b"] = P->hasAssociatedStmt() ? stmt(isOpenMPParallelDirective(P->getDirectiveKind()) && P->getInnermostCapturedStmt() ? P->getInnermostCapturedStmt()->getCapturedStmt() : P->getRawStmt()) : Value(nullptr);
      return Value(std::move(o));
    }
    Object o = sbase("UnknownStmt", S); o["cls"] = S->getStmtClassName(); return Value(std::move(o));
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if(!F->isThisDeclarationADefinition()) return true;
    if(F->isDependentContext() || F->getDescribedFunctionTemplate()) return true;
    if(!inRoots(F->getLocation())) return true;
    if(auto *M = dyn_cast<CXXMethodDecl>(F)) if(M->getParent()->isLambda()) return true;
    bool implicitDef = F->isDefaulted() || F->isImplicit();
    std::string m = mangled(F);
    if(!Seen.insert(m).second) return true;
    Object o; o["q"] = qname(F); o["m"] = m; o["f"] = file(F->getLocation()); o["l"] = line(F->getLocation()); o["el"] = line(F->getEndLoc());
    o["ret"] = type(F->getReturnType()); o["main"] = SM.isInMainFile(SM.getExpansionLoc(F->getLocation()));
    o["internal"] = F->getFormalLinkage() == Linkage::Internal;
    if(implicitDef) o["implicit"] = true;
    if(F->isTemplateInstantiation()) o["inst"] = true;
    Array ps;
    for(auto *p : F->parameters()) { Object q; q["id"] = id(p); q["n"] = p->getNameAsString(); q["t"] = type(p->getType()); if(p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) q["def"] = expr(p->getDefaultArg()); ps.push_back(std::move(q)); }
    o["ps"] = std::move(ps);
    if(auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent()); o["const"] = M->isConst(); o["static"] = M->isStatic(); o["virt"] = M->isVirtual();
      o["access"] = (int)M->getAccess();
      Array ov; for(auto *x : M->overridden_methods()) ov.push_back(mangled(x)); o["ov"] = std::move(ov);
      if(M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if(M->isMoveAssignmentOperator()) o["moveassign"] = true;
    }
    if(auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true; if(CD->isCopyConstructor()) o["copyctor"] = true; if(CD->isMoveConstructor()) o["movector"] = true;
      Array in;
      for(auto *i : CD->inits()) {
        Object q; if(i->isAnyMemberInitializer()) q["n"] = i->getAnyMember()->getNameAsString(); else if(i->isBaseInitializer()) q["base"] = type(QualType(i->getBaseClass(), 0)); else q["deleg"] = true;
        q["w"] = i->isWritten(); q["e"] = expr(i->getInit()); in.push_back(std::move(q));
      }
      o["inits"] = std::move(in);
    }
    if(isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = stmt(F->getBody());
    Funcs.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if(isa<ParmVarDecl>(V) || V->isLocalVarDecl() || V->getType()->isDependentType()) return true;
    if(V->getDeclContext()->isDependentContext()) return true;
    if(!inRoots(V->getLocation())) return true;
    if(!V->isFileVarDecl() && !V->isStaticDataMember()) return true;
    Object q; q["q"] = qname(V); q["t"] = type(V->getType()); q["const"] = V->getType().isConstQualified(); q["l"] = line(V->getLocation()); q["f"] = file(V->getLocation());
    q["init"] = V->getInit() ? expr(V->getInit()) : Value(nullptr);
    q["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    Globals.push_back(std::move(q)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if(!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if(!inRoots(R->getLocation())) return true;
    if(!SeenRec.insert(R->getCanonicalDecl()).second) return true;
    Object o; o["q"] = qname(R); o["l"] = line(R->getLocation()); o["f"] = file(R->getLocation());
    Array fs; for(auto *f : R->fields()) { Object q; q["n"] = f->getNameAsString(); q["t"] = type(f->getType()); q["l"] = line(f->getLocation()); q["mutable"] = f->isMutable(); q["hasinit"] = f->hasInClassInitializer(); if(f->hasInClassInitializer() && f->getInClassInitializer()) q["init"] = expr(f->getInClassInitializer()); fs.push_back(std::move(q)); }
    o["fields"] = std::move(fs);
    Array bs; for(auto &b : R->bases()) bs.push_back(type(b.getType())); o["bases"] = std::move(bs);
    Array ms;
    for(auto *m : R->methods()) { Object q; q["q"] = qname(m); q["m"] = mangled(m); q["n"] = m->getNameAsString(); q["pure"] = m->isPureVirtual(); q["virt"] = m->isVirtual(); q["const"] = m->isConst(); q["static"] = m->isStatic(); q["access"] = (int)m->getAccess(); q["ret"] = type(m->getReturnType()); q["user"] = m->isUserProvided(); q["implicit"] = m->isImplicit(); q["deleted"] = m->isDeleted();
      Array ov; for(auto *x : m->overridden_methods()) ov.push_back(mangled(x)); q["ov"] = std::move(ov);
      Array ps; for(auto *p : m->parameters()) { Object z; z["n"] = p->getNameAsString(); z["t"] = type(p->getType()); ps.push_back(std::move(z)); } q["ps"] = std::move(ps); ms.push_back(std::move(q)); }
    o["methods"] = std::move(ms);
    o["trivcopy"] = R->hasTrivialCopyConstructor(); o["usercopy"] = R->hasUserDeclaredCopyConstructor(); o["userassign"] = R->hasUserDeclaredCopyAssignment();
    Records.push_back(std::move(o)); return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if(!E->isThisDeclarationADefinition() || !inRoots(E->getLocation())) return true;
    Object o; o["q"] = qname(E); o["l"] = line(E->getLocation()); o["f"] = file(E->getLocation()); Array a;
    for(auto *c : E->enumerators()) { Object q; q["n"] = c->getNameAsString(); q["v"] = (int64_t)c->getInitVal().getExtValue(); a.push_back(std::move(q)); }
    o["e"] = std::move(a); Enums.push_back(std::move(o)); return true;
  }
  Array Decls;
  std::set<std::string> SeenDecl;
  // Free function declarations under the roots (public API of the headers)
  void declare(FunctionDecl *F) {
    if(F->isDependentContext() || F->getDescribedFunctionTemplate() || !inRoots(F->getLocation())) return;
    if(F->isThisDeclarationADefinition() && SM.isInMainFile(SM.getExpansionLoc(F->getLocation()))) return;
    std::string m = mangled(F); if(!SeenDecl.insert(m).second) return;
    Object o; o["q"] = qname(F); o["m"] = m; o["f"] = file(F->getLocation()); o["l"] = line(F->getLocation()); o["ret"] = type(F->getReturnType());
    Array ps; for(auto *p : F->parameters()) { Object q; q["n"] = p->getNameAsString(); q["t"] = type(p->getType()); q["def"] = p->hasDefaultArg(); ps.push_back(std::move(q)); }
    o["ps"] = std::move(ps);
    if(auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = qname(M->getParent()); o["access"] = (int)M->getAccess(); }
    Decls.push_back(std::move(o));
  }
};
class DeclVisitor : public RecursiveASTVisitor<DeclVisitor> {
public:
  Dumper &D; DeclVisitor(Dumper &D): D(D) {}
  bool VisitFunctionDecl(FunctionDecl *F) { D.declare(F); return true; }
};
class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    DeclVisitor V(D);
    for(auto *d : C.getTranslationUnitDecl()->decls()) {
      if(!D.inRoots(d->getLocation())) continue;
      D.TraverseDecl(d);
      V.TraverseDecl(d);
    }
    Object o; o["funcs"] = std::move(D.Funcs); o["records"] = std::move(D.Records); o["enums"] = std::move(D.Enums); o["globals"] = std::move(D.Globals); o["decls"] = std::move(D.Decls);
    o["types"] = std::move(D.Types); o["files"] = std::move(D.Files);
    o["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec);
    os << Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
}
int main(int argc, const char **argv) {
  // astdump OUT FILE ROOT[,ROOT] -- flags...
  if(argc < 4) return 3;
  OutPath = argv[1]; std::string F = argv[2];
  { std::string s = argv[3]; size_t p = 0; while(p <= s.size()) { size_t q = s.find(',', p); if(q == std::string::npos) q = s.size(); Roots.push_back(s.substr(p, q-p)); p = q+1; } }
  std::vector<std::string> flags; for(int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {F});
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-resource-dir=" RESDIR, tooling::ArgumentInsertPosition::BEGIN));
  auto fac = tooling::newFrontendActionFactory<Action>();
  return T.run(fac.get());
}
