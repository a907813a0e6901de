// gpx - fact extractor for the GridPACK static analyses.
// Parses one translation unit and writes, one JSON document per line, the
// resolved syntax trees of every function defined under the repository root
// together with class and enum descriptions.  It takes no decision itself.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;

static std::string RepoRoot;   // "/repo/src/"
static std::string OutPath;
static std::vector<std::string> EmitPrefixes; // files whose functions are emitted
static bool EmitInst = false;  // emit template instantiations
static std::set<std::string> AllFiles;
static unsigned NErr = 0;

static long lval(const llvm::APSInt &v) { return (long)v.extOrTrunc(64).getRawData()[0]; }
static std::string jstr(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    case '\r': o += "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += (char)c;
    }
  }
  return o + "\"";
}

static std::string realPath(const SourceManager &SM, SourceLocation L) {
  L = SM.getExpansionLoc(L);
  if (L.isInvalid()) return "";
  FileID F = SM.getFileID(L);
  auto FE = SM.getFileEntryRefForID(F);
  if (!FE) return "";
  static std::map<unsigned, std::string> cache;
  unsigned h = FE->getFileEntry().getUID();
  auto it = cache.find(h);
  if (it != cache.end()) return it->second;
  llvm::SmallString<256> rp;
  std::string s;
  if (!llvm::sys::fs::real_path(FE->getName(), rp)) s = rp.str().str();
  else s = FE->getName().str();
  cache[h] = s;
  return s;
}
static bool inRepo(const std::string &p) { return p.compare(0, RepoRoot.size(), RepoRoot) == 0; }
static std::string rel(const std::string &p) { return inRepo(p) ? p.substr(RepoRoot.size()) : p; }
static bool wanted(const std::string &p) {
  if (!inRepo(p)) return false;
  std::string r = rel(p);
  for (auto &e : EmitPrefixes) if (r.compare(0, e.size(), e) == 0) return true;
  return false;
}

class Emitter {
  ASTContext &C;
  const SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> locals;
  int nlocal = 0;
public:
  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressInlineNamespace = true;
  }
  void reset() { locals.clear(); nlocal = 0; }
  std::string o;
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  // qualified name without template arguments or inline namespaces
  std::string qn(const NamedDecl *D) {
    std::vector<std::string> parts;
    parts.push_back(nameOf(D));
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *ND = dyn_cast<NamespaceDecl>(DC)) {
        if (!ND->isInline() && !ND->isAnonymousNamespace()) parts.push_back(ND->getNameAsString());
      } else if (auto *RD = dyn_cast<RecordDecl>(DC)) {
        std::string n = RD->getNameAsString();
        if (n.empty()) { if (auto *TD = RD->getTypedefNameForAnonDecl()) n = TD->getNameAsString(); else n = "(anon)"; }
        parts.push_back(n);
      } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(nameOf(FD));
      }
      DC = DC->getParent();
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!r.empty()) r += "::"; r += *it; }
    return r;
  }
  std::string nameOf(const NamedDecl *D) {
    if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) return CD->getParent()->getNameAsString();
    if (auto *CD = dyn_cast<CXXDestructorDecl>(D)) return "~" + CD->getParent()->getNameAsString();
    if (isa<CXXConversionDecl>(D)) return "operator " + ty(cast<CXXConversionDecl>(D)->getConversionType());
    return D->getNameAsString();
  }
  const FunctionDecl *pattern(const FunctionDecl *F) {
    if (auto *P = F->getTemplateInstantiationPattern()) return P;
    return F;
  }
  std::string fid(const FunctionDecl *F) {
    const FunctionDecl *P = pattern(F);
    std::string s = qn(P) + "(";
    bool first = true;
    for (auto *p : P->parameters()) { if (!first) s += ","; first = false; s += ty(p->getType()); }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(P)) if (M->isConst()) s += "c";
    return s;
  }
  int lid(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = locals.find(D);
    if (it != locals.end()) return it->second;
    return locals[D] = nlocal++;
  }
  void kv(const char *k, const std::string &v) { o += ",\""; o += k; o += "\":"; o += jstr(v); }
  void kn(const char *k, long v) { o += ",\""; o += k; o += "\":"; o += std::to_string(v); }
  void open(const char *k, SourceLocation L) { o += "{\"k\":\""; o += k; o += "\",\"l\":"; o += std::to_string(line(L)); }
  void openS(const char *k, const Stmt *S) { open(k, S->getBeginLoc()); }
  void close() { o += "}"; }
  template <class R> void kids(const R &r, const char *name = "c") {
    o += ",\""; o += name; o += "\":[";
    bool first = true;
    for (const Stmt *S : r) { if (!first) o += ","; first = false; stmt(S); }
    o += "]";
  }
  void kid(const char *k, const Stmt *S) { if (!S) return; o += ",\""; o += k; o += "\":"; stmt(S); }
  void type(const Expr *E) { kv("t", ty(E->getType())); }

  void varDecl(const VarDecl *V) {
    open("Var", V->getLocation());
    kv("n", V->getNameAsString()); kn("id", lid(V)); kv("t", ty(V->getType()));
    if (auto *AT = dyn_cast<VariableArrayType>(V->getType().getTypePtr())) { if (AT->getSizeExpr()) kid("vla", AT->getSizeExpr()); }
    if (V->isStaticLocal()) kn("static", 1);
    const Expr *I = V->getInit();
    if (I) {
      kid("i", I);
    }
    close();
  }
  void declRef(const ValueDecl *D, const Expr *E) {
    openS("Ref", E);
    kv("n", D->getNameAsString());
    if (isa<EnumConstantDecl>(D)) {
      kv("d", "enum"); kv("q", qn(D));
      kn("v", lval(cast<EnumConstantDecl>(D)->getInitVal()));
    } else if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      kv("d", "fn"); kv("q", qn(pattern(FD))); kv("f", fid(FD));
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (isa<ParmVarDecl>(V)) { kv("d", "par"); kn("id", lid(V)); }
      else if (V->isLocalVarDecl()) { kv("d", "loc"); kn("id", lid(V)); }
      else if (V->isStaticDataMember()) { kv("d", "sfield"); kv("q", qn(V)); }
      else { kv("d", "glob"); kv("q", qn(V)); }
      if (V->getType().isConstQualified() && E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C)) kn("v", lval(R.Val.getInt()));
      }
    } else kv("d", "other");
    type(E);
    close();
  }
  void callee(const FunctionDecl *F) {
    kv("q", qn(pattern(F))); kv("f", fid(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isVirtual()) kn("virt", 1); if (M->isStatic()) kn("stat", 1); }
    // parameter passing: which params are non-const pointer/reference (may be written)
    std::string w;
    for (auto *p : F->parameters()) {
      QualType T = p->getType();
      char c = 'v';
      if (T->isReferenceType()) c = T->getPointeeType().isConstQualified() ? 'v' : 'r';
      else if (T->isPointerType()) c = T->getPointeeType().isConstQualified() ? 'c' : 'p';
      else if (T->isArrayType()) c = 'p';
      w += c;
    }
    kv("w", w);
  }
  void stmt(const Stmt *S) {
    if (!S) { o += "null"; return; }
    // transparent wrappers
    if (auto *E = dyn_cast<ParenExpr>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
      if (E->getCastKind() == CK_FloatingToIntegral || E->getCastKind()==CK_IntegralCast || E->getCastKind()==CK_IntegralToFloating || E->getCastKind()==CK_FloatingCast) {
        // record narrowing conversions on a light wrapper
        if (E->getCastKind() == CK_FloatingToIntegral) { openS("ICast", E); type(E); kid("e", E->getSubExpr()); close(); return; }
      }
      return stmt(E->getSubExpr());
    }
    if (auto *E = dyn_cast<ExprWithCleanups>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<ConstantExpr>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return stmt(E->getReplacement());
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { openS("DefArg", E); type(E); kid("e", E->getExpr()); close(); return; }
    if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) return stmt(E->getExpr());
    if (auto *E = dyn_cast<CXXFunctionalCastExpr>(S)) {
      // T(x) where it builds a class object: look through to the constructor
      if (E->getCastKind() == CK_ConstructorConversion) return stmt(E->getSubExpr());
    }
    if (auto *E = dyn_cast<CXXStdInitializerListExpr>(S)) return stmt(E->getSubExpr());
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());

    if (auto *X = dyn_cast<CompoundStmt>(S)) { openS("Blk", S); kids(X->body()); close(); return; }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      openS("If", S); kid("init", X->getInit());
      if (X->getConditionVariable()) { o += ",\"cv\":"; varDecl(X->getConditionVariable()); }
      kid("cond", X->getCond()); kid("then", X->getThen()); kid("else", X->getElse()); close(); return; }
    if (auto *X = dyn_cast<ForStmt>(S)) { openS("For", S); kid("init", X->getInit()); kid("cond", X->getCond()); kid("inc", X->getInc()); kid("body", X->getBody()); close(); return; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { openS("While", S);
      if (X->getConditionVariable()) { o += ",\"cv\":"; varDecl(X->getConditionVariable()); }
      kid("cond", X->getCond()); kid("body", X->getBody()); close(); return; }
    if (auto *X = dyn_cast<DoStmt>(S)) { openS("Do", S); kid("cond", X->getCond()); kid("body", X->getBody()); close(); return; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { openS("RFor", S);
      o += ",\"var\":"; varDecl(X->getLoopVariable());
      kid("range", X->getRangeInit()); kid("body", X->getBody()); close(); return; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { openS("Switch", S); kid("cond", X->getCond()); kid("body", X->getBody()); close(); return; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { openS("Case", S); kid("e", X->getLHS());
      if (!X->getLHS()->isValueDependent()) { Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) kn("v", lval(R.Val.getInt())); }
      kid("s", X->getSubStmt()); close(); return; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { openS("Default", S); kid("s", X->getSubStmt()); close(); return; }
    if (isa<BreakStmt>(S)) { openS("Break", S); close(); return; }
    if (isa<ContinueStmt>(S)) { openS("Continue", S); close(); return; }
    if (isa<NullStmt>(S)) { openS("Null", S); close(); return; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { openS("Ret", S); kid("e", X->getRetValue()); close(); return; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { openS("Goto", S); kv("n", X->getLabel()->getNameAsString()); close(); return; }
    if (auto *X = dyn_cast<LabelStmt>(S)) { openS("Label", S); kv("n", X->getDecl()->getNameAsString()); kid("s", X->getSubStmt()); close(); return; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      openS("Decl", S); o += ",\"c\":["; bool first = true;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { if (!first) o += ","; first = false; varDecl(V); }
      o += "]"; close(); return; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      openS("Try", S); kid("body", X->getTryBlock()); o += ",\"h\":[";
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        if (i) o += ","; const CXXCatchStmt *H = X->getHandler(i);
        openS("Catch", H); if (H->getExceptionDecl()) { o += ",\"var\":"; varDecl(H->getExceptionDecl()); }
        kid("body", H->getHandlerBlock()); close(); }
      o += "]"; close(); return; }
    // ---- expressions
    if (auto *E = dyn_cast<IntegerLiteral>(S)) { openS("Int", E); o += ",\"v\":" + llvm::toString(E->getValue(), 10, true); close(); return; }
    if (auto *E = dyn_cast<CharacterLiteral>(S)) { openS("Int", E); kn("v", E->getValue()); kn("chr", 1); close(); return; }
    if (auto *E = dyn_cast<FloatingLiteral>(S)) { openS("Flt", E); llvm::SmallString<32> b; E->getValue().toString(b); kv("v", b.str().str()); close(); return; }
    if (auto *E = dyn_cast<StringLiteral>(S)) { openS("Str", E); kv("v", E->isOrdinary() ? E->getString().str() : std::string("?")); close(); return; }
    if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) { openS("Bool", E); kn("v", E->getValue()); close(); return; }
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { openS("Nul", S); close(); return; }
    if (auto *E = dyn_cast<DeclRefExpr>(S)) return declRef(E->getDecl(), E);
    if (auto *E = dyn_cast<MemberExpr>(S)) {
      openS("Mem", E); const ValueDecl *D = E->getMemberDecl();
      kv("n", nameOf(D)); kv("q", qn(D)); if (E->isArrow()) kn("ar", 1); type(E);
      if (auto *FD = dyn_cast<FunctionDecl>(D)) kv("f", fid(FD));
      kid("b", E->getBase()); close(); return; }
    if (isa<CXXThisExpr>(S)) { openS("This", S); close(); return; }
    if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      openS("MCall", E);
      if (auto *M = E->getMethodDecl()) { kv("n", nameOf(M)); callee(M); }
      else kv("n", "?");
      type(E);
      const Expr *Obj = E->getImplicitObjectArgument();
      if (Obj) kid("o", Obj);
      if (auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) if (ME->hasQualifier()) kn("qual", 1);
      kids(E->arguments(), "a"); close(); return; }
    if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      openS("OCall", E); kv("n", std::string("operator") + getOperatorSpelling(E->getOperator()));
      if (auto *F = E->getDirectCallee()) callee(F);
      type(E); kids(E->arguments(), "a"); close(); return; }
    if (auto *E = dyn_cast<CallExpr>(S)) {
      openS("Call", E);
      if (auto *F = E->getDirectCallee()) { kv("n", nameOf(F)); callee(F); }
      else if (auto *U = dyn_cast<UnresolvedLookupExpr>(E->getCallee()->IgnoreParenImpCasts())) { kv("n", U->getName().getAsString()); kn("unres", 1); }
      else if (auto *U = dyn_cast<CXXDependentScopeMemberExpr>(E->getCallee()->IgnoreParenImpCasts())) {
        kv("n", U->getMember().getAsString()); kn("unres", 1); if (!U->isImplicitAccess()) kid("o", U->getBase()); }
      else if (auto *U = dyn_cast<UnresolvedMemberExpr>(E->getCallee()->IgnoreParenImpCasts())) {
        kv("n", U->getMemberName().getAsString()); kn("unres", 1);
        if (U->getNumDecls() > 0) { const NamedDecl *D = (*U->decls_begin())->getUnderlyingDecl(); kv("q", qn(D)); }
        if (!U->isImplicitAccess()) kid("o", U->getBase()); }
      else if (auto *U = dyn_cast<DependentScopeDeclRefExpr>(E->getCallee()->IgnoreParenImpCasts())) { kv("n", U->getDeclName().getAsString()); kn("unres", 1); }
      else { kv("n", "?"); kid("fe", E->getCallee()); }
      type(E); kids(E->arguments(), "a"); close(); return; }
    if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      // elide copy construction from temporaries / copies: keep as Ctor
      openS("Ctor", E); kv("n", E->getConstructor()->getParent()->getNameAsString()); callee(E->getConstructor()); type(E);
      if (E->getConstructor()->isCopyOrMoveConstructor()) kn("copy", 1);
      kids(E->arguments(), "a"); close(); return; }
    if (auto *E = dyn_cast<CXXUnresolvedConstructExpr>(S)) { openS("Ctor", E); kv("n", ty(E->getTypeAsWritten())); kn("unres", 1); type(E); kids(E->arguments(), "a"); close(); return; }
    if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      openS("New", E); kv("t", ty(E->getAllocatedType())); if (E->isArray()) { kn("arr", 1); if (E->getArraySize()) kid("sz", *E->getArraySize()); }
      kid("i", E->getInitializer()); close(); return; }
    if (auto *E = dyn_cast<CXXDeleteExpr>(S)) { openS("Del", E); if (E->isArrayForm()) kn("arr", 1); kid("e", E->getArgument()); close(); return; }
    if (auto *E = dyn_cast<BinaryOperator>(S)) {
      openS(E->isAssignmentOp() ? "Asg" : "Bin", E); kv("op", E->getOpcodeStr().str()); type(E);
      kid("x", E->getLHS()); kid("y", E->getRHS()); close(); return; }
    if (auto *E = dyn_cast<UnaryOperator>(S)) {
      openS("Un", E); std::string op = UnaryOperator::getOpcodeStr(E->getOpcode()).str(); if (E->isPostfix()) op = "p" + op;
      kv("op", op); type(E); kid("e", E->getSubExpr()); close(); return; }
    if (auto *E = dyn_cast<ArraySubscriptExpr>(S)) { openS("Sub", E); type(E); kid("b", E->getBase()); kid("i", E->getIdx()); close(); return; }
    if (auto *E = dyn_cast<AbstractConditionalOperator>(S)) { openS("Cnd", E); type(E); kid("cond", E->getCond()); kid("x", E->getTrueExpr()); kid("y", E->getFalseExpr()); close(); return; }
    if (auto *E = dyn_cast<ExplicitCastExpr>(S)) { openS("Cast", E); type(E);
      const char *ck = "c"; if (isa<CXXStaticCastExpr>(E)) ck = "static"; else if (isa<CXXDynamicCastExpr>(E)) ck = "dynamic"; else if (isa<CXXReinterpretCastExpr>(E)) ck = "reint"; else if (isa<CXXConstCastExpr>(E)) ck = "const";
      kv("ck", ck); kid("e", E->getSubExpr()); close(); return; }
    if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { openS("Szof", E); kv("of", ty(E->getTypeOfArgument()));
      if (!E->isValueDependent()) { Expr::EvalResult R; if (E->EvaluateAsInt(R, C)) kn("v", lval(R.Val.getInt())); } close(); return; }
    if (auto *E = dyn_cast<InitListExpr>(S)) { openS("IL", E); type(E); kids(E->inits()); close(); return; }
    if (auto *E = dyn_cast<ParenListExpr>(S)) { openS("PL", E); std::vector<const Stmt*> v; for (unsigned i=0;i<E->getNumExprs();i++) v.push_back(E->getExpr(i)); kids(v); close(); return; }
    if (auto *E = dyn_cast<CXXThrowExpr>(S)) { openS("Throw", E); kid("e", E->getSubExpr()); close(); return; }
    if (auto *E = dyn_cast<CXXDependentScopeMemberExpr>(S)) { openS("Mem", E); kv("n", E->getMember().getAsString()); kn("unres", 1); if (E->isArrow()) kn("ar", 1); if (!E->isImplicitAccess()) kid("b", E->getBase()); else { o += ",\"b\":{\"k\":\"This\",\"l\":0}"; } close(); return; }
    if (auto *E = dyn_cast<UnresolvedLookupExpr>(S)) { openS("Ref", E); kv("n", E->getName().getAsString()); kv("d", "unres"); close(); return; }
    if (auto *E = dyn_cast<LambdaExpr>(S)) { openS("Lam", E); kid("body", E->getBody()); close(); return; }
    if (auto *E = dyn_cast<CXXScalarValueInitExpr>(S)) { openS("Zero", E); type(E); close(); return; }
    if (auto *E = dyn_cast<ImplicitValueInitExpr>(S)) { openS("Zero", E); type(E); close(); return; }
    if (auto *E = dyn_cast<CXXTypeidExpr>(S)) { openS("Oth", E); kv("ck", "typeid"); close(); return; }
    openS("Oth", S); kv("ck", S->getStmtClassName()); kids(S->children()); close();
  }

  void function(const FunctionDecl *F, const std::string &file, llvm::raw_ostream &os) {
    reset(); o.clear();
    const FunctionDecl *P = pattern(F);
    o += "{\"k\":\"Fn\"";
    kv("f", fid(F)); kv("q", qn(P)); kv("n", nameOf(F)); kv("file", rel(file));
    kn("l", line(F->getLocation())); kn("l0", line(F->getBeginLoc())); kn("l1", line(F->getEndLoc()));
    kv("t", ty(F->getReturnType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      kv("cls", qn(M->getParent())); 
      if (M->isVirtual()) kn("virt", 1); if (M->isStatic()) kn("stat", 1); if (M->isConst()) kn("const", 1);
      kn("acc", (int)M->getAccess());
      if (M->size_overridden_methods()) { o += ",\"ovr\":["; bool first = true;
        for (auto *X : M->overridden_methods()) { if (!first) o += ","; first = false; o += jstr(fid(X)); } o += "]"; }
    }
    if (isa<CXXConstructorDecl>(F)) kv("sp", "ctor");
    if (isa<CXXDestructorDecl>(F)) kv("sp", "dtor");
    bool dep = F->isDependentContext();
    if (dep) kn("tp", 1);
    if (P != F) {
      kn("ti", 1);
      std::string ta;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) ta = ty(C.getTypeDeclType(M->getParent()));
      if (auto *TA = F->getTemplateSpecializationArgs()) { llvm::raw_string_ostream s(ta); s << "|"; for (auto &A : TA->asArray()) { A.print(PP, s, false); s << ","; } }
      kv("inst", ta);
    }
    o += ",\"ps\":["; bool first = true;
    for (auto *p : F->parameters()) { if (!first) o += ","; first = false; o += "{\"n\":" + jstr(p->getNameAsString()) + ",\"id\":" + std::to_string(lid(p)) + ",\"t\":" + jstr(ty(p->getType())) + "}"; }
    o += "]}";
    os << o << "\t"; o.clear();
    o += "{\"k\":\"Body\"";
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o += ",\"inits\":["; first = true;
      for (auto *I : CD->inits()) {
        if (!first) o += ","; first = false;
        o += "{\"l\":" + std::to_string(line(I->getSourceLocation()));
        if (I->isMemberInitializer()) { kv("fld", qn(I->getMember())); kv("n", I->getMember()->getNameAsString()); }
        else if (I->isBaseInitializer()) kv("base", ty(QualType(I->getBaseClass(), 0)));
        if (I->isWritten()) kn("w", 1);
        kid("e", I->getInit()); o += "}";
      }
      o += "]";
    }
    kid("b", F->getBody());
    o += "}";
    os << o << "\n";
  }
  void record(const CXXRecordDecl *R, const std::string &file, llvm::raw_ostream &os) {
    reset(); o.clear();
    o += "{\"k\":\"Rec\""; 
    std::string n = qn(R);
    if (R->getNameAsString().empty()) { if (auto *TD = R->getTypedefNameForAnonDecl()) n = qn(TD); }
    kv("q", n); kv("file", rel(file)); kn("l", line(R->getLocation()));
    if (R->isDependentContext()) kn("tp", 1);
    o += ",\"bases\":["; bool first = true;
    for (auto &B : R->bases()) { if (!first) o += ","; first = false;
      auto *BR = B.getType()->getAsCXXRecordDecl();
      std::string bn; if (BR) bn = qn(BR); else if (auto *TS = B.getType()->getAs<TemplateSpecializationType>()) { if (auto *TD = TS->getTemplateName().getAsTemplateDecl()) bn = qn(TD); } if (bn.empty()) bn = ty(B.getType());
      o += jstr(bn); }
    o += "],\"fields\":["; first = true;
    for (auto *D : R->decls()) {
      const ValueDecl *V = nullptr; bool st = false;
      if (auto *F = dyn_cast<FieldDecl>(D)) V = F;
      else if (auto *F = dyn_cast<VarDecl>(D)) { V = F; st = true; }
      if (!V) continue;
      if (!first) o += ","; first = false;
      o += "{\"n\":" + jstr(V->getNameAsString()) + ",\"t\":" + jstr(ty(V->getType())) + ",\"tw\":" + jstr(V->getType().getAsString(PP)) + ",\"l\":" + std::to_string(line(V->getLocation()));
      if (st) o += ",\"static\":1";
      if (auto *F = dyn_cast<FieldDecl>(D)) if (F->hasInClassInitializer()) o += ",\"init\":1";
      if (!V->getType()->isDependentType() && V->getType()->isArrayType()) {
        if (auto *CA = C.getAsConstantArrayType(V->getType())) o += ",\"alen\":" + std::to_string(CA->getSize().getZExtValue());
      }
      if (!V->getType()->isDependentType() && !V->getType()->isIncompleteType() && !V->getType()->isReferenceType() && !R->isInvalidDecl() && !R->isDependentContext())
        o += ",\"sz\":" + std::to_string(C.getTypeSizeInChars(V->getType()).getQuantity());
      o += "}";
    }
    o += "],\"methods\":["; first = true;
    for (auto *D : R->decls()) {
      const FunctionDecl *F = nullptr;
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) F = M; else if (auto *T = dyn_cast<FunctionTemplateDecl>(D)) F = T->getTemplatedDecl();
      if (!F || F->isImplicit()) continue;
      if (!first) o += ","; first = false;
      o += "{\"n\":" + jstr(nameOf(F)) + ",\"f\":" + jstr(fid(F)) + ",\"acc\":" + std::to_string((int)F->getAccess());
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isVirtual()) o += ",\"virt\":1"; if (M->isPureVirtual()) o += ",\"pure\":1"; if (M->isStatic()) o += ",\"stat\":1"; }
      if (F->isDeleted()) o += ",\"del\":1";
      o += "}";
    }
    o += "]}";
    os << o << "\n";
  }
  void enumd(const EnumDecl *E, const std::string &file, llvm::raw_ostream &os) {
    o.clear(); o += "{\"k\":\"Enum\""; kv("q", qn(E)); kv("file", rel(file)); kn("l", line(E->getLocation()));
    o += ",\"c\":["; bool first = true;
    for (auto *c : E->enumerators()) { if (!first) o += ","; first = false; o += "[" + jstr(qn(c)) + "," + std::to_string(lval(c->getInitVal())) + "]"; }
    o += "]}"; os << o << "\n";
  }
};

class V : public RecursiveASTVisitor<V> {
  ASTContext &C; Emitter E; llvm::raw_ostream &os;
  std::set<std::string> seen;
public:
  V(ASTContext &C, llvm::raw_ostream &os) : C(C), E(C), os(os) {}
  bool shouldVisitTemplateInstantiations() const { return EmitInst; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *D) {
    if (!D) return true;
    // do not descend into declarations outside the repository
    if (isa<TranslationUnitDecl>(D)) return RecursiveASTVisitor<V>::TraverseDecl(D);
    if (isa<NamespaceDecl>(D) || isa<LinkageSpecDecl>(D) || isa<ClassTemplateSpecializationDecl>(D)) return RecursiveASTVisitor<V>::TraverseDecl(D);
    std::string f = realPath(C.getSourceManager(), D->getLocation());
    if (!inRepo(f)) return true;
    AllFiles.insert(rel(f));
    return RecursiveASTVisitor<V>::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isImplicit() || F->isDefaulted()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string f = realPath(C.getSourceManager(), F->getLocation());
    if (!wanted(f)) return true;
    bool inst = F->getTemplateInstantiationPattern() != nullptr;
    if (inst && !EmitInst) return true;
    E.function(F, f, os);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isImplicit() || R->isLambda()) return true;
    if (isa<ClassTemplateSpecializationDecl>(R) && !cast<ClassTemplateSpecializationDecl>(R)->isExplicitSpecialization()) return true;
    if (R->getTemplateInstantiationPattern()) return true;
    std::string f = realPath(C.getSourceManager(), R->getLocation());
    if (!inRepo(f)) return true;
    E.record(R, f, os);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition()) return true;
    std::string f = realPath(C.getSourceManager(), D->getLocation());
    if (!inRepo(f)) return true;
    E.enumd(D, f, os);
    return true;
  }
};

class Cons : public ASTConsumer {
  CompilerInstance &CI;
public:
  Cons(CompilerInstance &CI) : CI(CI) {}
  bool shouldSkipFunctionBody(Decl *D) override {
    std::string f = realPath(CI.getSourceManager(), D->getLocation());
    return !inRepo(f);
  }
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    if (ec) { llvm::errs() << "cannot write " << OutPath << "\n"; exit(3); }
    V v(C, os);
    v.TraverseDecl(C.getTranslationUnitDecl());
    // dependency list
    const SourceManager &SM = C.getSourceManager();
    std::set<std::string> deps;
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      llvm::SmallString<256> rp;
      if (!llvm::sys::fs::real_path(it->first.getName(), rp) && inRepo(rp.str().str())) deps.insert(rel(rp.str().str()));
    }
    NErr = CI.getDiagnostics().getClient()->getNumErrors();
    os << "{\"k\":\"End\",\"errors\":" << NErr << ",\"deps\":[";
    bool first = true; for (auto &d : deps) { if (!first) os << ","; first = false; os << jstr(d); }
    os << "]}\n";
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    CI.getFrontendOpts().SkipFunctionBodies = true;
    return std::make_unique<Cons>(CI);
  }
  bool BeginInvocation(CompilerInstance &CI) override { CI.getFrontendOpts().SkipFunctionBodies = true; return true; }
};
int main(int argc, const char **argv) {
  // gpx ROOT OUT FILE [-inst] [-emit prefix]... -- flags
  if (argc < 5) return 2;
  RepoRoot = argv[1]; OutPath = argv[2]; std::string file = argv[3];
  int i = 4;
  for (; i < argc && std::string(argv[i]) != "--"; i++) {
    if (std::string(argv[i]) == "-inst") EmitInst = true;
    else if (std::string(argv[i]) == "-emit") EmitPrefixes.push_back(argv[++i]);
  }
  std::vector<std::string> flags;
  for (i++; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-resource-dir=/usr/lib/llvm-18/lib/clang/18", tooling::ArgumentInsertPosition::BEGIN));
  int r = T.run(tooling::newFrontendActionFactory<Act>().get());
  (void)r;
  return 0;
}
