// Clang plugin: dumps the type-checked program (functions, classes, enums, globals) of the files
// below a given root as compact JSON.  It only *describes* the program; every judgement is made by
// the Python analyses in /verif/engine and /verif/checks.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

namespace {

struct Options { std::vector<std::string> roots; std::string out; };

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &Ctx; SourceManager &SM; const Options &Opt;
  json::Array functions, records, enums, globals;
  std::set<std::string> doneFn, doneRec, doneEnum, doneGlob;
  PrintingPolicy PP;
  std::map<const Decl*, int> localIds; int nextLocal = 0;

  Dumper(ASTContext &C, const Options &O) : Ctx(C), SM(C.getSourceManager()), Opt(O), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressInlineNamespace = true;
    PP.AnonymousTagLocations = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> abs(P.getFilename());
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (FE) { StringRef rp = FE->getFileEntry().tryGetRealPathName(); if (!rp.empty()) abs = rp; }
    return std::string(abs.str());
  }
  std::map<unsigned,int> fileInRoot;
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = fileInRoot.find(F.getHashValue());
    if (it != fileInRoot.end()) return it->second;
    std::string f = fileOf(L);
    bool r = false;
    for (auto &p : Opt.roots) if (StringRef(f).starts_with(p)) r = true;
    fileInRoot[F.getHashValue()] = r;
    return r;
  }
  int line(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }

  std::string usr(const Decl *D) {
    llvm::SmallString<128> b; index::generateUSRForDecl(D, b);
    return std::string(b.str());
  }
  std::string ty(QualType T) { return T.isNull() ? std::string() : T.getCanonicalType().getAsString(PP); }

  void qn(const DeclContext *DC, std::string &o) {
    if (!DC || DC->isTranslationUnit()) return;
    if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
      qn(DC->getParent(), o);
      if (NS->isInline()) return;
      o += NS->isAnonymousNamespace() ? "(anon)" : NS->getNameAsString(); o += "::"; return;
    }
    if (auto *R = dyn_cast<RecordDecl>(DC)) { qn(DC->getParent(), o); o += R->getNameAsString() + "::"; return; }
    if (auto *F = dyn_cast<FunctionDecl>(DC)) { qn(DC->getParent(), o); o += F->getNameAsString() + "::"; return; }
    qn(DC->getParent(), o);
  }
  std::string qname(const NamedDecl *D) {
    std::string o; qn(D->getDeclContext(), o); o += D->getNameAsString(); return o;
  }

  int localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = localIds.find(D); if (it != localIds.end()) return it->second;
    return localIds[D] = nextLocal++;
  }
  bool isLocal(const ValueDecl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) return V->isLocalVarDeclOrParm();
    return false;
  }

  json::Value V(const Expr *E) { return expr(E); }

  json::Object node(const char *k, const Stmt *S) {
    json::Object o; o["k"] = k; o["l"] = line(S->getBeginLoc());
    return o;
  }
  void macro(json::Object &o, const Stmt *S) {
    SourceLocation L = S->getBeginLoc();
    if (L.isMacroID()) {
      // outermost macro name
      SourceLocation P = L, Q = L;
      while (P.isMacroID()) { Q = P; P = SM.getImmediateMacroCallerLoc(P); }
      StringRef n = Lexer::getImmediateMacroName(Q, SM, Ctx.getLangOpts());
      if (!n.empty()) o["m"] = n.str();
    }
  }

  json::Array kids(std::initializer_list<const Expr*> es) {
    json::Array a; for (auto e : es) a.push_back(expr(e)); return a;
  }
  template<class It> json::Array argList(It b, It e) { json::Array a; for (; b != e; ++b) a.push_back(expr(*b)); return a; }

  void fnInfo(json::Object &o, const FunctionDecl *F) {
    o["fn"] = usr(F); o["n"] = qname(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(Ctx.getRecordType(M->getParent()));
      if (M->isStatic()) o["static"] = true;
    }
    if (F->isNoReturn()) o["noret"] = true;
  }

  // conversion of a pointer to an object into a pointer to what lies at its start
  static bool intoRecord(const CastExpr *X) {
    QualType a = X->getSubExpr()->getType()->getPointeeType(), b = X->getType()->getPointeeType();
    return !a.isNull() && !b.isNull() && a->isRecordType() && !b->isRecordType();
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // strip wrappers
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = X->getSemanticForm(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
          case CK_BuiltinFnToFnPtr: case CK_NullToPointer: case CK_UserDefinedConversion:
          case CK_ConstructorConversion: case CK_ToVoid: E = X->getSubExpr(); continue;
          case CK_BitCast: if (!intoRecord(X)) { E = X->getSubExpr(); continue; } break;
          default: break;
        }
      }
      break;
    }
    json::Object o = node("?", E);
    o["t"] = ty(E->getType());
    if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
        llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = s.str().str();
      }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); o["v"] = s.str().str(); }
    else if (auto *X = dyn_cast<FloatingLiteral>(E)) { o["k"] = "float"; char b[64]; snprintf(b, 64, "%.17g", X->getValueAsApproximateDouble()); o["v"] = std::string(b); }
    else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue() ? "1" : "0"; }
    else if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"] = "char"; o["v"] = std::to_string(X->getValue()); }
    else if (auto *X = dyn_cast<StringLiteral>(E)) { o["k"] = "str"; std::string s = X->isOrdinary() ? X->getString().str() : ""; if (!json::isUTF8(s)) s = json::fixUTF8(s); o["v"] = s; }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; o.erase("v"); }
    else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (isa<FunctionDecl>(D)) { o["k"] = "fref"; fnInfo(o, cast<FunctionDecl>(D)); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "enum"; o["n"] = qname(EC); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = s.str().str(); }
      else if (isLocal(D)) { o["k"] = "ref"; o["id"] = localId(D); o["n"] = D->getNameAsString(); o["dt"] = ty(D->getType()); if (isa<ParmVarDecl>(D)) o["parm"] = true; }
      else { o["k"] = "gref"; o["n"] = qname(D); o["u"] = usr(D); o["dt"] = ty(D->getType()); }
    }
    else if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *FD = dyn_cast<FieldDecl>(D)) { o["k"] = "field"; o["n"] = FD->getNameAsString(); o["q"] = qname(FD); o["dt"] = ty(FD->getType()); }
      else if (isa<FunctionDecl>(D)) { o["k"] = "mref"; fnInfo(o, cast<FunctionDecl>(D)); }
      else { o["k"] = "gref"; o["n"] = qname(D); o["u"] = usr(D); o["dt"] = ty(D->getType()); }
      o["arrow"] = X->isArrow();
      o["c"] = kids({X->getBase()});
    }
    else if (isa<CXXThisExpr>(E)) { o["k"] = "this"; }
    else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "opcall"; o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) { fnInfo(o, F); if (isa<CXXMethodDecl>(F)) o["meth"] = true; }
      o["c"] = argList(X->arg_begin(), X->arg_end()); macro(o, E);
    }
    else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall";
      json::Array a;
      const Expr *cal = X->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(cal)) {
        o["arrow"] = ME->isArrow();
        if (auto *M = X->getMethodDecl()) { fnInfo(o, M); if (M->isVirtual() && !ME->hasQualifier()) o["virt"] = true; if (isa<CXXDestructorDecl>(M)) o["dtor"] = true; }
      }
      a.push_back(expr(X->getImplicitObjectArgument()));
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["c"] = std::move(a); macro(o, E);
    }
    else if (auto *X = dyn_cast<CallExpr>(E)) {
      if (auto *F = X->getDirectCallee()) { o["k"] = "call"; fnInfo(o, F); o["c"] = argList(X->arg_begin(), X->arg_end()); }
      else { o["k"] = "icall"; json::Array a; a.push_back(expr(X->getCallee())); for (auto *A : X->arguments()) a.push_back(expr(A)); o["c"] = std::move(a); }
      macro(o, E);
    }
    else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "construct"; fnInfo(o, X->getConstructor());
      auto *C = X->getConstructor();
      if (C->isCopyConstructor()) o["copy"] = true; if (X->isElidable()) o["elid"] = true; if (C->isMoveConstructor()) o["move"] = true; if (C->isDefaultConstructor()) o["dflt"] = true;
      if (C->isImplicit() || C->isDefaulted()) o["impl"] = true;
      o["c"] = argList(X->arg_begin(), X->arg_end()); macro(o, E);
    }
    else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["at"] = ty(X->getAllocatedType());
      if (X->isArray()) { o["array"] = true; if (auto s = X->getArraySize()) o["size"] = expr(*s); }
      if (X->hasInitializer()) { o["c"] = kids({X->getInitializer()}); }
      else o["c"] = json::Array();
    }
    else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete"; o["array"] = X->isArrayForm(); o["dt"] = ty(X->getDestroyedType()); o["c"] = kids({X->getArgument()});
    }
    else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "cassign"; o["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str(); o["c"] = kids({X->getLHS(), X->getRHS()}); o["ct"] = ty(X->getComputationResultType());
    }
    else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = X->getOpcode() == BO_Assign ? "assign" : "bin"; o["op"] = X->getOpcodeStr().str(); o["c"] = kids({X->getLHS(), X->getRHS()}); macro(o, E);
    }
    else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op; o["op"] = op; o["c"] = kids({X->getSubExpr()});
    }
    else if (auto *X = dyn_cast<ConditionalOperator>(E)) { o["k"] = "cond"; o["c"] = kids({X->getCond(), X->getTrueExpr(), X->getFalseExpr()}); macro(o, E); }
    else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "sub"; o["c"] = kids({X->getBase(), X->getIdx()}); }
    else if (isa<CastExpr>(E) && cast<CastExpr>(E)->getCastKind() == CK_ArrayToPointerDecay) { o["k"] = "decay"; o["c"] = kids({cast<CastExpr>(E)->getSubExpr()}); }
    else if (auto *X = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["c"] = kids({X->getSubExpr()}); o["expl"] = isa<ExplicitCastExpr>(X);
      o["ft"] = ty(X->getSubExpr()->getType());
    }
    else if (auto *X = dyn_cast<InitListExpr>(E)) { o["k"] = "init"; const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm(); if (!S) S = X; { json::Array ia; for (auto *i : S->inits()) ia.push_back(expr(i)); o["c"] = std::move(ia); }
      if (auto *f = S->getArrayFiller()) { o["filler"] = expr(f); } }
    else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"] = "zeroinit"; }
    else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"] = "sizeof"; o["arg"] = X->isArgumentType() ? ty(X->getArgumentType()) : ty(X->getArgumentExpr()->getType()); if (!X->isArgumentType()) o["c"] = kids({X->getArgumentExpr()}); }
    else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; json::Array ps; for (auto *P : X->getCallOperator()->parameters()) ps.push_back(parm(P)); o["params"] = std::move(ps);
      json::Array caps; for (auto &C : X->captures()) if (C.capturesVariable()) { json::Object co; co["id"] = localId(C.getCapturedVar()); co["ref"] = C.getCaptureKind() == LCK_ByRef; caps.push_back(std::move(co)); }
      o["caps"] = std::move(caps); o["body"] = stmt(X->getBody()); o["fn"] = usr(X->getCallOperator()); o["rt"] = ty(X->getCallOperator()->getReturnType());
    }
    else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; o["c"] = kids({X->getSubExpr()}); }
    else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "arrinitloop"; o["c"] = kids({X->getCommonExpr()->getSourceExpr()}); }
    else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { return expr(X->getSourceExpr()); }
    else if (auto *X = dyn_cast<PredefinedExpr>(E)) { o["k"] = "str"; o["v"] = X->getFunctionName() ? X->getFunctionName()->getString().str() : ""; }
    else if (auto *X = dyn_cast<StmtExpr>(E)) { o["k"] = "stmtexpr"; o["body"] = stmt(X->getSubStmt()); }
    else {
      o["k"] = "expr"; o["cls"] = E->getStmtClassName(); json::Array a;
      for (auto *C : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(C)) a.push_back(expr(ce));
      o["c"] = std::move(a);
    }
    return o;
  }

  json::Object parm(const ParmVarDecl *P) {
    json::Object o; o["id"] = localId(P); o["n"] = P->getNameAsString(); o["t"] = ty(P->getType());
    if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) o["def"] = expr(P->getDefaultArg());
    return o;
  }
  json::Object var(const VarDecl *D) {
    json::Object o; o["k"] = "var"; o["id"] = localId(D); o["n"] = D->getNameAsString(); o["t"] = ty(D->getType()); o["l"] = line(D->getLocation());
    if (D->isStaticLocal()) o["static"] = true;
    if (D->hasInit()) o["init"] = expr(D->getInit());
    return o;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { json::Object o = node("expr_stmt", S); macro(o, S); o["e"] = expr(E); return o; }
    if (auto *X = dyn_cast<CompoundStmt>(S)) { json::Object o = node("block", S); json::Array a; for (auto *c : X->body()) a.push_back(stmt(c)); o["c"] = std::move(a); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) { json::Object o = node("decl", S); macro(o, S); json::Array a; for (auto *d : X->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["c"] = std::move(a); return o; }
    if (auto *X = dyn_cast<IfStmt>(S)) { json::Object o = node("if", S); macro(o, S); if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); o["cond"] = expr(X->getCond()); o["then"] = stmt(X->getThen()); o["else"] = stmt(X->getElse()); return o; }
    if (auto *X = dyn_cast<ForStmt>(S)) { json::Object o = node("for", S); macro(o, S); o["init"] = stmt(X->getInit()); o["cond"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { json::Object o = node("while", S); macro(o, S); if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); o["cond"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { json::Object o = node("do", S); macro(o, S); o["cond"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { json::Object o = node("rangefor", S); o["var"] = var(X->getLoopVariable()); o["range"] = expr(X->getRangeInit()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { json::Object o = node("return", S); o["e"] = expr(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (isa<NullStmt>(S)) return node("null_stmt", S);
    if (auto *X = dyn_cast<SwitchStmt>(S)) { json::Object o = node("switch", S); o["cond"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { json::Object o = node("case", S); o["e"] = expr(X->getLHS()); o["body"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { json::Object o = node("default", S); o["body"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { json::Object o = node("try", S); o["body"] = stmt(X->getTryBlock()); json::Array a; for (unsigned i = 0; i < X->getNumHandlers(); i++) a.push_back(stmt(X->getHandler(i)->getHandlerBlock())); o["handlers"] = std::move(a); return o; }
    if (auto *X = dyn_cast<LabelStmt>(S)) { json::Object o = node("label", S); o["body"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    json::Object o = node("other_stmt", S); o["cls"] = S->getStmtClassName(); return o;
  }

  bool TraverseDecl(Decl *D) {
    if (!D) return true;
    if (auto *NS = dyn_cast<NamespaceDecl>(D)) {
      if (!inRoot(NS->getLocation())) return true;
    }
    return RecursiveASTVisitor<Dumper>::TraverseDecl(D);
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return true;
    if (!inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (F->isDefaulted()) return true;
    std::string id = usr(F);
    if (!doneFn.insert(id).second) return true;
    json::Object o;
    o["id"] = id; o["n"] = qname(F); o["file"] = fileOf(F->getLocation()); o["l"] = line(F->getLocation());
    o["el"] = line(F->getEndLoc());
    o["rt"] = ty(F->getReturnType());
    json::Array ps; for (auto *P : F->parameters()) ps.push_back(parm(P)); o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(Ctx.getRecordType(M->getParent()));
      if (M->isVirtual()) o["virt"] = true; if (M->isStatic()) o["static"] = true; if (M->isConst()) o["const"] = true;
      json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(usr(b)); o["over"] = std::move(ov);
      o["access"] = (int)M->getAccess();
    }
    if (isa<CXXConstructorDecl>(F)) o["ctor"] = true;
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->getTemplateSpecializationArgs()) {
      json::Array ta; for (auto &A : F->getTemplateSpecializationArgs()->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); ta.push_back(os.str()); }
      o["targs"] = std::move(ta);
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array is;
      for (auto *I : C->inits()) {
        json::Object io; 
        if (I->isMemberInitializer()) { io["field"] = I->getMember()->getNameAsString(); io["t"] = ty(I->getMember()->getType()); }
        else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = I->isWritten();
        io["e"] = expr(I->getInit()); is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(F->getBody());
    functions.push_back(std::move(o));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoot(R->getLocation())) return true;
    std::string id = ty(Ctx.getRecordType(R));
    if (!doneRec.insert(id).second) return true;
    json::Object o; o["id"] = id; o["n"] = qname(R); o["file"] = fileOf(R->getLocation()); o["l"] = line(R->getLocation());
    json::Array bs; for (auto &B : R->bases()) bs.push_back(ty(B.getType())); o["bases"] = std::move(bs);
    json::Array fs; for (auto *F : R->fields()) { json::Object fo; fo["n"] = F->getNameAsString(); fo["t"] = ty(F->getType()); fo["l"] = line(F->getLocation()); fo["access"] = (int)F->getAccess(); if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer()); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    json::Array ms; for (auto *M : R->methods()) { json::Object mo; mo["id"] = usr(M); mo["n"] = M->getNameAsString(); mo["virt"] = M->isVirtual(); mo["pure"] = M->isPureVirtual(); mo["deleted"] = M->isDeleted(); mo["implicit"] = M->isImplicit(); mo["access"] = (int)M->getAccess(); mo["l"] = line(M->getLocation());
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) { mo["ctor"] = true; mo["copy"] = C->isCopyConstructor(); mo["move"] = C->isMoveConstructor(); }
      if (isa<CXXDestructorDecl>(M)) mo["dtor"] = true; if (M->isCopyAssignmentOperator()) mo["cassign"] = true; if (M->isMoveAssignmentOperator()) mo["massign"] = true;
      json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(usr(b)); mo["over"] = std::move(ov); ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms);
    o["abstract"] = R->isAbstract(); o["poly"] = R->isPolymorphic();
    bool vd = false; if (auto *D = R->getDestructor()) vd = D->isVirtual(); o["vdtor"] = vd;
    o["trivdtor"] = R->hasTrivialDestructor();
    o["implcopy"] = R->needsImplicitCopyConstructor() || (R->hasSimpleCopyConstructor());
    o["usercopy"] = R->hasUserDeclaredCopyConstructor(); o["usercassign"] = R->hasUserDeclaredCopyAssignment(); o["userdtor"] = R->hasUserDeclaredDestructor();
    o["usermove"] = R->hasUserDeclaredMoveConstructor(); o["usermassign"] = R->hasUserDeclaredMoveAssignment();
    records.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || !inRoot(D->getLocation())) return true;
    std::string id = qname(D); if (id.empty() || !doneEnum.insert(usr(D)).second) return true;
    json::Object o; o["n"] = id; o["t"] = ty(Ctx.getEnumType(D)); o["file"] = fileOf(D->getLocation()); o["l"] = line(D->getLocation());
    json::Array cs; for (auto *C : D->enumerators()) { json::Object co; co["n"] = C->getNameAsString(); llvm::SmallString<32> s; C->getInitVal().toString(s, 10); co["v"] = s.str().str(); cs.push_back(std::move(co)); }
    o["c"] = std::move(cs); enums.push_back(std::move(o)); return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->isLocalVarDeclOrParm() || isa<ParmVarDecl>(D) || !inRoot(D->getLocation()) || D->getDeclContext()->isDependentContext()) return true;
    if (D->getType()->isDependentType()) return true;
    const VarDecl *Def = D->getInitializingDeclaration();
    if (!Def) { if (!D->isThisDeclarationADefinition()) return true; Def = D; }
    std::string id = usr(D); if (!doneGlob.insert(id).second) return true;
    json::Object o; o["u"] = id; o["n"] = qname(D); o["t"] = ty(Def->getType()); o["file"] = fileOf(Def->getLocation()); o["l"] = line(Def->getLocation());
    if (Def->hasInit()) o["init"] = expr(Def->getInit());
    globals.push_back(std::move(o)); return true;
  }
};

class Consumer : public ASTConsumer {
  Options O;
public:
  Consumer(Options o) : O(std::move(o)) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(Ctx, O);
    D.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object root; root["functions"] = std::move(D.functions); root["records"] = std::move(D.records); root["enums"] = std::move(D.enums); root["globals"] = std::move(D.globals);
    std::error_code ec; llvm::raw_fd_ostream os(O.out, ec);
    os << json::Value(std::move(root));
  }
};

class Action : public PluginASTAction {
  Options O;
protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(O); }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &args) override {
    for (auto &a : args) { StringRef s(a); if (s.starts_with("root=")) O.roots.push_back(s.substr(5).str()); else if (s.starts_with("out=")) O.out = s.substr(4).str(); }
    return true;
  }
  ActionType getActionType() override { return ReplaceAction; }
};
static FrontendPluginRegistry::Add<Action> X("nlaextract", "dump the resolved program");
}
