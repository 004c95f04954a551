// spx: dump the resolved syntax trees of every declaration of one translation unit that lies below a given root
// directory (template patterns and, with --inst, instantiations) as JSON lines, for the analyses in /verif/lib.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/DeclFriend.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/ADT/SmallString.h"
#include <set>
#include <map>
#include <string>
#include <vector>
#include <unordered_map>
using namespace clang;

static std::string Root;
static bool WithInst = false;
static llvm::raw_fd_ostream *OS = nullptr;

static void js(llvm::raw_ostream &o, llvm::StringRef s) {
  o << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o << '\\' << c;
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o << b; }
    else o << c;
  }
  o << '"';
}

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  llvm::raw_ostream &O;
  std::unordered_map<const Decl *, unsigned> Ids;
  std::set<const Decl *> Done;
  std::vector<const NamedDecl *> ExtQ;   // referenced declarations outside root: a short record each
  std::set<const Decl *> ExtDone;
public:
  Dumper(ASTContext &C, llvm::raw_ostream &O) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), O(O) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return WithInst; }
  bool shouldVisitImplicitCode() const { return false; }

  unsigned id(const Decl *D) {
    if (!D) return 0;
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    unsigned n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string file(SourceLocation L, unsigned *line = nullptr) {
    L = SM.getExpansionLoc(L);
    if (line) *line = SM.getExpansionLineNumber(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    return std::string(F->getFileEntry().tryGetRealPathName());
  }
  bool inRoot(const Decl *D) {
    std::string f = file(D->getLocation());
    return f.rfind(Root, 0) == 0;
  }
  std::string tstr(QualType T) { return T.isNull() ? "" : T.getAsString(PP); }
  std::string ctstr(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }
  std::string qname(const NamedDecl *N) {
    std::string s; llvm::raw_string_ostream o(s);
    N->printQualifiedName(o, PP);
    return o.str();
  }
  std::string nns(NestedNameSpecifier *Q) {
    if (!Q) return "";
    std::string s; llvm::raw_string_ostream o(s);
    Q->print(o, PP);
    return o.str();
  }
  template<class R> std::string targs(R args) {
    std::string s; llvm::raw_string_ostream o(s);
    bool f = true;
    for (auto &a : args) { if (!f) o << ", "; f = false; a.getArgument().print(PP, o, true); }
    return o.str();
  }
  void ext(const NamedDecl *D) {
    if (!D) return;
    auto *K = D->getCanonicalDecl();
    if (ExtDone.insert(K).second) ExtQ.push_back(D);
  }
  void key(bool &first, const char *k) { if (!first) O << ","; first = false; O << "\"" << k << "\":"; }

  // ---- expressions -------------------------------------------------------
  void list(llvm::ArrayRef<const Expr *> es) {
    O << "["; bool f = true;
    for (auto *e : es) { if (!f) O << ","; f = false; expr(e); }
    O << "]";
  }
  template<class It> void listIt(It b, It e) {
    O << "["; bool f = true;
    for (; b != e; ++b) { if (!f) O << ","; f = false; expr(*b); }
    O << "]";
  }
  static const FunctionDecl *asFn(const NamedDecl *D) {
    D = D->getUnderlyingDecl();
    if (auto *T = dyn_cast<FunctionTemplateDecl>(D)) return T->getTemplatedDecl();
    return dyn_cast<FunctionDecl>(D);
  }
  void cands(const OverloadExpr *E) {
    O << "["; bool f = true;
    for (auto it = E->decls_begin(); it != E->decls_end(); ++it) {
      const NamedDecl *D = (*it)->getUnderlyingDecl();
      if (auto *F = asFn(D)) D = F;
      ext(D);
      if (!f) O << ","; f = false; O << id(D);
    }
    O << "]";
  }
  void line(const Stmt *S) { O << "," << SM.getExpansionLineNumber(S->getBeginLoc()); }
  void expr(const Stmt *S) {
    if (!S) { O << "null"; return; }
    if (auto *E = dyn_cast<Expr>(S)) { exprE(E); return; }
    stmt(S);
  }
  void exprE(const Expr *E) {
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: exprE(cast<ParenExpr>(E)->getSubExpr()); return;
    case Stmt::ExprWithCleanupsClass: exprE(cast<ExprWithCleanups>(E)->getSubExpr()); return;
    case Stmt::MaterializeTemporaryExprClass: exprE(cast<MaterializeTemporaryExpr>(E)->getSubExpr()); return;
    case Stmt::CXXBindTemporaryExprClass: exprE(cast<CXXBindTemporaryExpr>(E)->getSubExpr()); return;
    case Stmt::SubstNonTypeTemplateParmExprClass: {
      auto *X = cast<SubstNonTypeTemplateParmExpr>(E); exprE(X->getReplacement()); return; }
    case Stmt::ConstantExprClass: exprE(cast<ConstantExpr>(E)->getSubExpr()); return;
    case Stmt::CXXDefaultArgExprClass: {
      auto *X = cast<CXXDefaultArgExpr>(E);
      O << "[\"defarg\","; exprE(X->getExpr()); O << "]"; return; }
    case Stmt::CXXDefaultInitExprClass: {
      auto *X = cast<CXXDefaultInitExpr>(E); exprE(X->getExpr()); return; }
    default: break;
    }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_UserDefinedConversion:
      case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr: case CK_AtomicToNonAtomic:
        exprE(X->getSubExpr()); return;
      default:
        O << "[\"icast\",\"" << X->getCastKindName() << "\","; js(O, ctstr(X->getType())); O << ","; exprE(X->getSubExpr()); O << "]"; return;
      }
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      const char *k = "ref";
      if (isa<ParmVarDecl>(D)) k = "parm";
      else if (isa<NonTypeTemplateParmDecl>(D)) k = "nttp";
      else if (isa<VarDecl>(D)) k = cast<VarDecl>(D)->isLocalVarDecl() ? "local" : "var";
      else if (isa<FunctionDecl>(D)) k = "func";
      else if (isa<EnumConstantDecl>(D)) k = "enumc";
      O << "[\"" << k << "\"," << id(D) << ",";
      if (*k == 'p' || *k == 'l' || *k == 'n') js(O, D->getNameAsString()); else { js(O, qname(D)); ext(D); }
      if (*k == 'e') { O << ","; js(O, llvm::toString(cast<EnumConstantDecl>(D)->getInitVal(), 10)); }
      if (*k == 'f' ) { O << ","; std::string t; if (X->hasExplicitTemplateArgs()) t = targs(X->template_arguments()); js(O, t); O << "," << (X->hasQualifier() ? 1 : 0); line(X); }
      O << "]"; return;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); O << "[\"int\","; js(O, s); O << ","; js(O, ctstr(X->getType())); O << "]"; return; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { llvm::SmallString<64> s; X->getValue().toString(s, 40, 0); O << "[\"float\","; js(O, s); O << ","; js(O, ctstr(X->getType())); O << ",";
      std::string src(Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(X->getBeginLoc()), SM.getSpellingLoc(X->getEndLoc())), SM, C.getLangOpts())); js(O, src); O << "]"; return; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O << "[\"bool\"," << (X->getValue() ? 1 : 0) << "]"; return; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O << "[\"char\"," << X->getValue() << ","; js(O, ctstr(X->getType())); O << "]"; return; }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) { O << "[\"str\","; if (X->getCharByteWidth() == 1) js(O, X->getBytes()); else { std::string w; for (unsigned i = 0; i < X->getLength(); ++i) { unsigned c = X->getCodeUnit(i); if (c < 0x80) w += char(c); else { char b[16]; snprintf(b, sizeof b, "<U+%X>", c); w += b; } } js(O, w); } O << "]"; return; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O << "[\"null\"]"; return; }
    if (isa<CXXThisExpr>(E)) { O << "[\"this\"]"; return; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O << "[\"throw\","; expr(X->getSubExpr()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O << "[\"opcall\","; js(O, getOperatorSpelling(X->getOperator())); O << ",";
      const FunctionDecl *F = X->getDirectCallee();
      if (F) { ext(F); O << id(F); }
      else if (auto *U = dyn_cast<OverloadExpr>(X->getCallee()->IgnoreImpCasts())) cands(U);
      else O << "0";
      O << ","; list(llvm::ArrayRef(const_cast<const Expr **>(const_cast<CXXOperatorCallExpr *>(X)->getArgs()), X->getNumArgs())); line(X); O << "]"; return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O << "[\"mcall\",";
      const CXXMethodDecl *M = X->getMethodDecl();
      expr(X->getCallee()->IgnoreParens());
      if (M) ext(M);
      O << "," << id(M) << ",";
      list(llvm::ArrayRef(const_cast<const Expr **>(const_cast<CXXMemberCallExpr *>(X)->getArgs()), X->getNumArgs())); line(X); O << "]"; return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O << "[\"call\","; expr(X->getCallee()); O << ",";
      list(llvm::ArrayRef(const_cast<const Expr **>(const_cast<CallExpr *>(X)->getArgs()), X->getNumArgs())); line(X); O << "]"; return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      O << "[\"member\","; 
      if (X->isImplicitAccess()) O << "[\"this\"]"; else expr(X->getBase());
      O << ","; const ValueDecl *D = X->getMemberDecl();
      js(O, D->getNameAsString()); O << "," << (X->isArrow() ? 1 : 0) << "," << id(D) << ",";
      ext(D);
      std::string t; if (X->hasExplicitTemplateArgs()) t = targs(X->template_arguments()); js(O, t); O << ","; js(O, nns(X->getQualifier())); O << "]"; return;
    }
    if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E)) {
      O << "[\"dmember\",";
      if (X->isImplicitAccess()) O << "[\"this\"]"; else expr(X->getBase());
      O << ","; js(O, X->getMember().getAsString()); O << "," << (X->isArrow() ? 1 : 0) << ",";
      std::string t; if (X->hasExplicitTemplateArgs()) t = targs(X->template_arguments()); js(O, t); O << ","; js(O, nns(X->getQualifier())); line(X); O << "]"; return;
    }
    if (auto *X = dyn_cast<UnresolvedMemberExpr>(E)) {
      O << "[\"umember\",";
      if (X->isImplicitAccess()) O << "[\"this\"]"; else expr(X->getBase());
      O << ","; js(O, X->getMemberName().getAsString()); O << "," << (X->isArrow() ? 1 : 0) << ","; cands(X); O << ",";
      std::string t; if (X->hasExplicitTemplateArgs()) t = targs(X->template_arguments()); js(O, t); O << ","; js(O, nns(X->getQualifier())); line(X); O << "]"; return;
    }
    if (auto *X = dyn_cast<UnresolvedLookupExpr>(E)) {
      O << "[\"lookup\","; js(O, nns(X->getQualifier()) + X->getName().getAsString()); O << ","; cands(X); O << "," << (X->requiresADL() ? 1 : 0) << ",";
      std::string t; if (X->hasExplicitTemplateArgs()) t = targs(X->template_arguments()); js(O, t); line(X); O << "]"; return;
    }
    if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(E)) {
      O << "[\"dsref\","; js(O, nns(X->getQualifier())); O << ","; js(O, X->getDeclName().getAsString()); O << ",";
      std::string t; if (X->hasExplicitTemplateArgs()) t = targs(X->template_arguments()); js(O, t); line(X); O << "]"; return;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { O << "[\"un\","; js(O, (X->isPostfix() ? "post" : "") + UnaryOperator::getOpcodeStr(X->getOpcode()).str()); O << ","; expr(X->getSubExpr()); O << ","; js(O, ctstr(X->getType())); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) { O << "[\"bin\","; js(O, X->getOpcodeStr()); O << ","; expr(X->getLHS()); O << ","; expr(X->getRHS()); O << ","; js(O, ctstr(X->getType())); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { O << "[\"cond\","; expr(X->getCond()); O << ","; expr(X->getTrueExpr()); O << ","; expr(X->getFalseExpr()); O << "]"; return; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O << "[\"index\","; expr(X->getBase()); O << ","; expr(X->getIdx()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
      O << "[\"cast\",\"func\","; js(O, tstr(X->getTypeAsWritten())); O << ","; js(O, ctstr(X->getType())); O << ","; expr(X->getSubExpr()); O << ",\"" << X->getCastKindName() << "\"]"; return; }
    if (auto *X = dyn_cast<CStyleCastExpr>(E)) {
      O << "[\"cast\",\"c\","; js(O, tstr(X->getTypeAsWritten())); O << ","; js(O, ctstr(X->getType())); O << ","; expr(X->getSubExpr()); O << ",\"" << X->getCastKindName() << "\"]"; return; }
    if (auto *X = dyn_cast<CXXNamedCastExpr>(E)) {
      O << "[\"cast\","; js(O, X->getCastName()); O << ","; js(O, tstr(X->getTypeAsWritten())); O << ","; js(O, ctstr(X->getType())); O << ","; expr(X->getSubExpr()); O << ",\"" << X->getCastKindName() << "\""; line(X); O << "]"; return; }
    if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E)) {
      O << "[\"uctor\","; js(O, tstr(X->getTypeAsWritten())); O << ","; js(O, ctstr(X->getTypeAsWritten())); O << ","; listIt(X->arg_begin(), X->arg_end()); O << "," << (X->isListInitialization() ? 1 : 0); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      ext(X->getConstructor()); O << "[\"inhctor\"," << id(X->getConstructor()) << "]"; return; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *D = X->getConstructor(); ext(D);
      O << "[\"ctor\","; js(O, isa<CXXTemporaryObjectExpr>(X) ? tstr(cast<CXXTemporaryObjectExpr>(X)->getTypeSourceInfo()->getType()) : tstr(X->getType())); O << ","; js(O, ctstr(X->getType())); O << "," << id(D) << ","; listIt(X->arg_begin(), X->arg_end()); O << "," << (X->isElidable() ? 1 : 0) << "," << (X->isListInitialization() ? 1 : 0) << "," << (D->isCopyOrMoveConstructor() ? 1 : 0); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      auto *Y = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      O << "[\"ilist\","; js(O, ctstr(Y->getType())); O << ","; 
      O << "["; bool f = true; for (unsigned i = 0; i < Y->getNumInits(); ++i) { if (!f) O << ","; f = false; expr(Y->getInit(i)); } O << "]";
      O << ","; expr(Y->hasArrayFiller() ? Y->getArrayFiller() : nullptr); O << "]"; return; }
    if (auto *X = dyn_cast<ParenListExpr>(E)) { O << "[\"plist\",["; for (unsigned i = 0; i < X->getNumExprs(); ++i) { if (i) O << ","; expr(X->getExpr(i)); } O << "]]"; return; }
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { O << "[\"valinit\","; js(O, ctstr(X->getType())); O << "]"; return; }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { O << "[\"valinit\","; js(O, ctstr(X->getType())); O << "]"; return; }
    if (auto *X = dyn_cast<PackExpansionExpr>(E)) { O << "[\"pack\","; expr(X->getPattern()); O << "]"; return; }
    if (auto *X = dyn_cast<SizeOfPackExpr>(E)) { if (!X->isValueDependent()) O << "[\"int\",\"" << X->getPackLength() << "\",\"unsigned long\"]"; else { O << "[\"sizeofpack\","; js(O, X->getPack()->getNameAsString()); O << "]"; } return; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) { O << "[\"int\","; js(O, llvm::toString(R.Val.getInt(), 10)); O << ","; js(O, ctstr(X->getType())); O << "]"; return; }
      O << "[\"sizeof\","; js(O, X->isArgumentType() ? ctstr(X->getArgumentType()) : ctstr(X->getArgumentExpr()->getType())); O << "]"; return; }
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) { O << "[\"noexceptop\","; expr(X->getOperand()); O << "]"; return; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { O << "[\"new\","; js(O, ctstr(X->getAllocatedType())); O << "," << X->getNumPlacementArgs() << ","; expr(X->getInitializer()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O << "[\"delete\","; expr(X->getArgument()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { O << "[\"stdil\","; expr(X->getSubExpr()); O << "]"; return; }
    if (auto *X = dyn_cast<CXXFoldExpr>(E)) { O << "[\"fold\","; js(O, BinaryOperator::getOpcodeStr(X->getOperator())); O << ","; expr(X->getPattern()); O << ","; expr(X->getInit()); O << "]"; return; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) { O << "[\"lambda\","; stmt(X->getBody()); O << "]"; return; }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { if (!X->isValueDependent()) { O << "[\"bool\"," << (X->getValue() ? 1 : 0) << "]"; return; } }
    if (auto *X = dyn_cast<UserDefinedLiteral>(E)) { const FunctionDecl *F = X->getDirectCallee(); if (F) ext(F); O << "[\"udl\"," << (F ? id(F) : 0) << ","; list(llvm::ArrayRef(const_cast<const Expr **>(const_cast<UserDefinedLiteral *>(X)->getArgs()), X->getNumArgs())); O << "]"; return; }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { O << "[\"str\",\"<func>\"]"; return; }
    O << "[\"?\",\"" << E->getStmtClassName() << "\"";
    for (const Stmt *c : E->children()) { O << ","; expr(c); }
    O << "]";
  }
  // ---- statements --------------------------------------------------------
  void stmt(const Stmt *S) {
    if (!S) { O << "null"; return; }
    if (auto *X = dyn_cast<CompoundStmt>(S)) { O << "[\"block\",["; bool f = true; for (auto *c : X->body()) { if (!f) O << ","; f = false; stmt(c); } O << "]]"; return; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O << "[\"ret\","; expr(X->getRetValue()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<IfStmt>(S)) { O << "[\"if\","; expr(X->getCond()); O << ","; stmt(X->getThen()); O << ","; stmt(X->getElse()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<ForStmt>(S)) { O << "[\"for\","; stmt(X->getInit()); O << ","; expr(X->getCond()); O << ","; expr(X->getInc()); O << ","; stmt(X->getBody()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { O << "[\"forrange\","; expr(X->getRangeInit()); O << ","; stmt(X->getBody()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O << "[\"while\","; expr(X->getCond()); O << ","; stmt(X->getBody()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<DoStmt>(S)) { O << "[\"do\","; stmt(X->getBody()); O << ","; expr(X->getCond()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O << "[\"switch\","; expr(X->getCond()); O << ","; stmt(X->getBody()); line(X); O << "]"; return; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { O << "[\"case\","; expr(X->getLHS()); O << ","; stmt(X->getSubStmt()); O << "]"; return; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O << "[\"default\","; stmt(X->getSubStmt()); O << "]"; return; }
    if (isa<BreakStmt>(S)) { O << "[\"break\"]"; return; }
    if (isa<ContinueStmt>(S)) { O << "[\"continue\"]"; return; }
    if (isa<NullStmt>(S)) { O << "[\"nop\"]"; return; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { O << "[\"try\","; stmt(X->getTryBlock()); for (unsigned i = 0; i < X->getNumHandlers(); ++i) { O << ","; stmt(X->getHandler(i)->getHandlerBlock()); } O << "]"; return; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O << "[\"decl\",["; bool f = true;
      for (auto *D : X->decls()) {
        auto *V = dyn_cast<VarDecl>(D);
        if (!V) continue;
        if (!f) O << ","; f = false;
        O << "[" << id(V) << ","; js(O, V->getNameAsString()); O << ","; js(O, tstr(V->getType())); O << ","; js(O, ctstr(V->getType())); O << ","; expr(V->getInit()); O << "," << (V->isStaticLocal() ? 1 : 0) << "]";
      }
      O << "]"; line(X); O << "]"; return; }
    if (auto *E = dyn_cast<Expr>(S)) { O << "[\"expr\","; exprE(E); O << "]"; return; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) { stmt(X->getSubStmt()); return; }
    O << "[\"?\",\"" << S->getStmtClassName() << "\"";
    for (const Stmt *c : S->children()) { O << ","; expr(c); }
    O << "]";
  }
  // ---- declarations ------------------------------------------------------
  void tparams(const TemplateParameterList *L) {
    O << "["; bool f = true;
    if (L) for (const NamedDecl *P : *L) {
      if (!f) O << ","; f = false;
      O << "["; js(O, isa<NonTypeTemplateParmDecl>(P) ? "v" : isa<TemplateTypeParmDecl>(P) ? "t" : "T"); O << ","; js(O, P->getNameAsString()); O << "," << (P->isParameterPack() ? 1 : 0) << "," << id(P) << ",";
      std::string d, ty;
      if (auto *N = dyn_cast<NonTypeTemplateParmDecl>(P)) { ty = tstr(N->getType()); if (N->hasDefaultArgument()) { llvm::raw_string_ostream o(d); N->getDefaultArgument()->printPretty(o, nullptr, PP); } }
      else if (auto *N = dyn_cast<TemplateTypeParmDecl>(P)) { if (N->hasDefaultArgument()) d = tstr(N->getDefaultArgument()); }
      js(O, ty); O << ","; js(O, d); O << "]";
    }
    O << "]";
  }
  void common(const NamedDecl *D, bool &f) {
    unsigned ln = 0; std::string fl = file(D->getLocation(), &ln);
    key(f, "id"); O << id(D);
    key(f, "name"); js(O, D->getNameAsString());
    key(f, "q"); js(O, qname(D));
    key(f, "file"); js(O, fl.rfind(Root, 0) == 0 ? llvm::StringRef(fl).substr(Root.size()) : llvm::StringRef(fl));
    key(f, "line"); O << ln;
    if (auto *R = dyn_cast<CXXRecordDecl>(D->getDeclContext())) { key(f, "cls"); O << id(R); key(f, "clsq"); js(O, qname(R)); }
    key(f, "access"); O << (int)D->getAccess();
  }
  void fnHead(const FunctionDecl *F, bool &f) {
    common(F, f);
    key(f, "constexpr"); O << (F->isConstexpr() ? 1 : 0);
    key(f, "inline"); O << (F->isInlined() ? 1 : 0);
    key(f, "static"); O << (F->isStatic() ? 1 : 0);
    key(f, "deleted"); O << (F->isDeleted() ? 1 : 0);
    key(f, "defaulted"); O << (F->isDefaulted() ? 1 : 0);
    key(f, "implicit"); O << (F->isImplicit() ? 1 : 0);
    key(f, "builtin"); O << F->getBuiltinID();
    key(f, "extvis"); O << (F->isExternallyVisible() ? 1 : 0);
    key(f, "op"); js(O, F->getOverloadedOperator() != OO_None ? getOperatorSpelling(F->getOverloadedOperator()) : "");
    key(f, "ret"); js(O, tstr(F->getReturnType()));
    key(f, "cret"); js(O, ctstr(F->getReturnType()));
    const char *kind = "fn";
    if (isa<CXXConstructorDecl>(F)) kind = "ctor"; else if (isa<CXXDestructorDecl>(F)) kind = "dtor"; else if (isa<CXXConversionDecl>(F)) kind = "conv"; else if (isa<CXXMethodDecl>(F)) kind = "method";
    key(f, "kind"); js(O, kind);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { key(f, "const"); O << (M->isConst() ? 1 : 0); key(f, "refq"); O << (int)M->getRefQualifier(); key(f, "virtual"); O << (M->isVirtual() ? 1 : 0); }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) { key(f, "explicit"); O << (K->isExplicit() ? 1 : 0); key(f, "copymove"); O << (K->isCopyConstructor() ? 1 : K->isMoveConstructor() ? 2 : 0); }
    key(f, "variadic"); O << (F->isVariadic() ? 1 : 0);
    const auto *FT = F->getType()->getAs<FunctionProtoType>();
    int nx = 0; // 0 may throw, 1 nothrow, 2 dependent, 3 unevaluated
    if (FT) switch (FT->getExceptionSpecType()) {
      case EST_BasicNoexcept: case EST_DynamicNone: case EST_NoexceptTrue: case EST_NoThrow: nx = 1; break;
      case EST_DependentNoexcept: nx = 2; break;
      case EST_Unevaluated: case EST_Uninstantiated: case EST_Unparsed: nx = 3; break;
      default: nx = 0; }
    key(f, "noexcept"); O << nx;
    key(f, "params"); O << "["; bool pf = true;
    for (auto *P : F->parameters()) { if (!pf) O << ","; pf = false; O << "["; js(O, P->getNameAsString()); O << "," << id(P) << ","; js(O, tstr(P->getType())); O << ","; js(O, ctstr(P->getType())); O << "," << (P->hasDefaultArg() ? 1 : 0) << "," << (P->isParameterPack() ? 1 : 0) << "]"; }
    O << "]";
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!inRoot(F)) return true;
    fn(F);
    return true;
  }
  void fn(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    bool has = F->hasBody(Def);
    if (has && Def != F) return; // visited at its definition
    if (!has && F != F->getCanonicalDecl()) return;
    if (!Done.insert(F).second) return;
    bool f = true;
    O << "{\"t\":\"fn\",";
    fnHead(F, f);
    bool isInst = F->isTemplateInstantiation();
    if (!isInst) if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (isa<ClassTemplateSpecializationDecl>(M->getParent()) && !isa<ClassTemplatePartialSpecializationDecl>(M->getParent())) isInst = cast<ClassTemplateSpecializationDecl>(M->getParent())->getSpecializationKind() != TSK_ExplicitSpecialization; }
    key(f, "inst"); O << (isInst ? 1 : 0);
    key(f, "pattern"); O << id(F->getTemplateInstantiationPattern());
    key(f, "dep"); O << (F->isDependentContext() ? 1 : 0);
    key(f, "thisdecl"); O << (F->isThisDeclarationADefinition() ? 1 : 0);
    key(f, "prev"); O << (F->getPreviousDecl() ? 1 : 0);
    if (auto *T = F->getDescribedFunctionTemplate()) { key(f, "tp"); tparams(T->getTemplateParameters()); }
    if (auto *A = F->getTemplateSpecializationArgs()) { key(f, "targs"); O << "["; for (unsigned i = 0; i < A->size(); ++i) { if (i) O << ","; std::string s; llvm::raw_string_ostream o(s); A->get(i).print(PP, o, true); js(O, o.str()); } O << "]"; }
    key(f, "fr"); O << (F->getFriendObjectKind() != Decl::FOK_None ? 1 : 0);
    {
      const auto *FT = F->getType()->getAs<FunctionProtoType>();
      if (FT && FT->getNoexceptExpr()) { key(f, "nxe"); expr(FT->getNoexceptExpr()); }
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) if (has) {
      key(f, "inits"); O << "["; bool g = true;
      for (auto *I : K->inits()) {
        if (!g) O << ","; g = false;
        O << "["; 
        if (I->isAnyMemberInitializer()) { js(O, "m"); O << ","; js(O, I->getAnyMember()->getNameAsString()); O << "," << id(I->getAnyMember()); }
        else if (I->isBaseInitializer()) { js(O, "b"); O << ","; js(O, ctstr(QualType(I->getBaseClass(), 0))); O << ",0"; }
        else { js(O, "d"); O << ",\"\",0"; }
        O << ","; expr(I->getInit()); O << "," << (I->isWritten() ? 1 : 0) << "]";
      }
      O << "]";
    }
    if (has) { key(f, "body"); stmt(F->getBody()); }
    O << "}\n";
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!inRoot(R) || !R->isThisDeclarationADefinition() || R->isLambda()) return true;
    if (!Done.insert(R).second) return true;
    bool f = true;
    O << "{\"t\":\"rec\",";
    common(R, f);
    key(f, "dep"); O << (R->isDependentContext() ? 1 : 0);
    key(f, "union"); O << (R->isUnion() ? 1 : 0);
    key(f, "ct"); js(O, R->isDependentContext() ? "" : ctstr(C.getRecordType(R)));
    auto *Sp = dyn_cast<ClassTemplateSpecializationDecl>(R);
    key(f, "spec"); js(O, !Sp ? "" : isa<ClassTemplatePartialSpecializationDecl>(Sp) ? "partial" : Sp->getSpecializationKind() == TSK_ExplicitSpecialization ? "explicit" : "inst");
    key(f, "pattern"); O << id(R->getTemplateInstantiationPattern());
    if (auto *T = R->getDescribedClassTemplate()) { key(f, "tp"); tparams(T->getTemplateParameters()); }
    if (auto *P = dyn_cast<ClassTemplatePartialSpecializationDecl>(R)) { key(f, "tp"); tparams(P->getTemplateParameters()); }
    if (Sp) { key(f, "targs"); O << "["; bool g = true; for (auto &a : Sp->getTemplateArgs().asArray()) { if (!g) O << ","; g = false; std::string s; llvm::raw_string_ostream o(s); a.print(PP, o, true); js(O, o.str()); } O << "]"; }
    key(f, "bases"); O << "["; { bool g = true; for (auto &b : R->bases()) { if (!g) O << ","; g = false; O << "["; js(O, tstr(b.getType())); O << ","; js(O, ctstr(b.getType())); O << "," << id(b.getType()->getAsCXXRecordDecl()) << "]"; } } O << "]";
    key(f, "fields"); O << "["; { bool g = true; for (auto *d : R->fields()) { if (!g) O << ","; g = false; O << "["; js(O, d->getNameAsString()); O << "," << id(d) << ","; js(O, tstr(d->getType())); O << ","; js(O, ctstr(d->getType())); O << "," << (d->isMutable() ? 1 : 0) << "," << (int)d->getAccess() << "]"; } } O << "]";
    key(f, "types"); O << "["; { bool g = true; for (auto *d : R->decls()) if (auto *T = dyn_cast<TypedefNameDecl>(d)) { if (!g) O << ","; g = false; O << "["; js(O, T->getNameAsString()); O << ","; js(O, tstr(T->getUnderlyingType())); O << ","; js(O, ctstr(T->getUnderlyingType())); O << "," << (int)T->getAccess() << "]"; } } O << "]";
    O << "}\n";
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!inRoot(V) || isa<ParmVarDecl>(V) || V->isLocalVarDecl()) return true;
    if (!Done.insert(V).second) return true;
    bool f = true;
    O << "{\"t\":\"var\",";
    common(V, f);
    key(f, "ty"); js(O, tstr(V->getType()));
    key(f, "cty"); js(O, ctstr(V->getType()));
    key(f, "constexpr"); O << (V->isConstexpr() ? 1 : 0);
    key(f, "inline"); O << (V->isInline() ? 1 : 0);
    key(f, "extvis"); O << (V->isExternallyVisible() ? 1 : 0);
    key(f, "isdef"); O << (int)V->isThisDeclarationADefinition();
    key(f, "storage"); O << (int)V->getStorageClass();
    key(f, "smember"); O << (V->isStaticDataMember() ? 1 : 0);
    key(f, "tmpl"); O << ((V->getDescribedVarTemplate() || isa<VarTemplateSpecializationDecl>(V) || V->getDeclContext()->isDependentContext() || V->getTemplateInstantiationPattern()) ? 1 : 0);
    key(f, "dep"); O << (V->getDeclContext()->isDependentContext() || V->getDescribedVarTemplate() ? 1 : 0);
    key(f, "pattern"); O << id(V->getTemplateInstantiationPattern());
    if (V->getInit()) { key(f, "init"); expr(V->getInit()); }
    {
      const Expr *I = V->getInit();
      if (I && !I->isValueDependent() && !V->getType()->isDependentType() && !I->containsErrors()) {
        if (const APValue *A = V->evaluateValue()) { key(f, "val"); apv(*A, V->getType()); }
      }
    }
    O << "}\n";
    return true;
  }
  void apv(const APValue &A, QualType T) {
    if (A.isInt()) { js(O, llvm::toString(A.getInt(), 10)); return; }
    if (A.isFloat()) { llvm::SmallString<64> s; A.getFloat().toString(s, 40, 0); js(O, s); return; }
    if (A.isArray()) {
      O << "["; unsigned n = A.getArrayInitializedElts(), N = A.getArraySize();
      QualType ET = C.getAsArrayType(T)->getElementType();
      for (unsigned i = 0; i < N; ++i) { if (i) O << ","; apv(i < n ? A.getArrayInitializedElt(i) : A.getArrayFiller(), ET); }
      O << "]"; return; }
    if (A.isStruct()) {
      O << "{"; bool f = true;
      auto *R = T->getAsCXXRecordDecl();
      unsigned i = 0;
      for (auto &b : R->bases()) { if (!f) O << ","; f = false; js(O, "base" + std::to_string(i)); O << ":"; apv(A.getStructBase(i), b.getType()); ++i; }
      i = 0;
      for (auto *d : R->fields()) { if (!f) O << ","; f = false; js(O, d->getNameAsString()); O << ":"; apv(A.getStructField(i), d->getType()); ++i; }
      O << "}"; return; }
    O << "null";
  }
  bool VisitEnumConstantDecl(EnumConstantDecl *D) {
    if (!inRoot(D)) return true;
    if (!Done.insert(D).second) return true;
    bool f = true; O << "{\"t\":\"enumc\","; common(D, f); key(f, "val"); js(O, llvm::toString(D->getInitVal(), 10)); O << "}\n"; return true;
  }
  bool VisitTypedefNameDecl(TypedefNameDecl *D) {
    if (!inRoot(D) || !D->getDeclContext()->isFileContext()) return true;
    if (!Done.insert(D).second) return true;
    bool f = true; O << "{\"t\":\"typedef\","; common(D, f); key(f, "ty"); js(O, tstr(D->getUnderlyingType())); key(f, "cty"); js(O, ctstr(D->getUnderlyingType())); O << "}\n"; return true;
  }
  bool VisitUsingDecl(UsingDecl *D) {
    if (!inRoot(D)) return true;
    bool f = true; O << "{\"t\":\"using\","; common(D, f); key(f, "from"); js(O, nns(D->getQualifier()) + D->getNameAsString());
    key(f, "targets"); O << "["; bool g = true; for (auto *s : D->shadows()) { const NamedDecl *T = s->getTargetDecl(); if (auto *F = asFn(T)) T = F; ext(T); if (!g) O << ","; g = false; O << id(T); } O << "]";
    O << "}\n"; return true;
  }
  void finish() {
    for (size_t i = 0; i < ExtQ.size(); ++i) {
      const NamedDecl *D = ExtQ[i];
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        const FunctionDecl *Def = nullptr; bool has = F->hasBody(Def);
        if (inRoot(F) && (Done.count(has ? Def : F->getCanonicalDecl()))) continue;
        bool f = true; O << "{\"t\":\"xfn\","; fnHead(has ? Def : F, f); key(f, "hasbody"); O << (has ? 1 : 0); key(f, "pattern"); O << id(F->getTemplateInstantiationPattern()); O << "}\n";
      } else {
        if (inRoot(D) && Done.count(D)) continue;
        if (isa<FieldDecl>(D)) { bool f = true; auto *X = cast<FieldDecl>(D); O << "{\"t\":\"field\","; common(D, f); key(f, "cty"); js(O, ctstr(X->getType())); O << "}\n"; continue; }
        bool f = true; O << "{\"t\":\"xdecl\","; common(D, f); key(f, "dk"); js(O, D->getDeclKindName()); if (auto *V = dyn_cast<ValueDecl>(D)) { key(f, "cty"); js(O, ctstr(V->getType())); } if (auto *V = dyn_cast<VarDecl>(D)) { key(f, "constexpr"); O << (V->isConstexpr() ? 1 : 0); if (V->getInit() && !V->getInit()->isValueDependent() && !V->getType()->isDependentType()) if (const APValue *A = V->evaluateValue()) { key(f, "val"); apv(*A, V->getType()); } } O << "}\n";
      }
    }
  }
};

// --refs: which declaration each written name refers to, and the include graph
static bool RefsMode = false;
static std::string fileOf(const SourceManager &SM, SourceLocation L) {
  L = SM.getExpansionLoc(L);
  if (auto F = SM.getFileEntryRefForID(SM.getFileID(L))) return std::string(F->getName());
  return "";
}
class Refs : public RecursiveASTVisitor<Refs> {
public:
  ASTContext &C; llvm::raw_ostream &O; const SourceManager &SM;
  struct U { std::string f; unsigned l; std::string name; std::vector<std::pair<std::string, unsigned>> d; };
  std::map<std::pair<std::string, const void *>, U> Uses;
  Refs(ASTContext &C, llvm::raw_ostream &O) : C(C), O(O), SM(C.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  void locs(const NamedDecl *D, std::vector<std::pair<std::string, unsigned>> &v) {
    if (auto *S = dyn_cast<UsingShadowDecl>(D)) {
      // the introducing using-declaration is what makes the name visible
      auto L = S->getIntroducer()->getLocation(); v.push_back({fileOf(SM, L), SM.getExpansionLineNumber(L)}); return; }
    if (auto *T = dyn_cast<ClassTemplateSpecializationDecl>(D)) { locs(T->getSpecializedTemplate(), v); return; }
    for (auto *R : D->redecls()) { auto L = R->getLocation(); if (L.isInvalid()) continue; v.push_back({fileOf(SM, L), SM.getExpansionLineNumber(L)}); }
  }
  template<class R> void use(SourceLocation L, const void *k, const std::string &name, R ds) {
    if (L.isInvalid()) return;
    L = SM.getExpansionLoc(L);
    std::string f = fileOf(SM, L);
    if (f.compare(0, Root.size(), Root)) return;
    unsigned line = SM.getExpansionLineNumber(L);
    auto it = Uses.find({f, k});
    if (it != Uses.end()) { if (line < it->second.l) it->second.l = line; return; }
    U u; u.f = f; u.l = line; u.name = name;
    for (const NamedDecl *D : ds) {
      if (isa<TemplateTypeParmDecl>(D) || isa<NonTypeTemplateParmDecl>(D) || isa<TemplateTemplateParmDecl>(D) || isa<ParmVarDecl>(D)) return;
      if (auto *V = dyn_cast<VarDecl>(D)) if (V->isLocalVarDecl()) return;
      if (!isa<UsingShadowDecl>(D)) { auto *DC = D->getDeclContext(); if (!DC->getRedeclContext()->isFileContext()) return; }
      locs(D, u.d);
    }
    if (u.d.empty()) return;
    Uses[{f, k}] = std::move(u);
  }
  void one(SourceLocation L, const NamedDecl *D) { if (!D) return; std::vector<const NamedDecl *> v{D}; use(L, D->getCanonicalDecl(), D->getQualifiedNameAsString(), v); }
  bool VisitTypedefTypeLoc(TypedefTypeLoc T) { one(T.getBeginLoc(), T.getTypedefNameDecl()); return true; }
  bool VisitUsingTypeLoc(UsingTypeLoc T) { one(T.getBeginLoc(), T.getFoundDecl()); return true; }
  bool VisitTagTypeLoc(TagTypeLoc T) { one(T.getBeginLoc(), T.getDecl()); return true; }
  bool VisitTemplateSpecializationTypeLoc(TemplateSpecializationTypeLoc T) { tn(T.getTemplateNameLoc(), T.getTypePtr()->getTemplateName()); return true; }
  void tn(SourceLocation L, TemplateName N) {
    if (auto *S = N.getAsUsingShadowDecl()) { one(L, S); return; }
    one(L, N.getAsTemplateDecl());
  }
  bool TraverseTemplateArgumentLoc(const TemplateArgumentLoc &A) {
    if (A.getArgument().getKind() == TemplateArgument::Template) tn(A.getTemplateNameLoc(), A.getArgument().getAsTemplate());
    return RecursiveASTVisitor::TraverseTemplateArgumentLoc(A);
  }
  bool VisitDeclRefExpr(DeclRefExpr *E) { one(E->getLocation(), E->getFoundDecl()); return true; }
  bool VisitOverloadExpr(OverloadExpr *E) {
    if (isa<UnresolvedMemberExpr>(E)) return true;
    if (auto *U = dyn_cast<UnresolvedLookupExpr>(E)) if (U->requiresADL() && !U->getQualifier()) return true;
    std::vector<const NamedDecl *> v(E->decls_begin(), E->decls_end());
    if (v.empty()) return true;
    use(E->getNameLoc(), v[0]->getCanonicalDecl(), v[0]->getQualifiedNameAsString(), v); return true;
  }
  bool VisitUsingDecl(UsingDecl *D) {
    std::vector<const NamedDecl *> v; for (auto *S : D->shadows()) v.push_back(S->getTargetDecl());
    // the shadows are those known at the end; the first is enough
    if (v.empty()) return true;
    if (!v[0]->getDeclContext()->getRedeclContext()->isFileContext()) return true;
    use(D->getLocation(), v[0]->getCanonicalDecl(), v[0]->getQualifiedNameAsString(), v); return true;
  }
  void finish() {
    for (auto &p : Uses) {
      auto &u = p.second; O << "{\"t\":\"ref\",\"f\":"; str(u.f); O << ",\"l\":" << u.l << ",\"n\":"; str(u.name); O << ",\"d\":[";
      bool g = true; for (auto &d : u.d) { if (!g) O << ","; g = false; O << "["; str(d.first); O << "," << d.second << "]"; } O << "]}\n"; }
  }
  void str(const std::string &s) { js(O, s); }
};
class PP : public PPCallbacks {
public:
  SourceManager &SM; std::set<std::pair<std::string, std::string>> Seen; std::map<std::pair<std::string, std::string>, int> G;
  PP(SourceManager &SM) : SM(SM) {}
  void InclusionDirective(SourceLocation L, const Token &, StringRef Name, bool, CharSourceRange, OptionalFileEntryRef F, StringRef, StringRef, const Module *, SrcMgr::CharacteristicKind) override {
    if (!F) return;
    std::string f = fileOf(SM, L), t(F->getName());
    *OS << "{\"t\":\"inc\",\"f\":"; js(*OS, f); *OS << ",\"l\":" << SM.getExpansionLineNumber(L) << ",\"to\":"; js(*OS, t); *OS << "}\n";
  }
  void mac(const Token &N, const MacroDefinition &D) {
    auto *I = D.getMacroInfo(); if (!I || I->isBuiltinMacro()) return;
    std::string f = fileOf(SM, N.getLocation()); if (f.compare(0, Root.size(), Root)) return;
    std::string n = N.getIdentifierInfo()->getName().str(); std::string t = fileOf(SM, I->getDefinitionLoc());
    if (t == f || !Seen.insert({f, n}).second) return;
    *OS << "{\"t\":\"mac\",\"f\":"; js(*OS, f); *OS << ",\"l\":" << SM.getExpansionLineNumber(N.getLocation()) << ",\"n\":"; js(*OS, n); *OS << ",\"d\":[["; js(*OS, t); *OS << "," << SM.getExpansionLineNumber(I->getDefinitionLoc()) << "]]}\n";
  }
  void MacroExpands(const Token &N, const MacroDefinition &D, SourceRange, const MacroArgs *) override { mac(N, D); }
  void guard(const Token &N, SourceLocation L, int k) {
    std::string f = fileOf(SM, L); if (f.compare(0, Root.size(), Root)) return;
    *OS << "{\"t\":\"ifndef\",\"f\":"; js(*OS, f); *OS << ",\"l\":" << SM.getExpansionLineNumber(L) << ",\"n\":"; js(*OS, N.getIdentifierInfo()->getName().str()); *OS << ",\"def\":" << k << "}\n"; }
  void Ifndef(SourceLocation L, const Token &N, const MacroDefinition &D) override { guard(N, L, D ? 1 : 0); }
  void MacroDefined(const Token &N, const MacroDirective *MD) override {
    std::string f = fileOf(SM, N.getLocation()); if (f.compare(0, Root.size(), Root)) return;
    *OS << "{\"t\":\"define\",\"f\":"; js(*OS, f); *OS << ",\"l\":" << SM.getExpansionLineNumber(N.getLocation()) << ",\"n\":"; js(*OS, N.getIdentifierInfo()->getName().str()); *OS << "}\n"; }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (RefsMode) { Refs R(C, *OS); R.TraverseDecl(C.getTranslationUnitDecl()); R.finish(); return; }
    Dumper D(C, *OS);
    D.TraverseDecl(C.getTranslationUnitDecl());
    D.finish();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { if (RefsMode) CI.getPreprocessor().addPPCallbacks(std::make_unique<PP>(CI.getSourceManager())); return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
  // spx OUT ROOT [--inst] FILE -- clang args
  std::string out = argv[1]; Root = argv[2];
  int i = 3; std::string src; std::vector<std::string> args;
  for (; i < argc; ++i) { std::string a = argv[i]; if (a == "--inst") WithInst = true; else if (a == "--refs") RefsMode = true; else if (a == "--") { ++i; break; } else src = a; }
  for (; i < argc; ++i) args.push_back(argv[i]);
  std::error_code ec; llvm::raw_fd_ostream o(out, ec); if (ec) { llvm::errs() << ec.message() << "\n"; return 3; }
  o.SetBufferSize(1 << 20);
  OS = &o;
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {src});
  struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } fac;
  int rc = T.run(&fac);
  return rc;
}
