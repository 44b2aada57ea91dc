// psifacts: dumps resolved facts (types, callees, syntax trees, control-flow graphs, records,
// variables) of the functions a translation unit defines below a given source root.
// usage: psifacts --root=/repo --out=FILE [--exclude=PREFIX]... -- SOURCE clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
using namespace clang;

static std::string Root = "/repo";
static std::string OutFile;
static std::vector<std::string> Excludes;

static void jstr(std::string &o, llvm::StringRef s) {
  o += '"';
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
  }
  o += '"';
}

struct Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::vector<std::string> strs;
  std::map<std::string, int> strIdx;
  std::vector<std::string> types; // json
  llvm::DenseMap<const Type *, int> dummy;
  std::map<std::pair<const void *, unsigned>, int> typeIdx;
  std::vector<std::string> lines;
  std::set<const Decl *> doneRec;
  std::set<std::string> deps;
  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.SuppressUnwrittenScope = true; PP.Bool = true;
    PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressDefaultTemplateArgs = true;
  }
  int str(llvm::StringRef s) {
    auto it = strIdx.find(s.str());
    if (it != strIdx.end()) return it->second;
    int i = strs.size(); strs.push_back(s.str()); strIdx[s.str()] = i; return i;
  }
  // qualified name, no template arguments, no inline namespaces
  std::string qname(const NamedDecl *D) {
    if (!D) return "";
    std::vector<std::string> parts;
    std::string n = D->getNameAsString();
    if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) n = CD->getParent()->getNameAsString();
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(D)) n = "~" + DD->getParent()->getNameAsString();
    else if (auto *CV = dyn_cast<CXXConversionDecl>(D)) n = "operator " + CV->getConversionType().getAsString(PP);
    if (n.empty()) {
      n = "(anon)";
      if (auto *T = dyn_cast<TagDecl>(D)) {
        if (auto *TD = T->getTypedefNameForAnonDecl()) n = TD->getNameAsString();
        else if (auto *R = dyn_cast<CXXRecordDecl>(D)) if (R->isLambda()) n = "(lambda)";
      }
    }
    parts.push_back(n);
    const DeclContext *DC = D->getDeclContext();
    while (DC) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (NS->isAnonymousNamespace()) parts.push_back("(anon)");
        else if (!NS->isInline()) parts.push_back(NS->getNameAsString());
      } else if (auto *T = dyn_cast<TagDecl>(DC)) {
        std::string tn = T->getNameAsString();
        if (tn.empty()) { tn = "(anon)"; if (auto *TD = T->getTypedefNameForAnonDecl()) tn = TD->getNameAsString(); }
        parts.push_back(tn);
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) { parts.push_back(qname(F) + "()"); break; }
      DC = DC->getParent();
    }
    std::string r;
    for (size_t i = parts.size(); i-- > 0;) { r += parts[i]; if (i) r += "::"; }
    return r;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> b;
    if (index::generateUSRForDecl(D, b)) return "";
    return b.str().str();
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    if (f.compare(0, Root.size() + 1, Root + "/") == 0) f = f.substr(Root.size() + 1);
    else if (f.size() && f[0] != '/') ;
    else if (f.size()) return "";
    return norm(f);
  }
  static std::string norm(const std::string &f) {
    std::vector<std::string> p; std::string cur;
    for (size_t i = 0; i <= f.size(); ++i) {
      if (i == f.size() || f[i] == '/') { if (cur == "..") { if (!p.empty()) p.pop_back(); } else if (!cur.empty() && cur != ".") p.push_back(cur); cur.clear(); }
      else cur += f[i];
    }
    std::string r; for (auto &x : p) { if (!r.empty()) r += "/"; r += x; }
    return r;
  }
  bool inScope(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = scopeCache.find(F);
    if (it != scopeCache.end()) return it->second;
    bool r = inScope0(L);
    scopeCache[F] = r;
    return r;
  }
  std::map<FileID, bool> scopeCache;
  bool inScope0(SourceLocation L) {
    bool inv = false;
    auto fe = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!fe) return false;
    std::string f = fe->getName().str();
    (void)inv;
    if (f.compare(0, Root.size() + 1, Root + "/") != 0) return false;
    f = norm(f.substr(Root.size() + 1));
    for (auto &e : Excludes) if (f.compare(0, e.size(), e) == 0) return false;
    return true;
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  // ---- types
  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    auto key = std::make_pair((const void *)T.getTypePtr(), (unsigned)T.getLocalFastQualifiers());
    auto it = typeIdx.find(key);
    if (it != typeIdx.end()) return it->second;
    int i = types.size();
    types.push_back("");
    typeIdx[key] = i;
    std::string o = "{\"s\":";
    jstr(o, T.getAsString(PP));
    const char *k = "other"; std::string q; int to = -1; long n = -1;
    std::string args;
    const Type *TP = T.getTypePtr();
    if (TP->isDependentType()) k = "dep";
    else if (TP->isBooleanType()) k = "bool";
    else if (TP->isEnumeralType()) { k = "enum"; q = qname(TP->castAs<EnumType>()->getDecl()); }
    else if (TP->isAnyCharacterType()) k = "char";
    else if (TP->isIntegerType()) k = "int";
    else if (TP->isFloatingType()) k = "float";
    else if (TP->isVoidType()) k = "void";
    else if (TP->isFunctionPointerType()) k = "fptr";
    else if (TP->isMemberPointerType()) k = "mptr";
    else if (TP->isPointerType()) { k = "ptr"; to = type(TP->getPointeeType()); }
    else if (TP->isReferenceType()) { k = "ref"; to = type(TP->getPointeeType()); }
    else if (auto *CA = Ctx.getAsConstantArrayType(T)) { k = "arr"; to = type(CA->getElementType()); n = CA->getSize().getLimitedValue(); }
    else if (TP->isArrayType()) { k = "arr"; to = type(Ctx.getAsArrayType(T)->getElementType()); }
    else if (TP->isRecordType()) {
      k = "rec"; auto *RD = TP->castAs<RecordType>()->getDecl(); q = qname(RD);
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        for (auto &A : S->getTemplateArgs().asArray()) {
          if (A.getKind() == TemplateArgument::Type) { if (!args.empty()) args += ","; args += std::to_string(type(A.getAsType())); }
          else if (A.getKind() == TemplateArgument::Integral) { if (!args.empty()) args += ","; args += "-1"; }
        }
      }
    } else if (TP->isFunctionType()) k = "func";
    o += ",\"k\":\""; o += k; o += "\"";
    if (!q.empty()) { o += ",\"q\":"; jstr(o, q); }
    if (to >= 0) o += ",\"to\":" + std::to_string(to);
    if (n >= 0) o += ",\"n\":" + std::to_string(n);
    if (!args.empty()) o += ",\"a\":[" + args + "]";
    if (T.isConstQualified()) o += ",\"const\":1";
    if (TP->isUnsignedIntegerOrEnumerationType() && !TP->isEnumeralType()) o += ",\"u\":1";
    if (TP->isIntegerType() && !TP->isDependentType() && !TP->isIncompleteType()) o += ",\"w\":" + std::to_string(Ctx.getTypeSize(T));
    o += "}";
    types[i] = o;
    return i;
  }

  // ---- function-local state
  std::map<const Decl *, int> locals;
  std::map<const Stmt *, int> ids;
  int nextId = 0;
  std::vector<const FunctionDecl *> lambdaBodies;

  int local(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = locals.find(D);
    if (it != locals.end()) return it->second;
    int i = locals.size(); locals[D] = i; return i;
  }
  static const Stmt *peel(const Stmt *S, std::vector<const Stmt *> *via = nullptr) {
    while (S) {
      if (via) via->push_back(S);
      if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<FullExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else break;
    }
    return S;
  }
  void emitRef(std::string &o, const ValueDecl *D) {
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      o += ",\"ec\":" + llvm::toString(EC->getInitVal(), 10) + ",\"q\":" + std::to_string(str(qname(EC)));
      return;
    }
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDeclOrParm() ) {
        o += ",\"v\":" + std::to_string(local(V));
        if (V->isStaticLocal()) o += ",\"stat\":1";
        o += ",\"n\":" + std::to_string(str(V->getName()));
        return;
      }
      o += ",\"g\":1";
    }
    if (isa<FunctionDecl>(D)) o += ",\"u\":" + std::to_string(str(usr(D)));
    o += ",\"q\":" + std::to_string(str(qname(D)));
  }
  void emitCallee(std::string &o, const FunctionDecl *F) {
    o += ",\"fn\":" + std::to_string(str(qname(F)));
    o += ",\"u\":" + std::to_string(str(usr(F)));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) o += ",\"cst\":1";
      if (M->isStatic()) o += ",\"sm\":1";
      if (M->isVirtual()) o += ",\"vm\":1";
    }
    if (auto *FP = F->getType()->getAs<FunctionProtoType>()) {
      if (FP->isNothrow()) o += ",\"ne\":1";
    }
    if (F->isNoReturn()) o += ",\"nr\":1";
  }
  void emit(std::string &o, const Stmt *S0) {
    if (!S0) { o += "null"; return; }
    std::vector<const Stmt *> via;
    const Stmt *S = peel(S0, &via);
    if (!S) { o += "null"; return; }
    int id = nextId++;
    for (auto *x : via) ids[x] = id;
    ids[S] = id;
    o += "{\"i\":" + std::to_string(id) + ",\"k\":\"";
    std::string kind = S->getStmtClassName();
    o += kind; o += "\"";
    SourceLocation L = S->getBeginLoc();
    if (auto *ME = dyn_cast<MemberExpr>(S)) L = ME->getMemberLoc();
    else if (auto *CE = dyn_cast<CallExpr>(S)) L = CE->getExprLoc();
    o += ",\"l\":" + std::to_string(lineOf(L));
    if (L.isMacroID()) {
      SourceLocation M = L;
      // outermost macro
      while (SM.getImmediateMacroCallerLoc(M).isMacroID()) M = SM.getImmediateMacroCallerLoc(M);
      o += ",\"m\":" + std::to_string(str(Lexer::getImmediateMacroName(M, SM, Ctx.getLangOpts())));
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      o += ",\"t\":" + std::to_string(type(E->getType()));
      if (E->isGLValue()) o += ",\"lv\":1";
    }
    std::vector<const Stmt *> ch;
    bool deflt = true;
    if (auto *E = dyn_cast<DeclRefExpr>(S)) emitRef(o, E->getDecl());
    else if (auto *E = dyn_cast<MemberExpr>(S)) {
      auto *D = E->getMemberDecl();
      if (isa<FunctionDecl>(D)) { o += ",\"u\":" + std::to_string(str(usr(D))); }
      o += ",\"mf\":" + std::to_string(str(qname(D)));
      if (auto *V = dyn_cast<VarDecl>(D)) { (void)V; o += ",\"g\":1"; }
      if (E->isArrow()) o += ",\"arrow\":1";
      if (E->hasQualifier()) o += ",\"qual\":1";
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      if (auto *F = E->getDirectCallee()) {
        emitCallee(o, F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
          if (M->isVirtual()) {
            bool virt = true;
            if (auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) if (ME->hasQualifier()) virt = false;
            if (virt) o += ",\"virt\":1";
          }
        }
      }
      if (auto *OE = dyn_cast<CXXOperatorCallExpr>(S)) { o += ",\"op\":"; jstr(o, getOperatorSpelling(OE->getOperator())); }
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      emitCallee(o, E->getConstructor());
      if (E->getConstructor()->isCopyConstructor()) o += ",\"cc\":1";
      if (E->getConstructor()->isMoveConstructor()) o += ",\"mc\":1";
      if (E->isElidable()) o += ",\"el\":1";
      if (E->getConstructor()->isImplicit()) o += ",\"impl\":1";
    } else if (auto *E = dyn_cast<IntegerLiteral>(S)) o += ",\"val\":" + llvm::toString(E->getValue(), 10, E->getType()->isSignedIntegerType());
    else if (auto *E = dyn_cast<CharacterLiteral>(S)) o += ",\"val\":" + std::to_string(E->getValue());
    else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) o += std::string(",\"val\":") + (E->getValue() ? "1" : "0");
    else if (auto *E = dyn_cast<FloatingLiteral>(S)) { o += ",\"fval\":"; llvm::SmallString<32> b; E->getValue().toString(b); jstr(o, b); }
    else if (auto *E = dyn_cast<StringLiteral>(S)) { o += ",\"s\":"; if (E->getCharByteWidth() == 1) jstr(o, E->getString()); else o += "\"\""; }
    else if (auto *E = dyn_cast<UnaryOperator>(S)) { o += ",\"op\":"; std::string n = UnaryOperator::getOpcodeStr(E->getOpcode()).str(); if (E->isPostfix()) n = "p" + n; jstr(o, n); }
    else if (auto *E = dyn_cast<BinaryOperator>(S)) { o += ",\"op\":"; jstr(o, E->getOpcodeStr()); }
    else if (auto *E = dyn_cast<CastExpr>(S)) {
      o += ",\"ck\":"; jstr(o, E->getCastKindName());
      if (auto *X = dyn_cast<ExplicitCastExpr>(S)) o += ",\"wt\":" + std::to_string(type(X->getTypeAsWritten()));
      if (auto *CF = dyn_cast_or_null<FunctionDecl>(E->getConversionFunction())) { o += ",\"fn\":" + std::to_string(str(qname(CF))); o += ",\"u\":" + std::to_string(str(usr(CF))); }
    } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      if (E->isArray()) o += ",\"arr\":1";
      o += ",\"nt\":" + std::to_string(type(E->getAllocatedType()));
      if (E->getNumPlacementArgs()) o += ",\"plc\":1";
    } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      if (E->isArrayForm()) o += ",\"arr\":1";
      o += ",\"nt\":" + std::to_string(type(E->getDestroyedType()));
    } else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { ch.push_back(E->getExpr()); deflt = false; }
    else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) { ch.push_back(E->getExpr()); deflt = false; }
    else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      if (!E->isInstantiationDependent()) { Expr::EvalResult R; if (E->EvaluateAsInt(R, Ctx)) o += ",\"val\":" + llvm::toString(R.Val.getInt(), 10); }
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      o += ",\"decls\":[";
      bool first = true;
      for (auto *X : D->decls()) {
        if (auto *V = dyn_cast<VarDecl>(X)) {
          if (!first) o += ","; first = false;
          o += "{\"v\":" + std::to_string(local(V)) + ",\"n\":"; jstr(o, V->getName());
          o += ",\"t\":" + std::to_string(type(V->getType()));
          if (V->isStaticLocal()) o += ",\"stat\":1";
          if (V->hasInit()) {
            o += ",\"init\":1";
            if (V->getInitStyle() == VarDecl::CallInit) o += ",\"call\":1";
            ch.push_back(V->getInit());
          } else ch.push_back(nullptr);
          o += "}";
        }
      }
      o += "]"; deflt = false;
    } else if (auto *C = dyn_cast<CaseStmt>(S)) {
      Expr::EvalResult R;
      if (C->getLHS() && !C->getLHS()->isInstantiationDependent() && C->getLHS()->EvaluateAsInt(R, Ctx)) o += ",\"val\":" + llvm::toString(R.Val.getInt(), 10);
      ch.push_back(C->getSubStmt()); deflt = false;
    } else if (auto *C = dyn_cast<CXXCatchStmt>(S)) {
      if (C->getExceptionDecl()) { o += ",\"ct\":" + std::to_string(type(C->getCaughtType())); o += ",\"v\":" + std::to_string(local(C->getExceptionDecl())); }
      ch.push_back(C->getHandlerBlock()); deflt = false;
    } else if (auto *F = dyn_cast<ForStmt>(S)) {
      o += ",\"parts\":1"; ch = {F->getInit(), F->getConditionVariableDeclStmt() ? (const Stmt *)F->getConditionVariableDeclStmt() : F->getCond(), F->getInc(), F->getBody()};
      if (F->getConditionVariableDeclStmt()) ch.push_back(F->getCond());
      deflt = false;
    } else if (auto *F = dyn_cast<IfStmt>(S)) {
      ch = {F->getCond(), F->getThen(), F->getElse(), F->getInit(), F->getConditionVariableDeclStmt()}; deflt = false;
    } else if (auto *F = dyn_cast<WhileStmt>(S)) { ch = {F->getCond(), F->getBody(), F->getConditionVariableDeclStmt()}; deflt = false; }
    else if (auto *F = dyn_cast<DoStmt>(S)) { ch = {F->getCond(), F->getBody()}; deflt = false; }
    else if (auto *F = dyn_cast<SwitchStmt>(S)) { ch = {F->getCond(), F->getBody()}; deflt = false;
      if (F->isAllEnumCasesCovered()) o += ",\"allenum\":1"; }
    else if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      ch = {F->getRangeStmt(), F->getBeginStmt(), F->getEndStmt(), F->getCond(), F->getInc(), F->getLoopVarStmt(), F->getBody()}; deflt = false;
    } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      o += ",\"fn\":" + std::to_string(str(qname(E->getCallOperator()))) + ",\"u\":" + std::to_string(str(usr(E->getCallOperator())));
      for (auto *I : E->capture_inits()) ch.push_back(I);
      if (E->getBody()) ch.push_back(E->getBody());
      o += ",\"caps\":" + std::to_string(E->capture_size());
      deflt = false;
    } else if (auto *E = dyn_cast<CXXScalarValueInitExpr>(S)) { (void)E; o += ",\"val\":0"; }
    else if (auto *E = dyn_cast<CXXDependentScopeMemberExpr>(S)) { o += ",\"dn\":"; jstr(o, E->getMember().getAsString()); if (E->isImplicitAccess()) deflt = false; }
    else if (auto *E = dyn_cast<UnresolvedMemberExpr>(S)) { o += ",\"dn\":"; jstr(o, E->getMemberName().getAsString()); if (E->isImplicitAccess()) deflt = false; }
    else if (auto *E = dyn_cast<UnresolvedLookupExpr>(S)) { o += ",\"dn\":"; jstr(o, E->getName().getAsString()); }
    else if (auto *E = dyn_cast<OpaqueValueExpr>(S)) { if (E->getSourceExpr()) ch.push_back(E->getSourceExpr()); deflt = false; }
    else if (auto *E = dyn_cast<CXXTypeidExpr>(S)) { (void)E; deflt = false; }
    if (auto *IL = dyn_cast<InitListExpr>(S)) { if (IL->isSemanticForm() == false && IL->getSemanticForm()) { for (auto *c : IL->getSemanticForm()->children()) ch.push_back(c); deflt = false; } }
    if (deflt) for (auto *c : S->children()) ch.push_back(c);
    if (!ch.empty()) {
      o += ",\"c\":[";
      for (size_t i = 0; i < ch.size(); ++i) { if (i) o += ","; emit(o, ch[i]); }
      o += "]";
    }
    o += "}";
  }
  int idOf(const Stmt *S) {
    if (!S) return -1;
    auto it = ids.find(S);
    if (it != ids.end()) return it->second;
    it = ids.find(peel(S));
    if (it != ids.end()) return it->second;
    return -1;
  }
  void cfg(std::string &o, const FunctionDecl *F, Stmt *Body) {
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddEHEdges = true;
    BO.PruneTriviallyFalseEdges = true; BO.AddTemporaryDtors = false; BO.AddCXXDefaultInitExprInCtors = true;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, Body, &Ctx, BO);
    if (!G) { BO.AddImplicitDtors = false; G = CFG::buildCFG(F, Body, &Ctx, BO); }
    if (!G) return;
    o += ",\"cfg\":{\"entry\":" + std::to_string(G->getEntry().getBlockID()) + ",\"exit\":" + std::to_string(G->getExit().getBlockID()) + ",\"b\":[";
    bool fb = true;
    // dtor/init/for-range synthesised statements may not have ids: dump extra
    for (CFGBlock *B : *G) {
      if (!fb) o += ","; fb = false;
      o += "{\"n\":" + std::to_string(B->getBlockID()) + ",\"e\":[";
      bool fe = true;
      for (auto &E : *B) {
        std::string e;
        if (auto S = E.getAs<CFGStmt>()) { int id = idOf(S->getStmt());
          if (id < 0) { if (auto *DS = dyn_cast<DeclStmt>(S->getStmt())) { // split declaration
              e = "{\"vd\":["; bool f1 = true; for (auto *d : DS->decls()) if (auto *V = dyn_cast<VarDecl>(d)) { if (!f1) e += ","; f1 = false; e += "[" + std::to_string(local(V)) + "," + std::to_string(V->hasInit() ? idOf(V->getInit()) : -1) + "]"; } e += "]}"; } else continue; }
          else e = std::to_string(id); }
        else if (auto I = E.getAs<CFGInitializer>()) {
          auto *CI = I->getInitializer();
          e = "{\"init\":" + std::to_string(idOf(CI->getInit()));
          if (CI->isAnyMemberInitializer()) e += ",\"mf\":" + std::to_string(str(qname(CI->getAnyMember())));
          e += "}";
        } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
          e = "{\"dtor\":" + std::to_string(local(D->getVarDecl())) + ",\"t\":" + std::to_string(type(D->getVarDecl()->getType())) + "}";
        } else if (auto D = E.getAs<CFGDeleteDtor>()) continue;
        else if (E.getKind() == CFGElement::MemberDtor) { auto M = E.castAs<CFGMemberDtor>(); e = "{\"mdtor\":" + std::to_string(str(qname(M.getFieldDecl()))) + "}"; }
        else continue;
        if (!fe) o += ","; fe = false;
        o += e;
      }
      o += "]";
      if (auto *T = B->getTerminatorStmt()) {
        int tid = idOf(T), cid = idOf(B->getTerminatorCondition());
        o += ",\"t\":" + std::to_string(tid) + ",\"tk\":\"" + T->getStmtClassName() + "\"";
        o += ",\"tc\":" + std::to_string(cid);
      }
      if (auto *L = B->getLabel()) {
        o += ",\"lab\":" + std::to_string(idOf(L)) + ",\"lk\":\"" + L->getStmtClassName() + "\"";
      }
      if (B->hasNoReturnElement()) o += ",\"nr\":1";
      o += ",\"s\":[";
      bool fs = true;
      for (auto &Su : B->succs()) {
        if (!fs) o += ","; fs = false;
        if (CFGBlock *R = Su.getReachableBlock()) o += std::to_string(R->getBlockID());
        else o += "-1";
      }
      o += "]}";
    }
    o += "]}";
  }
  void function(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->doesThisDeclarationHaveABody()) return;
    Def = F;
    if (Def->isDefaulted() && !Def->isExplicitlyDefaulted()) return;
    if (!inScope(Def->getLocation())) return;
    locals.clear(); ids.clear(); nextId = 0;
    std::string u = usr(Def);
    bool dep = Def->isDependentContext();
    std::string o = "{\"kind\":\"fn\",\"u\":" + std::to_string(str(u));
    o += ",\"q\":" + std::to_string(str(qname(Def)));
    o += ",\"file\":" + std::to_string(str(fileOf(Def->getLocation())));
    o += ",\"l\":" + std::to_string(lineOf(Def->getLocation()));
    o += ",\"el\":" + std::to_string(lineOf(Def->getEndLoc()));
    o += ",\"ret\":" + std::to_string(type(Def->getReturnType()));
    if (dep) o += ",\"dep\":1";
    if (Def->getTemplateInstantiationPattern()) { o += ",\"inst\":1"; }
    if (Def->isStatic()) o += ",\"static\":1";
    if (Def->getFormalLinkage() == Linkage::Internal) o += ",\"internal\":1";
    if (Def->isInlined()) o += ",\"inl\":1";
    if (auto *M = dyn_cast<CXXMethodDecl>(Def)) {
      o += ",\"cls\":" + std::to_string(str(qname(M->getParent())));
      o += ",\"clst\":" + std::to_string(type(Ctx.getRecordType(M->getParent())));
      if (M->isConst()) o += ",\"cst\":1";
      if (M->isVirtual()) o += ",\"vm\":1";
      if (isa<CXXConstructorDecl>(M)) { o += ",\"ctor\":1"; auto *CD = cast<CXXConstructorDecl>(M); if (CD->isCopyConstructor()) o += ",\"cc\":1"; if (CD->isDefaulted()) o += ",\"dflt\":1"; }
      if (isa<CXXDestructorDecl>(M)) o += ",\"dtor\":1";
      if (M->isCopyAssignmentOperator()) o += ",\"ca\":1";
      if (M->size_overridden_methods()) {
        o += ",\"ov\":["; bool f = true;
        for (auto *X : M->overridden_methods()) { if (!f) o += ","; f = false; o += std::to_string(str(usr(X))); }
        o += "]";
      }
      o += std::string(",\"acc\":\"") + (M->getAccess() == AS_public ? "pub" : M->getAccess() == AS_protected ? "prot" : "priv") + "\"";
    }
    if (auto *FP = Def->getType()->getAs<FunctionProtoType>()) if (!dep && FP->isNothrow()) o += ",\"ne\":1";
    o += ",\"params\":[";
    for (unsigned i = 0; i < Def->getNumParams(); ++i) {
      auto *P = Def->getParamDecl(i);
      if (i) o += ",";
      o += "{\"v\":" + std::to_string(local(P)) + ",\"n\":"; jstr(o, P->getName());
      o += ",\"t\":" + std::to_string(type(P->getType())) + "}";
    }
    o += "]";
    if (auto *C = dyn_cast<CXXConstructorDecl>(Def)) {
      o += ",\"inits\":["; bool f = true;
      for (auto *I : C->inits()) {
        if (!f) o += ","; f = false;
        o += "{";
        if (I->isAnyMemberInitializer()) o += "\"mf\":" + std::to_string(str(qname(I->getAnyMember())));
        else if (I->isBaseInitializer()) o += "\"base\":" + std::to_string(type(QualType(I->getBaseClass(), 0)));
        else o += "\"deleg\":1";
        if (I->isWritten()) o += ",\"w\":1";
        o += ",\"e\":"; emit(o, I->getInit());
        o += "}";
      }
      o += "]";
    }
    o += ",\"body\":"; emit(o, Def->getBody());
    if (!dep) cfg(o, Def, Def->getBody());
    o += "}";
    lines.push_back(std::to_string(str("F:" + u + (dep ? ":dep" : ""))) + "\t" + o);
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inScope(R->getLocation())) return;
    if (!doneRec.insert(R).second) return;
    bool dep = R->isDependentType();
    std::string o = "{\"kind\":\"rec\",\"u\":" + std::to_string(str(usr(R))) + ",\"q\":" + std::to_string(str(qname(R)));
    o += ",\"file\":" + std::to_string(str(fileOf(R->getLocation()))) + ",\"l\":" + std::to_string(lineOf(R->getLocation()));
    o += ",\"t\":" + std::to_string(type(Ctx.getRecordType(R)));
    if (dep) o += ",\"dep\":1";
    if (R->isLambda()) o += ",\"lambda\":1";
    if (R->isUnion()) o += ",\"union\":1";
    if (!dep) {
      if (R->isAbstract()) o += ",\"abs\":1";
      if (R->isPolymorphic()) o += ",\"poly\":1";
      if (R->isAggregate()) o += ",\"agg\":1";
      if (auto *D = R->getDestructor()) { if (D->isVirtual()) o += ",\"vdtor\":1"; if (D->isUserProvided()) o += ",\"udtor\":1"; o += std::string(",\"dacc\":\"") + (D->getAccess() == AS_public ? "pub" : D->getAccess() == AS_protected ? "prot" : "priv") + "\""; }
      if (R->hasUserDeclaredCopyConstructor()) o += ",\"ucc\":1";
      if (R->hasUserDeclaredCopyAssignment()) o += ",\"uca\":1";
      if (R->hasUserDeclaredMoveConstructor()) o += ",\"umc\":1";
      if (R->needsImplicitDefaultConstructor() || (!R->hasUserDeclaredConstructor())) o += ",\"idc\":1";
      if (R->hasUserProvidedDefaultConstructor()) o += ",\"udc\":1";
    }
    o += ",\"bases\":[";
    bool f = true;
    for (auto &B : R->bases()) { if (!f) o += ","; f = false; o += "[" + std::to_string(type(B.getType())) + "," + (B.isVirtual() ? "1" : "0") + "]"; }
    o += "],\"fields\":["; f = true;
    for (auto *X : R->fields()) {
      if (!f) o += ","; f = false;
      o += "{\"n\":"; jstr(o, X->getName()); o += ",\"q\":" + std::to_string(str(qname(X)));
      o += ",\"t\":" + std::to_string(type(X->getType())) + ",\"l\":" + std::to_string(lineOf(X->getLocation()));
      if (X->hasInClassInitializer()) o += ",\"init\":1";
      if (X->isMutable()) o += ",\"mut\":1";
      if (X->isBitField()) o += ",\"bf\":1";
      o += "}";
    }
    o += "],\"methods\":["; f = true;
    for (auto *M : R->methods()) {
      if (M->isImplicit()) continue;
      if (!f) o += ","; f = false;
      o += "{\"n\":"; jstr(o, M->getNameAsString()); o += ",\"u\":" + std::to_string(str(usr(M)));
      if (M->isVirtual()) o += ",\"vm\":1";
      if (M->isPureVirtual()) o += ",\"pure\":1";
      if (M->isConst()) o += ",\"cst\":1";
      if (M->isStatic()) o += ",\"sm\":1";
      if (M->isDeleted()) o += ",\"del\":1";
      if (M->isCopyAssignmentOperator()) o += ",\"ca\":1";
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) { o += ",\"ctor\":1"; if (C->isCopyConstructor()) o += ",\"cc\":1"; if (C->isDefaulted()) o += ",\"dflt\":1"; }
      if (isa<CXXDestructorDecl>(M)) o += ",\"dtor\":1";
      bool def = M->isDefined(); if (def) o += ",\"def\":1";
      o += ",\"ret\":" + std::to_string(type(M->getReturnType()));
      o += ",\"pt\":["; for (unsigned i = 0; i < M->getNumParams(); ++i) { if (i) o += ","; o += std::to_string(type(M->getParamDecl(i)->getType())); } o += "]";
      o += std::string(",\"acc\":\"") + (M->getAccess() == AS_public ? "pub" : M->getAccess() == AS_protected ? "prot" : "priv") + "\"";
      if (M->size_overridden_methods()) {
        o += ",\"ov\":["; bool g = true;
        for (auto *X : M->overridden_methods()) { if (!g) o += ","; g = false; o += std::to_string(str(usr(X))); }
        o += "]";
      }
      o += "}";
    }
    o += "]}";
    lines.push_back(std::to_string(str("R:" + usr(R) + ":" + fileOf(R->getLocation()))) + "\t" + o);
  }
  void variable(const VarDecl *V) {
    if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) return;
    if (!inScope(V->getLocation())) return;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
    locals.clear(); ids.clear(); nextId = 0;
    std::string o = "{\"kind\":\"var\",\"q\":" + std::to_string(str(qname(V)));
    o += ",\"file\":" + std::to_string(str(fileOf(V->getLocation()))) + ",\"l\":" + std::to_string(lineOf(V->getLocation()));
    o += ",\"t\":" + std::to_string(type(V->getType()));
    if (V->isStaticLocal()) o += ",\"stat\":1";
    if (V->isStaticDataMember()) o += ",\"sdm\":1";
    if (V->getFormalLinkage() == Linkage::Internal) o += ",\"internal\":1";
    if (V->getTSCSpec() != TSCS_unspecified) o += ",\"tls\":1";
    if (V->hasInit()) { o += ",\"init\":"; emit(o, V->getInit()); }
    o += "}";
    lines.push_back(std::to_string(str("V:" + qname(V) + ":" + fileOf(V->getLocation()) + ":" + std::to_string(lineOf(V->getLocation())))) + "\t" + o);
  }
  void enumeration(const EnumDecl *E) {
    if (!inScope(E->getLocation()) || !E->isThisDeclarationADefinition()) return;
    std::string o = "{\"kind\":\"enum\",\"q\":" + std::to_string(str(qname(E))) + ",\"file\":" + std::to_string(str(fileOf(E->getLocation()))) + ",\"l\":" + std::to_string(lineOf(E->getLocation())) + ",\"vals\":[";
    bool f = true;
    for (auto *C : E->enumerators()) { if (!f) o += ","; f = false; o += "["; jstr(o, C->getName()); o += "," + llvm::toString(C->getInitVal(), 10) + "]"; }
    o += "]}";
    lines.push_back(std::to_string(str("E:" + qname(E) + ":" + fileOf(E->getLocation()) + ":" + std::to_string(lineOf(E->getLocation())))) + "\t" + o);
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D;
  Visitor(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) { if (!F->getLocation().isInvalid()) D.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitVarDecl(VarDecl *V) { D.variable(V); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.enumeration(E); return true; }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(Ctx);
    Visitor V(D);
    // only declarations parsed in this unit (not those of the precompiled header), plus
    // instantiations made from them
    for (auto *X : Ctx.getTranslationUnitDecl()->noload_decls()) {
      SourceLocation L = X->getLocation();
      if (auto *NS = dyn_cast<LinkageSpecDecl>(X)) L = NS->getLocation();
      if (L.isInvalid()) continue;
      if (!D.inScope(L)) continue;
      V.TraverseDecl(X);
    }
    std::error_code EC;
    std::string tmp = OutFile + "." + std::to_string(getpid()) + ".tmp";
    {
      llvm::raw_fd_ostream O(tmp, EC);
      // dependencies
      std::string deps = "[";
      bool f = true;
      auto &SM = Ctx.getSourceManager();
      std::set<std::string> seen;
      for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
        std::string n = it->first.getName().str();
        if (n.compare(0, Root.size() + 1, Root + "/") == 0) n = Dumper::norm(n.substr(Root.size() + 1)); else if (n.size() && n[0] == '/') continue;
        if (!seen.insert(n).second) continue;
        if (!f) deps += ","; f = false; jstr(deps, n);
      }
      deps += "]";
      O << deps << "\n";
      std::string s = "[";
      for (size_t i = 0; i < D.strs.size(); ++i) { if (i) s += ","; jstr(s, D.strs[i]); }
      O << s << "]\n[";
      for (size_t i = 0; i < D.types.size(); ++i) { if (i) O << ","; O << D.types[i]; }
      O << "]\n";
      for (auto &l : D.lines) O << l << "\n";
    }
    rename(tmp.c_str(), OutFile.c_str());
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, char **argv) {
  int i = 1;
  for (; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") { ++i; break; }
    if (a.compare(0, 7, "--root=") == 0) Root = a.substr(7);
    else if (a.compare(0, 6, "--out=") == 0) OutFile = a.substr(6);
    else if (a.compare(0, 10, "--exclude=") == 0) Excludes.push_back(a.substr(10));
  }
  std::vector<std::string> cmd = {"clang++"};
  for (; i < argc; ++i) cmd.push_back(argv[i]);
  cmd.push_back("-fsyntax-only");
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation TI(cmd, std::make_unique<Action>(), FM.get(), std::make_shared<PCHContainerOperations>());
  return TI.run() ? 0 : 1;
}
