// Dumps the resolved program of one translation unit as JSON lines:
//   <kind>\t<key>\t<json>
// kind: F function definition, R record, E enum, G global/static variable,
//       D function declaration without body (for attributes only).
#include <map>
#include <set>
#include <string>
#include <fstream>
#include <sstream>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/Mangle.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using std::string;

static string ROOT = "/repo/";
static std::ofstream OUT;
static std::ofstream DEPS;

static void esc(string& o, llvm::StringRef s) {
  o += '"';
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      case '\r': o += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", c);
          o += b;
        } else {
          o += (char)c;
        }
    }
  }
  o += '"';
}

struct Dumper {
  ASTContext& C;
  const SourceManager& SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  std::map<const void*, string> typeCache;
  int nextId = 0;
  string o;

  explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.TerseOutput = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
    PP.AnonymousTagLocations = true;
    PP.UsePreferredNames = false;
  }

  string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::SmallString<256> p(F->getFileEntry().tryGetRealPathName());
    if (p.empty()) p = F->getName();
    llvm::StringRef s(p);
    if (s.starts_with(ROOT)) s = s.drop_front(ROOT.size());
    return s.str();
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inSrc(SourceLocation L) {
    if (L.isInvalid()) return false;
    return llvm::StringRef(fileOf(L)).starts_with("src/");
  }

  static void replaceAll(string& s, llvm::StringRef a, llvm::StringRef b) {
    size_t p = 0;
    while ((p = s.find(a.data(), p, a.size())) != string::npos) {
      s.replace(p, a.size(), b.data(), b.size());
      p += b.size();
    }
  }
  string typeStr(QualType T) {
    if (T.isNull()) return "";
    T = T.getCanonicalType();
    auto it = typeCache.find(T.getAsOpaquePtr());
    if (it != typeCache.end()) return it->second;
    string s = T.getAsString(PP);
    replaceAll(s, "std::__cxx11::", "std::");
    replaceAll(s, "std::basic_string<char>", "std::string");
    replaceAll(s, "std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string");
    replaceAll(s, "std::basic_string_view<char>", "std::string_view");
    replaceAll(s, ROOT, "");
    typeCache[T.getAsOpaquePtr()] = s;
    return s;
  }

  string normArg(const TemplateArgument& A) {
    switch (A.getKind()) {
      case TemplateArgument::Integral: {
        if (A.getIntegralType()->isBooleanType()) return A.getAsIntegral() == 0 ? "false" : "true";
        if (A.getIntegralType()->isEnumeralType()) {
          llvm::SmallString<16> s;
          A.getAsIntegral().toString(s, 10);
          return s.str().str();
        }
        return A.getAsIntegral() == 0 ? "0" : "N";
      }
      case TemplateArgument::Type:
        return normType(A.getAsType());
      case TemplateArgument::Pack: {
        string r;
        for (auto& x : A.pack_elements()) {
          if (!r.empty()) r += ",";
          r += normArg(x);
        }
        return r;
      }
      default: {
        string s;
        llvm::raw_string_ostream os(s);
        A.print(PP, os, true);
        return os.str();
      }
    }
  }
  // type with integral template arguments collapsed
  string normType(QualType T) {
    QualType CT = T.getCanonicalType();
    if (auto* RT = CT->getAs<RecordType>()) {
      if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RT->getDecl())) {
        if (S->getQualifiedNameAsString().rfind("std::", 0) != 0) return recKey(S);
      }
      if (RT->getDecl()->isLambda()) return lambdaKey(RT->getAsCXXRecordDecl());
    }
    return typeStr(T);
  }
  string lambdaKey(const CXXRecordDecl* R) {
    SourceLocation L = SM.getExpansionLoc(R->getBeginLoc());
    return "lambda@" + fileOf(L) + ":" + std::to_string(SM.getExpansionLineNumber(L)) + ":" +
           std::to_string(SM.getExpansionColumnNumber(L));
  }

  string ctxKey(const DeclContext* DC) {
    string r;
    while (DC && !DC->isTranslationUnit()) {
      string part;
      if (auto* N = dyn_cast<NamespaceDecl>(DC)) {
        if (N->isInline() ) { DC = DC->getParent(); continue; }
        if (N->isAnonymousNamespace()) part = "(anon:" + fileOf(N->getLocation()) + ")";
        else part = N->getNameAsString();
      } else if (auto* R = dyn_cast<CXXRecordDecl>(DC)) {
        return recKey(R) + (r.empty() ? "" : "::" + r);
      } else if (auto* F = dyn_cast<FunctionDecl>(DC)) {
        return fnKey(F) + (r.empty() ? "" : "::" + r);
      } else {
        DC = DC->getParent();
        continue;
      }
      r = part + (r.empty() ? "" : "::" + r);
      DC = DC->getParent();
    }
    return r;
  }
  string recKey(const RecordDecl* R) {
    if (auto* CR = dyn_cast<CXXRecordDecl>(R))
      if (CR->isLambda()) return lambdaKey(CR);
    string c = ctxKey(R->getDeclContext());
    string n = R->getNameAsString();
    if (n.empty()) {
      if (auto* TD = R->getTypedefNameForAnonDecl()) n = TD->getNameAsString();
      else n = "(anon@" + fileOf(R->getLocation()) + ":" + std::to_string(lineOf(R->getLocation())) + ")";
    }
    if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      n += "<";
      bool f = true;
      for (auto& A : S->getTemplateArgs().asArray()) {
        if (!f) n += ",";
        f = false;
        n += normArg(A);
      }
      n += ">";
    }
    return c.empty() ? n : c + "::" + n;
  }
  string shortName(const NamedDecl* D) { return D->getNameAsString(); }
  // qualified name without template arguments
  string qn(const NamedDecl* D) {
    string s = D->getNameAsString();
    const DeclContext* DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto* N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline() && !N->isAnonymousNamespace()) s = N->getNameAsString() + "::" + s;
      } else if (auto* R = dyn_cast<RecordDecl>(DC)) {
        if (auto* CR = dyn_cast<CXXRecordDecl>(R); CR && CR->isLambda()) s = "lambda::" + s;
        else s = R->getNameAsString() + "::" + s;
      } else if (isa<FunctionDecl>(DC)) {
        s = cast<FunctionDecl>(DC)->getNameAsString() + "()::" + s;
      }
      DC = DC->getParent();
    }
    return s;
  }
  string fnKey(const FunctionDecl* F) {
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) {
        string r = lambdaKey(M->getParent());
        if (auto* TA = F->getTemplateSpecializationArgs()) {
          r += "<";
          for (auto& A : TA->asArray()) r += normArg(A) + ",";
          r += ">";
        }
        return r + (M->getNameAsString() == "operator()" ? "" : "::" + M->getNameAsString());
      }
    }
    string r = ctxKey(F->getDeclContext());
    string n = F->getNameAsString();
    if (isa<CXXConstructorDecl>(F)) n = "(ctor)";
    if (isa<CXXDestructorDecl>(F)) n = "(dtor)";
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      n += "<";
      bool f = true;
      for (auto& A : TA->asArray()) {
        if (!f) n += ",";
        f = false;
        n += normArg(A);
      }
      n += ">";
    }
    const FunctionDecl* P = F->getTemplateInstantiationPattern();
    if (!P) P = F;
    n += "(";
    bool first = true;
    for (auto* p : P->parameters()) {
      if (!first) n += ",";
      first = false;
      n += typeStr(p->getType());
    }
    n += ")";
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) n += "const";
      if (M->getRefQualifier() == RQ_RValue) n += "&&";
      if (M->getRefQualifier() == RQ_LValue) n += "&";
    }
    if (F->getDeclContext()->isFileContext() && F->getFormalLinkage() == Linkage::Internal && !isa<CXXMethodDecl>(F))
      n += "@" + fileOf(F->getLocation());
    return r.empty() ? n : r + "::" + n;
  }

  int idOf(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    return ids[D] = ++nextId;
  }

  // --- JSON helpers
  void kv(const char* k, llvm::StringRef v) { o += ",\""; o += k; o += "\":"; esc(o, v); }
  void kvi(const char* k, long long v) { o += ",\""; o += k; o += "\":"; o += std::to_string(v); }
  void kn(const char* k) { o += ",\""; o += k; o += "\":"; }
  void open(const char* k, unsigned line, unsigned pl) {
    o += "{\"k\":\"";
    o += k;
    o += "\"";
    if (line && line != pl) kvi("l", line);
  }

  bool isRefLike(const Expr*) { return true; }

  void stmtOrNull(const char* k, const Stmt* S, unsigned pl) {
    if (!S) return;
    kn(k);
    stmt(S, pl);
  }
  template <class R>
  void list(const char* k, const R& r, unsigned pl) {
    kn(k);
    o += "[";
    bool f = true;
    for (const Stmt* s : r) {
      if (!s) continue;
      if (!f) o += ",";
      f = false;
      stmt(s, pl);
    }
    o += "]";
  }

  void varDecl(const VarDecl* V, unsigned pl) {
    unsigned l = lineOf(V->getLocation());
    open("var", l, pl);
    kvi("id", idOf(V));
    kv("n", V->getNameAsString());
    kv("t", typeStr(V->getType()));
    if (V->isStaticLocal()) kvi("static", 1);
    if (V->getTLSKind() != VarDecl::TLS_None) kvi("tls", 1);
    if (V->isConstexpr()) kvi("cx", 1);
    if (auto* D = dyn_cast<DecompositionDecl>(V)) {
      kn("bind");
      o += "[";
      bool f = true;
      for (auto* b : D->bindings()) {
        if (!f) o += ",";
        f = false;
        o += "{\"id\":" + std::to_string(idOf(b)) + ",\"n\":";
        esc(o, b->getNameAsString());
        o += "}";
      }
      o += "]";
    }
    if (V->hasInit() && !isa<ParmVarDecl>(V)) {
      kn("init");
      stmt(V->getInit(), l);
      if (V->getInitStyle() == VarDecl::CallInit) kv("is", "call");
      if (V->getInitStyle() == VarDecl::ListInit) kv("is", "list");
    }
    o += "}";
  }

  void calleeInfo(const FunctionDecl* F) {
    if (!F) return;
    kv("fn", qn(F));
    kv("fk", fnKey(F));
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) kvi("virt", 1);
      if (M->isConst()) kvi("cm", 1);
      if (M->isStatic()) kvi("sm", 1);
    }
    auto* FPT = F->getType()->getAs<FunctionProtoType>();
    if (FPT && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow()) kvi("nx", 1);
    if (F->isNoReturn()) kvi("nr", 1);
    // parameter kinds: r = lvalue ref to non-const, c = const ref, m = rvalue ref, p = ptr to nonconst, q = ptr to const, v = value
    string pk;
    for (auto* p : F->parameters()) {
      QualType t = p->getType();
      if (t->isLValueReferenceType()) pk += t->getPointeeType().isConstQualified() ? 'c' : 'r';
      else if (t->isRValueReferenceType()) pk += 'm';
      else if (t->isPointerType()) pk += t->getPointeeType().isConstQualified() ? 'q' : 'p';
      else pk += 'v';
    }
    kv("pk", pk);
  }

  void addConst(const Expr* E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    if (!E->getType()->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      llvm::SmallString<24> s;
      R.Val.getInt().toString(s, 10);
      o += ",\"v\":";
      o += s.str();
    }
  }

  void lambda(const LambdaExpr* L, unsigned pl) {
    unsigned l = lineOf(L->getBeginLoc());
    open("lambda", l, pl);
    kv("key", lambdaKey(L->getLambdaClass()));
    kn("caps");
    o += "[";
    bool f = true;
    auto initIt = L->capture_init_begin();
    for (auto& c : L->captures()) {
      if (!f) o += ",";
      f = false;
      o += "{";
      if (c.capturesThis()) {
        o += "\"this\":1";
      } else if (c.capturesVariable()) {
        auto* V = c.getCapturedVar();
        o += "\"id\":" + std::to_string(idOf(V)) + ",\"n\":";
        esc(o, V->getNameAsString());
        o += ",\"by\":\"";
        o += c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
        o += "\"";
        if (L->isInitCapture(&c)) {
          o += ",\"init\":";
          if (auto* VD = dyn_cast<VarDecl>(V); VD && VD->getInit()) stmt(VD->getInit(), l);
          else o += "null";
        }
      }
      o += "}";
      ++initIt;
    }
    o += "]";
    auto* M = L->getCallOperator();
    kn("params");
    params(M, l);
    if (M->isConst()) kvi("const", 1);
    if (L->isGenericLambda()) kvi("generic", 1);
    kv("rt", typeStr(M->getReturnType()));
    kn("body");
    stmt(L->getBody(), l);
    o += "}";
  }
  void params(const FunctionDecl* F, unsigned pl) {
    o += "[";
    bool f = true;
    for (auto* p : F->parameters()) {
      if (!f) o += ",";
      f = false;
      o += "{\"id\":" + std::to_string(idOf(p)) + ",\"n\":";
      esc(o, p->getNameAsString());
      kv("t", typeStr(p->getType()));
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) {
        kn("def");
        stmt(const_cast<Expr*>(p->getDefaultArg()), pl);
      }
      o += "}";
    }
    o += "]";
  }

  string ownerKey(const ValueDecl* D) {
    if (auto* R = dyn_cast<CXXRecordDecl>(D->getDeclContext())) return recKey(R);
    return "";
  }

  void fieldName(const ValueDecl* D) {
    string own = ownerKey(D);
    kv("n", D->getNameAsString());
    kv("f", own + "::" + D->getNameAsString());
  }

  void stmt(const Stmt* S, unsigned pl, const char* ic = nullptr) {
    if (!S) {
      o += "null";
      return;
    }
    // transparent wrappers
    if (auto* E = dyn_cast<ImplicitCastExpr>(S)) {
      switch (E->getCastKind()) {
        case CK_IntegralCast:
        case CK_FloatingCast:
        case CK_FloatingToIntegral:
        case CK_IntegralToFloating:
        case CK_IntegralToBoolean:
        case CK_PointerToBoolean: {
          string ts = typeStr(E->getType());
          return stmt(E->getSubExpr(), pl, ts.c_str());
        }
        default:
          return stmt(E->getSubExpr(), pl, ic);
      }
    }
    if (auto* E = dyn_cast<FullExpr>(S)) return stmt(E->getSubExpr(), pl, ic);
    if (auto* E = dyn_cast<ParenExpr>(S)) return stmt(E->getSubExpr(), pl, ic);
    if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) return stmt(E->getSubExpr(), pl, ic);
    if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) return stmt(E->getSubExpr(), pl, ic);
    if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) {
      // remember that the value comes from a template parameter
      return stmt(E->getReplacement(), pl, ic);
    }
    if (auto* E = dyn_cast<CXXRewrittenBinaryOperator>(S)) return stmt(E->getSemanticForm(), pl, ic);
    if (auto* E = dyn_cast<CXXStdInitializerListExpr>(S)) return stmt(E->getSubExpr(), pl, ic);
    if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) {
      (void)E;
      open("definit", 0, pl);
      o += "}";
      return;
    }
    if (auto* E = dyn_cast<CXXDefaultArgExpr>(S)) {
      open("defarg", 0, pl);
      kn("e");
      stmt(E->getExpr(), pl, ic);
      o += "}";
      return;
    }
    unsigned l = lineOf(S->getBeginLoc());
    if (auto* E = dyn_cast<CXXMemberCallExpr>(S)) l = lineOf(E->getExprLoc());
    unsigned nl = l ? l : pl;

    auto finishExpr = [&](const Expr* E) {
      if (ic) kv("ic", ic);
      o += "}";
    };

    if (auto* E = dyn_cast<DeclRefExpr>(S)) {
      auto* D = E->getDecl();
      open("ref", l, pl);
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        kv("dk", "enum");
        kv("n", EC->getNameAsString());
        kv("en", qn(cast<NamedDecl>(EC->getDeclContext())));
        kvi("v", EC->getInitVal().getExtValue());
      } else if (auto* F = dyn_cast<FunctionDecl>(D)) {
        kv("dk", "fn");
        kv("n", F->getNameAsString());
        calleeInfo(F);
      } else if (auto* B = dyn_cast<BindingDecl>(D)) {
        kv("dk", "bind");
        kv("n", B->getNameAsString());
        kvi("id", idOf(B));
      } else if (auto* V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          kv("dk", "global");
          kv("n", V->getNameAsString());
          kv("g", ctxKey(V->getDeclContext()) + "::" + V->getNameAsString());
        } else {
          kv("dk", isa<ParmVarDecl>(V) ? "parm" : (V->isStaticLocal() ? "slocal" : "var"));
          kv("n", V->getNameAsString());
          kvi("id", idOf(V));
        }
        kv("t", typeStr(V->getType()));
        if (V->getType().isConstQualified() || V->isConstexpr()) addConst(E);
      } else {
        kv("dk", "other");
        kv("n", D->getNameAsString());
      }
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<MemberExpr>(S)) {
      auto* D = E->getMemberDecl();
      l = lineOf(E->getMemberLoc());
      nl = l ? l : pl;
      if (isa<VarDecl>(D)) {
        open("ref", l, pl);
        kv("dk", "global");
        kv("n", D->getNameAsString());
        kv("g", ctxKey(D->getDeclContext()) + "::" + D->getNameAsString());
        kv("t", typeStr(D->getType()));
        return finishExpr(E);
      }
      open("mem", l, pl);
      fieldName(D);
      kv("t", typeStr(E->getType()));
      if (E->isArrow()) kvi("arrow", 1);
      if (auto* F = dyn_cast<FunctionDecl>(D)) calleeInfo(F);
      kn("b");
      stmt(E->getBase(), nl);
      return finishExpr(E);
    }
    if (isa<CXXThisExpr>(S)) {
      open("this", l, pl);
      kv("t", typeStr(cast<Expr>(S)->getType()));
      return finishExpr(cast<Expr>(S));
    }
    if (auto* E = dyn_cast<CXXOperatorCallExpr>(S)) {
      l = lineOf(E->getOperatorLoc());
      nl = l ? l : pl;
      open("call", l, pl);
      kv("op", getOperatorSpelling(E->getOperator()));
      calleeInfo(E->getDirectCallee());
      if (!E->getDirectCallee()) kvi("dep", 1);
      if (E->getDirectCallee() && isa<CXXMethodDecl>(E->getDirectCallee())) kvi("mo", 1);
      kv("t", typeStr(E->getType()));
      list("a", E->arguments(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CXXMemberCallExpr>(S)) {
      open("call", l, pl);
      calleeInfo(E->getMethodDecl());
      kv("t", typeStr(E->getType()));
      auto* ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParenImpCasts());
      if (ME) {
        if (ME->isArrow()) kvi("arrow", 1);
        if (ME->hasQualifier()) kvi("qual", 1);
        kn("o");
        stmt(ME->getBase(), nl);
      } else {
        kn("ce");
        stmt(E->getCallee(), nl);
      }
      list("a", E->arguments(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<UserDefinedLiteral>(S)) {
      open("call", l, pl);
      calleeInfo(E->getDirectCallee());
      kv("t", typeStr(E->getType()));
      list("a", E->arguments(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CallExpr>(S)) {
      open("call", l, pl);
      auto* F = E->getDirectCallee();
      if (F) calleeInfo(F);
      else {
        kn("ce");
        stmt(E->getCallee(), nl);
      }
      if (!E->isTypeDependent()) kv("t", typeStr(E->getType()));
      else kvi("dep", 1);
      list("a", E->arguments(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
      open("ctor", l, pl);
      kv("t", typeStr(E->getType()));
      calleeInfo(E->getConstructor());
      o += ",\"a\":[]";
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
      // elide copy/move of a prvalue
      if (E->isElidable() && E->getNumArgs() == 1) return stmt(E->getArg(0), pl, ic);
      open("ctor", l, pl);
      kv("t", typeStr(E->getType()));
      auto* CD = E->getConstructor();
      calleeInfo(CD);
      if (CD->isCopyConstructor()) kv("cm2", "copy");
      if (CD->isMoveConstructor()) kv("cm2", "move");
      if (isa<CXXTemporaryObjectExpr>(E)) kvi("tmp", 1);
      if (E->isListInitialization()) kvi("li", 1);
      if (E->requiresZeroInitialization()) kvi("zero", 1);
      list("a", E->arguments(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CXXUnresolvedConstructExpr>(S)) {
      open("ctor", l, pl);
      kv("t", typeStr(E->getTypeAsWritten()));
      kvi("dep", 1);
      list("a", E->arguments(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<BinaryOperator>(S)) {
      l = lineOf(E->getOperatorLoc());
      nl = l ? l : pl;
      open("bin", l, pl);
      kv("op", E->getOpcodeStr());
      kv("t", typeStr(E->getType()));
      kn("x");
      stmt(E->getLHS(), nl);
      kn("y");
      stmt(E->getRHS(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<UnaryOperator>(S)) {
      open("un", l, pl);
      string op = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) op = "p" + op;
      kv("op", op);
      kv("t", typeStr(E->getType()));
      kn("x");
      stmt(E->getSubExpr(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<AbstractConditionalOperator>(S)) {
      open("cond", l, pl);
      kv("t", typeStr(E->getType()));
      kn("c");
      stmt(E->getCond(), nl);
      kn("x");
      stmt(E->getTrueExpr(), nl);
      kn("y");
      stmt(E->getFalseExpr(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<ExplicitCastExpr>(S)) {
      // functional cast around a constructor is transparent
      if (isa<CXXFunctionalCastExpr>(E) && isa<CXXConstructExpr>(E->getSubExpr()->IgnoreImplicit()) )
        return stmt(E->getSubExpr(), pl, ic);
      open("cast", l, pl);
      kv("t", typeStr(E->getType()));
      kv("ck", E->getCastKindName());
      kv("st", isa<CXXStaticCastExpr>(E) ? "static" : isa<CXXReinterpretCastExpr>(E) ? "reinterpret"
               : isa<CXXConstCastExpr>(E) ? "const" : isa<CXXDynamicCastExpr>(E) ? "dynamic"
               : isa<CXXFunctionalCastExpr>(E) ? "func" : "c");
      kn("e");
      stmt(E->getSubExpr(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<IntegerLiteral>(S)) {
      open("int", l, pl);
      llvm::SmallString<24> s;
      E->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
      o += ",\"v\":";
      o += s.str();
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CharacterLiteral>(S)) {
      open("char", l, pl);
      kvi("v", E->getValue());
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<FloatingLiteral>(S)) {
      open("flt", l, pl);
      llvm::SmallString<24> s;
      E->getValue().toString(s);
      kv("v", s);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<StringLiteral>(S)) {
      open("str", l, pl);
      kv("v", E->isOrdinary() || E->isUTF8() ? E->getString() : "");
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<PredefinedExpr>(S)) {
      open("str", l, pl);
      kv("v", E->getFunctionName() ? E->getFunctionName()->getString() : "");
      kvi("pre", 1);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      open("bool", l, pl);
      kvi("v", E->getValue());
      return finishExpr(E);
    }
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      open("null", l, pl);
      return finishExpr(cast<Expr>(S));
    }
    if (auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      open("sizeof", l, pl);
      addConst(E);
      kv("st", E->isArgumentType() ? typeStr(E->getArgumentType()) : typeStr(E->getArgumentExpr()->getType()));
      if (!E->isArgumentType()) {
        kn("e");
        stmt(E->getArgumentExpr(), nl);
      }
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<LambdaExpr>(S)) return lambda(E, pl);
    if (auto* E = dyn_cast<CXXNewExpr>(S)) {
      open("new", l, pl);
      kv("t", typeStr(E->getAllocatedType()));
      if (E->isArray()) {
        kvi("arr", 1);
        if (E->getArraySize() && *E->getArraySize()) {
          kn("n");
          stmt(*E->getArraySize(), nl);
        }
      }
      if (E->getNumPlacementArgs()) {
        kn("pl");
        o += "[";
        for (unsigned i = 0; i < E->getNumPlacementArgs(); ++i) {
          if (i) o += ",";
          stmt(E->getPlacementArg(i), nl);
        }
        o += "]";
      }
      if (E->getInitializer()) {
        kn("init");
        stmt(E->getInitializer(), nl);
      }
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CXXDeleteExpr>(S)) {
      open("delete", l, pl);
      if (E->isArrayForm()) kvi("arr", 1);
      kn("e");
      stmt(E->getArgument(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CXXThrowExpr>(S)) {
      open("throw", l, pl);
      if (E->getSubExpr()) {
        kv("t", typeStr(E->getSubExpr()->getType()));
        kn("e");
        stmt(E->getSubExpr(), nl);
      }
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<InitListExpr>(S)) {
      const InitListExpr* I = E;
      if (I->isSyntacticForm() && I->getSemanticForm()) I = I->getSemanticForm();
      open("list", l, pl);
      kv("t", typeStr(I->getType()));
      list("a", I->inits(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<ParenListExpr>(S)) {
      open("list", l, pl);
      o += ",\"a\":[";
      for (unsigned i = 0; i < E->getNumExprs(); ++i) {
        if (i) o += ",";
        stmt(E->getExpr(i), nl);
      }
      o += "]";
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<ArraySubscriptExpr>(S)) {
      open("sub", l, pl);
      kv("t", typeStr(E->getType()));
      kn("b");
      stmt(E->getBase(), nl);
      kn("i");
      stmt(E->getIdx(), nl);
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CXXDependentScopeMemberExpr>(S)) {
      open("mem", l, pl);
      kv("n", E->getMember().getAsString());
      kvi("dep", 1);
      if (!E->isImplicitAccess()) {
        kn("b");
        stmt(E->getBase(), nl);
      }
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<UnresolvedMemberExpr>(S)) {
      open("mem", l, pl);
      kv("n", E->getMemberName().getAsString());
      kvi("dep", 1);
      if (!E->isImplicitAccess()) {
        kn("b");
        stmt(E->getBase(), nl);
      }
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<UnresolvedLookupExpr>(S)) {
      open("ref", l, pl);
      kv("dk", "dep");
      kv("n", E->getName().getAsString());
      if (E->hasExplicitTemplateArgs()) {
        string ta;
        for (auto& A : E->template_arguments()) {
          if (!ta.empty()) ta += ", ";
          if (A.getArgument().getKind() == TemplateArgument::Type) ta += typeStr(A.getArgument().getAsType());
        }
        kv("ta", ta);
      }
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<DependentScopeDeclRefExpr>(S)) {
      open("ref", l, pl);
      kv("dk", "dep");
      kv("n", E->getDeclName().getAsString());
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<CXXScalarValueInitExpr>(S)) {
      open("zero", l, pl);
      kv("t", typeStr(E->getType()));
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<ImplicitValueInitExpr>(S)) {
      open("zero", l, pl);
      kv("t", typeStr(E->getType()));
      return finishExpr(E);
    }
    if (auto* E = dyn_cast<TypeTraitExpr>(S)) {
      open("bool", l, pl);
      if (!E->isValueDependent()) kvi("v", E->getValue());
      return finishExpr(E);
    }
    // --- statements
    if (auto* X = dyn_cast<CompoundStmt>(S)) {
      open("blk", l, pl);
      kvi("el", lineOf(X->getEndLoc()));
      list("s", X->body(), nl);
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<DeclStmt>(S)) {
      open("decl", l, pl);
      kn("d");
      o += "[";
      bool f = true;
      for (auto* d : X->decls()) {
        if (auto* V = dyn_cast<VarDecl>(d)) {
          if (!f) o += ",";
          f = false;
          varDecl(V, nl);
        }
      }
      o += "]}";
      return;
    }
    if (auto* X = dyn_cast<IfStmt>(S)) {
      open("if", l, pl);
      if (X->isConstexpr()) {
        kvi("cx", 1);
        if (!X->getCond()->isValueDependent()) {
          Expr::EvalResult R;
          if (X->getCond()->EvaluateAsInt(R, C)) kvi("cv", R.Val.getInt().getBoolValue() ? 1 : 0);
        }
      }
      stmtOrNull("init", X->getInit(), nl);
      if (X->getConditionVariableDeclStmt()) stmtOrNull("cvar", X->getConditionVariableDeclStmt(), nl);
      kn("c");
      stmt(X->getCond(), nl);
      kn("x");
      stmt(X->getThen(), nl);
      stmtOrNull("y", X->getElse(), nl);
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<ForStmt>(S)) {
      open("for", l, pl);
      stmtOrNull("init", X->getInit(), nl);
      stmtOrNull("c", X->getCond(), nl);
      stmtOrNull("inc", X->getInc(), nl);
      kn("body");
      stmt(X->getBody(), nl);
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<WhileStmt>(S)) {
      open("while", l, pl);
      if (X->getConditionVariableDeclStmt()) stmtOrNull("cvar", X->getConditionVariableDeclStmt(), nl);
      kn("c");
      stmt(X->getCond(), nl);
      kn("body");
      stmt(X->getBody(), nl);
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<DoStmt>(S)) {
      open("do", l, pl);
      kn("c");
      stmt(X->getCond(), nl);
      kn("body");
      stmt(X->getBody(), nl);
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      open("rfor", l, pl);
      kn("var");
      varDecl(X->getLoopVariable(), nl);
      kn("range");
      stmt(X->getRangeInit(), nl);
      kn("body");
      stmt(X->getBody(), nl);
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<SwitchStmt>(S)) {
      open("switch", l, pl);
      stmtOrNull("init", X->getInit(), nl);
      kv("t", typeStr(X->getCond()->IgnoreParenImpCasts()->getType()));
      kn("c");
      stmt(X->getCond(), nl);
      kn("body");
      stmt(X->getBody(), nl);
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<CaseStmt>(S)) {
      open("case", l, pl);
      kn("v");
      stmt(X->getLHS(), nl);
      {
        Expr::EvalResult R;
        if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C)) {
          llvm::SmallString<24> s;
          R.Val.getInt().toString(s, 10);
          o += ",\"cv\":";
          o += s.str();
        }
      }
      kn("s");
      stmt(X->getSubStmt(), nl);
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<DefaultStmt>(S)) {
      open("default", l, pl);
      kn("s");
      stmt(X->getSubStmt(), nl);
      o += "}";
      return;
    }
    if (isa<BreakStmt>(S)) { open("break", l, pl); o += "}"; return; }
    if (isa<ContinueStmt>(S)) { open("cont", l, pl); o += "}"; return; }
    if (isa<NullStmt>(S)) { open("nop", l, pl); o += "}"; return; }
    if (auto* X = dyn_cast<ReturnStmt>(S)) {
      open("ret", l, pl);
      stmtOrNull("e", X->getRetValue(), nl);
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<CXXTryStmt>(S)) {
      open("try", l, pl);
      kn("body");
      stmt(X->getTryBlock(), nl);
      kn("h");
      o += "[";
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        if (i) o += ",";
        auto* H = X->getHandler(i);
        unsigned hl = lineOf(H->getBeginLoc());
        open("catch", hl, nl);
        if (H->getExceptionDecl()) {
          kv("t", typeStr(H->getCaughtType()));
          kvi("id", idOf(H->getExceptionDecl()));
          kv("n", H->getExceptionDecl()->getNameAsString());
        } else {
          kvi("all", 1);
        }
        kn("body");
        stmt(H->getHandlerBlock(), hl ? hl : nl);
        o += "}";
      }
      o += "]}";
      return;
    }
    if (auto* X = dyn_cast<OMPExecutableDirective>(S)) {
      open("omp", l, pl);
      kv("n", X->getStmtClassName());
      if (X->hasAssociatedStmt()) {
        kn("body");
        const Stmt* B = X->getAssociatedStmt();
        while (auto* CS = dyn_cast<CapturedStmt>(B)) B = CS->getCapturedStmt();
        stmt(B, nl);
      }
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt(), pl);
    if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt(), pl);
    if (auto* X = dyn_cast<GotoStmt>(S)) {
      open("goto", l, pl);
      kv("n", X->getLabel()->getNameAsString());
      o += "}";
      return;
    }
    if (auto* X = dyn_cast<LabelStmt>(S)) {
      open("label", l, pl);
      kv("n", X->getDecl()->getNameAsString());
      kn("s");
      stmt(X->getSubStmt(), nl);
      o += "}";
      return;
    }
    // generic fallback
    open("gen", l, pl);
    kv("n", S->getStmtClassName());
    list("ch", S->children(), nl);
    if (auto* E = dyn_cast<Expr>(S)) {
      addConst(E);
      return finishExpr(E);
    }
    o += "}";
  }

  void function(const FunctionDecl* F) {
    ids.clear();
    nextId = 0;
    o.clear();
    unsigned l = lineOf(F->getLocation());
    o += "{\"k\":\"function\"";
    kv("n", F->getNameAsString());
    kv("qn", qn(F));
    kv("file", fileOf(F->getLocation()));
    kvi("l", l);
    kvi("el", lineOf(F->getEndLoc()));
    kv("rt", typeStr(F->getReturnType()));
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      kv("cls", recKey(M->getParent()));
      if (M->isConst()) kvi("const", 1);
      if (M->isStatic()) kvi("static", 1);
      if (M->isVirtual()) kvi("virt", 1);
      kv("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected");
      if (M->size_overridden_methods()) {
        kn("ov");
        o += "[";
        bool f = true;
        for (auto* B : M->overridden_methods()) {
          if (!f) o += ",";
          f = false;
          esc(o, fnKey(B));
        }
        o += "]";
      }
      if (isa<CXXConstructorDecl>(M)) kvi("ctor", 1);
      if (isa<CXXDestructorDecl>(M)) kvi("dtor", 1);
    }
    if (F->isDefaulted()) kvi("defaulted", 1);
    if (F->isDependentContext()) kvi("tmpl", 1);
    if (F->getTemplateInstantiationPattern()) kvi("inst", 1);
    auto* FPT = F->getType()->getAs<FunctionProtoType>();
    if (FPT && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow()) kvi("nx", 1);
    if (F->isNoReturn()) kvi("nr", 1);
    kn("params");
    params(F, l);
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
      kn("inits");
      o += "[";
      bool f = true;
      for (auto* I : CD->inits()) {
        if (!f) o += ",";
        f = false;
        o += "{";
        if (I->isAnyMemberInitializer()) {
          o += "\"f\":";
          esc(o, I->getAnyMember()->getNameAsString());
        } else if (I->isBaseInitializer()) {
          o += "\"base\":";
          esc(o, typeStr(QualType(I->getBaseClass(), 0)));
        } else {
          o += "\"deleg\":1";
        }
        kvi("w", I->isWritten());
        kn("e");
        stmt(I->getInit(), l);
        o += "}";
      }
      o += "]";
    }
    if (F->getBody()) {
      kn("body");
      stmt(F->getBody(), l);
    }
    o += "}";
  }

  void record(const CXXRecordDecl* R) {
    ids.clear();
    nextId = 0;
    o.clear();
    o += "{\"k\":\"record\"";
    kv("n", R->getNameAsString());
    kv("qn", qn(R));
    kv("file", fileOf(R->getLocation()));
    kvi("l", lineOf(R->getLocation()));
    if (R->isDependentContext()) kvi("tmpl", 1);
    kn("bases");
    o += "[";
    bool f = true;
    for (auto& b : R->bases()) {
      if (!f) o += ",";
      f = false;
      if (auto* BR = b.getType()->getAsCXXRecordDecl()) esc(o, recKey(BR));
      else esc(o, typeStr(b.getType()));
    }
    o += "]";
    kn("fields");
    o += "[";
    f = true;
    for (auto* D : R->fields()) {
      if (!f) o += ",";
      f = false;
      o += "{\"n\":";
      esc(o, D->getNameAsString());
      kv("t", typeStr(D->getType()));
      kvi("l", lineOf(D->getLocation()));
      if (D->isMutable()) kvi("mut", 1);
      kv("acc", D->getAccess() == AS_public ? "public" : D->getAccess() == AS_private ? "private" : "protected");
      if (D->hasInClassInitializer() && D->getInClassInitializer()) {
        kn("init");
        stmt(D->getInClassInitializer(), 0);
      }
      o += "}";
    }
    o += "]";
    kn("methods");
    o += "[";
    f = true;
    auto method = [&](const CXXMethodDecl* M) {
      if (M->isImplicit()) return;
      if (!f) o += ",";
      f = false;
      o += "{\"n\":";
      esc(o, M->getNameAsString());
      kv("fk", fnKey(M));
      kv("rt", typeStr(M->getReturnType()));
      kvi("l", lineOf(M->getLocation()));
      if (M->isConst()) kvi("const", 1);
      if (M->isVirtual()) kvi("virt", 1);
      if (M->isPureVirtual()) kvi("pure", 1);
      if (M->isStatic()) kvi("static", 1);
      if (M->isDeleted()) kvi("deleted", 1);
      if (M->isDefaulted()) kvi("defaulted", 1);
      kv("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected");
      if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) {
        kv("ctor", CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other");
      }
      if (isa<CXXDestructorDecl>(M)) kvi("dtor", 1);
      if (M->isCopyAssignmentOperator()) kv("asg", "copy");
      if (M->isMoveAssignmentOperator()) kv("asg", "move");
      o += ",\"pt\":[";
      bool g = true;
      for (auto* p : M->parameters()) {
        if (!g) o += ",";
        g = false;
        esc(o, typeStr(p->getType()));
      }
      o += "]}";
    };
    for (auto* M : R->methods()) method(M);
    o += "]}";
  }

  void enumDecl(const EnumDecl* E) {
    o.clear();
    o += "{\"k\":\"enum\"";
    kv("n", E->getNameAsString());
    kv("qn", qn(E));
    kv("file", fileOf(E->getLocation()));
    kvi("l", lineOf(E->getLocation()));
    kn("e");
    o += "[";
    bool f = true;
    for (auto* c : E->enumerators()) {
      if (!f) o += ",";
      f = false;
      o += "[";
      esc(o, c->getNameAsString());
      o += "," + std::to_string(c->getInitVal().getExtValue()) + "]";
    }
    o += "]}";
  }

  void global(const VarDecl* V) {
    ids.clear();
    nextId = 0;
    o.clear();
    o += "{\"k\":\"global\"";
    kv("n", V->getNameAsString());
    kv("qn", qn(V));
    kv("file", fileOf(V->getLocation()));
    kvi("l", lineOf(V->getLocation()));
    kv("t", typeStr(V->getType()));
    if (V->getType().isConstQualified()) kvi("const", 1);
    if (V->isConstexpr()) kvi("cx", 1);
    if (V->getTLSKind() != VarDecl::TLS_None) kvi("tls", 1);
    if (V->isStaticDataMember()) kvi("sdm", 1);
    if (V->getType()->isIntegralOrEnumerationType() && V->hasInit() && !V->getInit()->isValueDependent()) {
      Expr::EvalResult R;
      if (V->getInit()->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        llvm::SmallString<24> s;
        R.Val.getInt().toString(s, 10);
        o += ",\"v\":";
        o += s.str();
      }
    }
    if (V->hasInit()) {
      kn("init");
      stmt(V->getInit(), 0);
    }
    o += "}";
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper D;
  std::set<string> seen;
  explicit Visitor(ASTContext& C) : D(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  void put(char kind, const string& key) { OUT << kind << '\t' << key << '\t' << D.o << '\n'; }

  bool VisitFunctionDecl(FunctionDecl* F) {
    if (!F->isThisDeclarationADefinition()) return true;
    if (F->isDeleted()) return true;
    if (F->isDefaulted() && !F->getBody()) return true;
    if (!D.inSrc(F->getLocation())) return true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) {
        // only instantiations of generic lambdas are dumped separately
        if (!F->getTemplateInstantiationPattern() || F->isDependentContext()) return true;
      }
    }
    string key = D.fnKey(F);
    if (F->isDependentContext()) key = "T:" + key;
    if (!seen.insert("F" + key).second) return true;
    D.function(F);
    put('F', key);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda()) return true;
    if (!D.inSrc(R->getLocation())) return true;
    string key = D.recKey(R);
    if (R->isDependentContext()) key = "T:" + key;
    if (!seen.insert("R" + key).second) return true;
    D.record(R);
    put('R', key);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!E->isThisDeclarationADefinition() || !D.inSrc(E->getLocation())) return true;
    string key = D.qn(E);
    if (key.empty() || E->getNameAsString().empty())
      key += "(anon@" + D.fileOf(E->getLocation()) + ":" + std::to_string(D.lineOf(E->getLocation())) + ")";
    if (!seen.insert("E" + key).second) return true;
    D.enumDecl(E);
    put('E', key);
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal()) return true;
    if (isa<ParmVarDecl>(V)) return true;
    if (!D.inSrc(V->getLocation())) return true;
    if (!V->isThisDeclarationADefinition() && !V->hasInit()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    string key = D.ctxKey(V->getDeclContext()) + "::" + V->getNameAsString();
    if (!seen.insert("G" + key).second) return true;
    D.global(V);
    put('G', key);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    Visitor V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
    // dependencies below ROOT
    auto& SM = C.getSourceManager();
    std::set<string> files;
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      llvm::StringRef p = it->first.getFileEntry().tryGetRealPathName();
      if (p.starts_with(ROOT)) files.insert(p.drop_front(ROOT.size()).str());
    }
    for (auto& f : files) DEPS << f << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

// usage: extract ROOT OUTFILE DEPFILE SOURCE -- flags...
int main(int argc, const char** argv) {
  if (argc < 6) return 2;
  ROOT = argv[1];
  if (ROOT.back() != '/') ROOT += '/';
  OUT.open(argv[2], std::ios::binary);
  DEPS.open(argv[3], std::ios::binary);
  string src = argv[4];
  std::vector<string> flags;
  for (int i = 6; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {src});
  auto F = tooling::newFrontendActionFactory<Action>();
  int r = Tool.run(F.get());  // 0 ok, 1 errors (clang recovered), others fatal
  OUT.close();
  DEPS.close();
  return r;
}
