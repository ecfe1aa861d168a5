// tpx: resolved-program extractor for deescuderoo/turbopack.
//
// Parses one translation unit with clang and writes every function body that
// lives under --root (non-dependent ones: ordinary functions and template
// instantiations) as JSON: callees, overloads, implicit conversions, template
// arguments and constants are already resolved.  No analysis happens here; the
// analyses in /verif/sa consume the output.
#include <map>
#include <set>
#include <string>

#include "clang/AST/ASTContext.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("tpx");
static llvm::cl::opt<std::string> Root("root", llvm::cl::cat(Cat), llvm::cl::init("/repo/"));
static llvm::cl::opt<std::string> Also("also", llvm::cl::cat(Cat), llvm::cl::init(""));
static llvm::cl::opt<std::string> Out("out", llvm::cl::cat(Cat), llvm::cl::init("-"));

namespace {

using Obj = json::Object;
using Arr = json::Array;

class Emitter {
 public:
  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), ANG(C) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator ANG;
  std::map<const Decl *, int> Ids;

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }

  std::string file(SourceLocation L) {
    L = SM.getFileLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  // Compact description of integer-like types: u64, i32, b, else "".
  std::string it(QualType T) {
    if (T.isNull()) return "";
    T = T.getCanonicalType().getNonReferenceType().getUnqualifiedType();
    if (T->isBooleanType()) return "b";
    if (T->isEnumeralType()) return "e";
    if (T->isIntegerType()) {
      auto W = C.getTypeSize(T);
      return (T->isUnsignedIntegerType() ? "u" : "i") + std::to_string(W);
    }
    if (T->isPointerType()) return "p";
    if (T->isRealFloatingType()) return "f";
    return "";
  }

  std::string fid(const FunctionDecl *F) {
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      std::string s = ANG.getName(F);
      (void)Ct;
      if (!s.empty()) return s;
    }
    std::string s = ANG.getName(F);
    if (s.empty()) s = F->getQualifiedNameAsString();
    // internal linkage and local (lambda) functions can collide between TUs
    return s;
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP;
    P2.SuppressTemplateArgsInCXXConstructors = true;
    D->printQualifiedName(os, P2);
    std::string t = os.str();
    // drop "(anonymous namespace)::"
    const std::string an = "(anonymous namespace)::";
    size_t p;
    while ((p = t.find(an)) != std::string::npos) t.erase(p, an.size());
    return t;
  }

  json::Value targs(const FunctionDecl *F) {
    Arr a;
    if (auto *TA = F->getTemplateSpecializationArgs())
      for (auto &x : TA->asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        x.print(PP, os, true);
        a.push_back(os.str());
      }
    return a;
  }

  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = file(L);
    return f.rfind(Root, 0) == 0 || (!Also.empty() && f == Also);
  }

  json::Value calleeInfo(const FunctionDecl *F) {
    Obj o;
    o["qn"] = qn(F);
    o["id"] = fid(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(M->getParent()));
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isDefaulted() || M->isImplicit()) o["dflt"] = true;
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) o["assign"] = true;
    }
    auto ta = targs(F);
    if (!ta.getAsArray()->empty()) o["targs"] = std::move(ta);
    const FunctionDecl *Def = nullptr;
    if (F->isDefined(Def) || F->hasBody(Def)) {
      if (inRoot(F->getLocation())) o["in"] = true;
    } else if (inRoot(F->getLocation()))
      o["in"] = true;
    if (F->isNoReturn()) o["noret"] = true;
    Arr rp;  // reference/pointer-ness of parameters
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      std::string m = "v";
      if (T->isReferenceType())
        m = T.getNonReferenceType().isConstQualified() ? "cr" : (T->isRValueReferenceType() ? "rr" : "r");
      else if (T->isPointerType())
        m = T->getPointeeType().isConstQualified() ? "cp" : "p";
      rp.push_back(m);
    }
    o["pm"] = std::move(rp);
    return o;
  }

  json::Value withLoc(Obj o, SourceLocation L) {
    o["l"] = (int64_t)line(L);
    return o;
  }

  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (isa<CXXConstructExpr>(X->getSubExpr()) || X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_NoOp)
          E = X->getSubExpr();
        else
          return E;
      } else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
          case CK_IntegralCast:
          case CK_IntegralToBoolean:
          case CK_FloatingToIntegral:
          case CK_IntegralToFloating:
          case CK_PointerToBoolean:
            return E;
          default:
            E = X->getSubExpr();
        }
      } else
        return E;
    }
  }

  json::Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    const Expr *E = strip(E0);
    json::Value v = expr1(E);
    Obj *o = v.getAsObject();
    if (!o) return v;
    (*o)["l"] = (int64_t)line(E->getExprLoc());
    if (SM.isMacroBodyExpansion(E->getBeginLoc()) ) (*o)["mac"] = Lexer::getImmediateMacroName(E->getBeginLoc(), SM, C.getLangOpts()).str();
    std::string t = it(E->getType());
    if (!t.empty()) (*o)["it"] = t;
    if (!o->get("ty") && t.empty()) (*o)["ty"] = ty(E->getType());
    if (t == "p" && !o->get("ty")) (*o)["ty"] = ty(E->getType());
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType()) {
      auto k = o->getString("k");
      if (!k || (*k != "lit")) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
          llvm::SmallString<64> s;
          R.Val.getInt().toString(s, 10);
          (*o)["cv"] = s.str().str();
        }
      }
    }
    return v;
  }

  json::Value args(llvm::ArrayRef<const Expr *> as) {
    Arr a;
    for (auto *x : as) a.push_back(expr(x));
    return a;
  }
  template <typename R>
  json::Value argsR(R r) {
    Arr a;
    for (auto *x : r) a.push_back(expr(x));
    return a;
  }

  json::Value expr1(const Expr *E) {
    Obj o;
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      llvm::SmallString<64> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["k"] = "lit"; o["v"] = s.str().str();
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "lit"; o["v"] = std::to_string(X->getValue());
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "lit"; o["v"] = X->getValue() ? "1" : "0"; o["b"] = true;
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "null";
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str"; o["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : std::string("?");
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "flt"; o["v"] = X->getValueAsApproximateDouble();
    } else if (isa<CXXThisExpr>(E)) {
      o["k"] = "this";
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "fref"; o["fn"] = calleeInfo(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "enum"; o["n"] = qn(EC);
      } else {
        o["k"] = "var"; o["n"] = D->getNameAsString(); o["id"] = id(D);
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["glob"] = qn(V); }
          if (V->isStaticLocal()) o["slocal"] = true;
          if (V->getType()->isReferenceType()) o["ref"] = true;
          if (X->refersToEnclosingVariableOrCapture()) o["capt"] = true;
          if (isa<VarDecl>(D) && V->isStaticDataMember()) o["glob"] = qn(V);
        }
        if (isa<BindingDecl>(D)) {
          o["bind"] = true;
          o["be"] = expr(cast<BindingDecl>(D)->getBinding());
        }
        o["ty"] = ty(D->getType());
      }
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {  // static member
        o["k"] = "var"; o["n"] = D->getNameAsString(); o["id"] = id(D); o["glob"] = qn(V); o["ty"] = ty(D->getType());
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "fref"; o["fn"] = calleeInfo(F); o["b"] = expr(X->getBase());
      } else {
        o["k"] = "mem"; o["b"] = expr(X->getBase()); o["f"] = D->getNameAsString();
        if (auto *FD = dyn_cast<FieldDecl>(D)) o["fc"] = ty(C.getRecordType(FD->getParent()));
        o["arrow"] = X->isArrow();
        o["ty"] = ty(E->getType());
      }
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) o["fn"] = calleeInfo(F);
      Arr a;
      bool mem = X->getDirectCallee() && isa<CXXMethodDecl>(X->getDirectCallee());
      unsigned i = 0;
      for (auto *x : X->arguments()) {
        if (i == 0 && mem) { o["obj"] = expr(x); o["oty"] = ty(x->getType()); }
        else a.push_back(expr(x));
        i++;
      }
      o["args"] = std::move(a);
      o["ty"] = ty(E->getType());
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = X->getMethodDecl()) o["fn"] = calleeInfo(F);
      if (auto *b = X->getImplicitObjectArgument()) {
        o["obj"] = expr(b);
        o["oty"] = ty(b->getType());
      }
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts()))
        if (ME->hasQualifier()) o["nonvirt"] = true;
      o["args"] = argsR(X->arguments());
      o["ty"] = ty(E->getType());
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = X->getDirectCallee()) o["fn"] = calleeInfo(F);
      else o["callee"] = expr(X->getCallee());
      o["args"] = argsR(X->arguments());
      o["ty"] = ty(E->getType());
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *Ct = X->getConstructor();
      if (Ct->isCopyOrMoveConstructor() && X->getNumArgs() >= 1) {
        o["k"] = "copy"; o["e"] = expr(X->getArg(0)); o["ty"] = ty(E->getType());
        if (Ct->isMoveConstructor()) o["mv"] = true;
      } else {
        o["k"] = "ctor"; o["ty"] = ty(E->getType()); o["fn"] = calleeInfo(Ct);
        o["args"] = argsR(X->arguments());
        if (X->isListInitialization() && X->isStdInitListInitialization()) o["il"] = true;
      }
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "ctor"; o["ty"] = ty(E->getType()); o["fn"] = calleeInfo(X->getConstructor()); o["args"] = Arr();
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      o["k"] = "ilist"; o["ty"] = ty(E->getType());
      Arr a;
      for (auto *x : X->inits()) a.push_back(expr(x));
      o["args"] = std::move(a);
      if (auto *RD = E->getType()->getAsRecordDecl()) {
        Arr f;
        for (auto *FD : RD->fields()) f.push_back(FD->getNameAsString());
        o["fields"] = std::move(f);
      }
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      o["k"] = "zero"; o["ty"] = ty(E->getType());
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "cassign"; o["op"] = X->getOpcodeStr(X->getOpcode()).str();
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      o["ct"] = it(X->getComputationResultType());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = X->isAssignmentOp() ? "assign" : "bin"; o["op"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "cond"; o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "idx"; o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast"; o["ck"] = X->getCastKindName();
      o["from"] = it(X->getSubExpr()->getType()); o["to"] = it(X->getType());
      o["ty"] = ty(X->getType()); o["fty"] = ty(X->getSubExpr()->getType());
      if (isa<ExplicitCastExpr>(X)) o["expl"] = true;
      o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      Arr ps;
      for (auto *p : X->getCallOperator()->parameters()) {
        Obj po; po["n"] = p->getNameAsString(); po["id"] = id(p); po["ty"] = ty(p->getType());
        ps.push_back(std::move(po));
      }
      o["params"] = std::move(ps);
      Arr cs;
      auto ci = X->capture_init_begin();
      for (auto &c : X->captures()) {
        Obj co;
        if (c.capturesVariable()) {
          co["n"] = c.getCapturedVar()->getNameAsString(); co["id"] = id(c.getCapturedVar());
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          co["init"] = expr(*ci);
        } else if (c.capturesThis()) co["this"] = true;
        ++ci;
        cs.push_back(std::move(co));
      }
      o["caps"] = std::move(cs);
      o["fid"] = fid(X->getCallOperator());
      if (X->isGenericLambda()) {
        Arr insts;
        if (auto *FT = X->getCallOperator()->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations()) {
            const FunctionDecl *B = nullptr;
            if (!S->hasBody(B)) continue;
            Obj io; Arr qs;
            for (auto *p : B->parameters()) {
              Obj po; po["n"] = p->getNameAsString(); po["id"] = id(p); po["ty"] = ty(p->getType());
              qs.push_back(std::move(po));
            }
            io["params"] = std::move(qs);
            io["fid"] = fid(S);
            io["body"] = stmt(B->getBody());
            insts.push_back(std::move(io));
          }
        o["insts"] = std::move(insts);
      }
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "newx"; o["ty"] = ty(X->getAllocatedType());
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      if (X->getInitializer()) o["e"] = expr(X->getInitializer());
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete"; o["e"] = expr(X->getArgument());
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw"; o["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : json::Value(nullptr);
      if (X->getSubExpr()) o["ty"] = ty(X->getSubExpr()->getType());
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o["k"] = "sizeof";
      o["ty"] = ty(X->getTypeOfArgument());
    } else if (isa<PredefinedExpr>(E)) {
      o["k"] = "str"; o["v"] = "__func__";
    } else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
      o["k"] = "other"; o["cl"] = "OpaqueValue";
    } else {
      o["k"] = "other"; o["cl"] = E->getStmtClassName();
      Arr a;
      for (auto *c : E->children())
        if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
      o["args"] = std::move(a);
    }
    return o;
  }

  json::Value varDecl(const VarDecl *V) {
    Obj d;
    d["n"] = V->getNameAsString(); d["id"] = id(V); d["ty"] = ty(V->getType());
    if (V->getType()->isReferenceType()) d["ref"] = true;
    if (V->isStaticLocal()) d["static"] = true;
    std::string t = it(V->getType());
    if (!t.empty()) d["it"] = t;
    if (auto *AT = C.getAsConstantArrayType(V->getType())) {
      d["arr"] = (int64_t)AT->getSize().getZExtValue();
      d["ety"] = ty(AT->getElementType());
    } else if (auto *VT = C.getAsVariableArrayType(V->getType())) {
      d["vla"] = expr(VT->getSizeExpr());
    }
    if (V->getInit()) d["init"] = expr(V->getInit());
    d["l"] = (int64_t)line(V->getLocation());
    return d;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    Obj o;
    o["l"] = (int64_t)line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block";
      Arr a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      Arr a;
      for (auto *d : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) {
          a.push_back(varDecl(V));
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            Arr bs;
            for (auto *b : DD->bindings()) {
              Obj bo; bo["n"] = b->getNameAsString(); bo["id"] = id(b); bs.push_back(std::move(bo));
              if (auto *hv = b->getHoldingVar()) a.push_back(varDecl(hv));
            }
            (*a.front().getAsObject())["binds"] = std::move(bs);
          }
        }
      }
      o["d"] = std::move(a);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (X->isConstexpr()) {
        Expr::EvalResult R;
        if (X->getCond()->EvaluateAsInt(R, C)) o["cx"] = R.Val.getInt().getBoolValue();
      }
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["t"] = stmt(X->getThen());
      if (X->getElse()) o["e"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getCond()) o["c"] = expr(X->getCond());
      if (X->getInc()) o["inc"] = expr(X->getInc());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
      if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor"; o["r"] = expr(X->getRangeInit());
      o["rty"] = ty(X->getRangeInit()->getType());
      o["v"] = varDecl(X->getLoopVariable());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      if (X->getRetValue()) o["e"] = expr(X->getRetValue());
    } else if (isa<BreakStmt>(S)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(S)) {
      o["k"] = "cont";
    } else if (isa<NullStmt>(S)) {
      o["k"] = "nop";
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
      if (X->getInit()) o["init"] = stmt(X->getInit());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case"; o["v"] = expr(X->getLHS()); o["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default"; o["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try"; o["b"] = stmt(X->getTryBlock());
      Arr h;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        Obj ho;
        auto *H = X->getHandler(i);
        ho["ty"] = H->getCaughtType().isNull() ? std::string("...") : ty(H->getCaughtType());
        ho["b"] = stmt(H->getHandlerBlock());
        if (H->getExceptionDecl()) { ho["id"] = id(H->getExceptionDecl()); }
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      o["k"] = "label"; o["s"] = stmt(X->getSubStmt());
    } else if (isa<GotoStmt>(S)) {
      o["k"] = "goto";
    } else if (auto *X = dyn_cast<Expr>(S)) {
      o["k"] = "expr"; o["e"] = expr(X);
    } else {
      o["k"] = "otherstmt"; o["cl"] = S->getStmtClassName();
    }
    return o;
  }

  json::Value function(const FunctionDecl *F) {
    Obj o;
    o["id"] = fid(F);
    o["qn"] = qn(F);
    o["name"] = F->getNameAsString();
    o["file"] = file(F->getLocation());
    o["line"] = (int64_t)line(F->getLocation());
    o["end"] = (int64_t)line(F->getEndLoc());
    o["ret"] = ty(F->getReturnType());
    o["targs"] = targs(F);
    if (F->getStorageClass() == SC_Static) o["internal"] = true;
    if (F->isInAnonymousNamespace()) o["internal"] = true;
    Arr ps;
    for (auto *p : F->parameters()) {
      Obj po; po["n"] = p->getNameAsString(); po["id"] = id(p); po["ty"] = ty(p->getType());
      std::string t = it(p->getType());
      if (!t.empty()) po["it"] = t;
      if (p->getType()->isReferenceType()) po["ref"] = true;
      if (p->getType()->isReferenceType() && p->getType().getNonReferenceType().isConstQualified()) po["cref"] = true;
      if (p->getType()->isPointerType()) { po["ptr"] = true; if (p->getType()->getPointeeType().isConstQualified()) po["cptr"] = true; }
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(M->getParent()));
      o["static"] = M->isStatic();
      o["const"] = M->isConst();
      o["virt"] = M->isVirtual();
      Arr ov;
      for (auto *m : M->overridden_methods()) ov.push_back(fid(m));
      o["over"] = std::move(ov);
      o["acc"] = M->getAccess() == AS_public ? "public" : (M->getAccess() == AS_private ? "private" : "protected");
    }
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      Arr is;
      for (auto *I : Ct->inits()) {
        Obj io;
        if (I->isMemberInitializer()) io["f"] = I->getMember()->getNameAsString();
        else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = I->isWritten();
        io["e"] = expr(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = stmt(F->getBody());
    return o;
  }

  json::Value record(const CXXRecordDecl *R) {
    Obj o;
    o["ty"] = ty(C.getRecordType(R));
    o["qn"] = qn(R);
    const CXXRecordDecl *P = R->getTemplateInstantiationPattern();
    o["file"] = file((P ? P : R)->getLocation());
    o["line"] = (int64_t)line((P ? P : R)->getLocation());
    Arr bs;
    for (auto &b : R->bases()) bs.push_back(ty(b.getType()));
    o["bases"] = std::move(bs);
    Arr fs;
    for (auto *f : R->fields()) {
      Obj fo;
      fo["n"] = f->getNameAsString(); fo["ty"] = ty(f->getType());
      std::string t = it(f->getType());
      if (!t.empty()) fo["it"] = t;
      fo["acc"] = f->getAccess() == AS_public ? "public" : "private";
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      if (auto *AT = C.getAsConstantArrayType(f->getType())) fo["arr"] = (int64_t)AT->getSize().getZExtValue();
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Arr ms;
    for (auto *m : R->methods()) {
      if (m->isImplicit()) continue;
      Obj mo;
      mo["n"] = m->getNameAsString(); mo["id"] = fid(m); mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["static"] = m->isStatic(); mo["const"] = m->isConst();
      mo["nparams"] = (int64_t)m->getNumParams();
      mo["acc"] = m->getAccess() == AS_public ? "public" : (m->getAccess() == AS_private ? "private" : "protected");
      if (isa<CXXConstructorDecl>(m)) mo["ctor"] = true;
      mo["ret"] = ty(m->getReturnType());
      Arr ov;
      for (auto *x : m->overridden_methods()) ov.push_back(fid(x));
      mo["over"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    return o;
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  V(ASTContext &C) : Em(C), C(C) {}
  Emitter Em;
  ASTContext &C;
  Arr funcs, recs, globs;
  std::set<const Decl *> seen;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefined()) return true;
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) return true;
    if (D->isDependentContext() || D->isTemplated()) return true;
    if (!Em.inRoot(D->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(D))
      if (M->getParent()->isLambda()) return true;
    if (D->isDefaulted() || D->isImplicit()) return true;
    if (!seen.insert(D->getCanonicalDecl()).second) return true;
    funcs.push_back(Em.function(D));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    const CXXRecordDecl *P = R->getTemplateInstantiationPattern();
    if (!Em.inRoot((P ? P : R)->getLocation())) return true;
    recs.push_back(Em.record(R));
    return true;
  }
  bool VisitVarDecl(VarDecl *G) {
    if (!G->hasGlobalStorage() || G->isStaticLocal() || G->getDeclContext()->isDependentContext()) return true;
    if (!Em.inRoot(G->getLocation())) return true;
    Obj o;
    o["n"] = Em.qn(G);
    o["ty"] = Em.ty(G->getType());
    o["file"] = Em.file(G->getLocation());
    o["line"] = (int64_t)Em.line(G->getLocation());
    o["const"] = G->getType().isConstQualified() || C.getBaseElementType(G->getType()).isConstQualified();
    if (G->getAnyInitializer()) o["init"] = Em.expr(G->getAnyInitializer());
    globs.push_back(std::move(o));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    Obj o;
    o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    o["functions"] = std::move(v.funcs);
    o["records"] = std::move(v.recs);
    o["globals"] = std::move(v.globs);
    std::error_code EC;
    llvm::raw_fd_ostream os(Out, EC);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(newFrontendActionFactory<Action>().get());
}
