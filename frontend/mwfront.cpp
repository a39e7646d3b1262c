// mwfront: type-resolved front end of the mpc-walkgen static analyses.
//
// For every translation unit given on the command line it prints one JSON
// document with
//   - the records defined under the repository root (fields, default member
//     initialisers, bases, member functions), templates as instantiated;
//   - the functions with a body defined under the repository root, templates as
//     instantiated, as a small expression/statement tree in which implicit nodes
//     are stripped, callees are resolved declarations, and asserts are explicit.
// Nothing is executed; the program analysed is exactly what clang's semantic
// analysis produced for the flags of the real build.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot = "/repo";

struct Emit {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const ValueDecl *, int> ids;

  explicit Emit(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
  }

  // --- locations -----------------------------------------------------------
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      return FE->getFileEntry().tryGetRealPathName().str();
    }
    return "";
  }
  int lineOf(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  bool inRepo(SourceLocation L) {
    std::string f = fileOf(L);
    return f.compare(0, gRoot.size() + 1, gRoot + "/") == 0;
  }
  std::string rel(const std::string &f) {
    if (f.compare(0, gRoot.size() + 1, gRoot + "/") == 0) return f.substr(gRoot.size() + 1);
    return f;
  }

  // --- types ---------------------------------------------------------------
  std::string recName(const CXXRecordDecl *R) {
    std::string s;
    llvm::raw_string_ostream os(s);
    R->getNameForDiagnostic(os, PP, true);
    return os.str();
  }
  std::string eigenScalar(const CXXRecordDecl *R) {
    // The public member typedef Scalar of every Eigen expression class.
    std::set<const CXXRecordDecl *> seen;
    std::vector<const CXXRecordDecl *> work{R};
    while (!work.empty()) {
      const CXXRecordDecl *c = work.back();
      work.pop_back();
      if (!c || !seen.insert(c).second) continue;
      for (auto *d : c->decls())
        if (auto *td = dyn_cast<TypedefNameDecl>(d))
          if (td->getName() == "Scalar") {
            QualType t = td->getUnderlyingType().getCanonicalType();
            if (t->isBuiltinType()) return t.getAsString(PP);
          }
      if (c->hasDefinition())
        for (auto &b : c->bases())
          work.push_back(b.getType()->getAsCXXRecordDecl());
    }
    return "?";
  }
  // coefficient-wise semantics: the class derives from Eigen::ArrayBase
  bool isArray(const CXXRecordDecl *R) {
    std::set<const CXXRecordDecl *> seen;
    std::vector<const CXXRecordDecl *> work{R};
    while (!work.empty()) {
      const CXXRecordDecl *c = work.back();
      work.pop_back();
      if (!c || !seen.insert(c).second) continue;
      if (c->getQualifiedNameAsString() == "Eigen::ArrayBase") return true;
      if (c->hasDefinition())
        for (auto &b : c->bases()) work.push_back(b.getType()->getAsCXXRecordDecl());
    }
    return false;
  }
  bool rowMajor = false;
  json::Value typeOf(QualType T) {
    json::Object o;
    T = T.getCanonicalType();
    if (T->isReferenceType()) {
      o["ref"] = T->isRValueReferenceType() ? 2 : 1;
      T = T->getPointeeType().getCanonicalType();
    }
    if (T.isConstQualified()) o["const"] = 1;
    if (T->isPointerType()) {
      o["ptr"] = 1;
      T = T->getPointeeType().getCanonicalType();
      if (T.isConstQualified()) o["pconst"] = 1;
    }
    if (auto *CA = Ctx.getAsConstantArrayType(T)) {
      o["b"] = "std::array";
      o["n"] = (int64_t)CA->getSize().getSExtValue();
      json::Array a;
      QualType ET = CA->getElementType();
      ET.removeLocalConst();
      a.push_back(typeOf(ET));
      o["a"] = std::move(a);
      return std::move(o);
    }
    T = T.getUnqualifiedType();
    if (auto *R = T->getAsCXXRecordDecl()) {
      std::string q = R->getQualifiedNameAsString();
      if (q.compare(0, 7, "Eigen::") == 0 && q != "Eigen::aligned_allocator") {
        o["b"] = "Eigen";
        o["e"] = q.substr(7);
        o["s"] = eigenScalar(R);
        if (isArray(R)) o["arr"] = 1;
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
          if (q == "Eigen::Matrix" || q == "Eigen::Array") {
            auto &A = S->getTemplateArgs();
            o["r"] = (int64_t)A[1].getAsIntegral().getSExtValue();
            o["c"] = (int64_t)A[2].getAsIntegral().getSExtValue();
            if (A[3].getAsIntegral().getSExtValue() & 1) rowMajor = true;
          } else if (q == "Eigen::CwiseNullaryOp") {
            auto &A = S->getTemplateArgs();
            if (A.size() > 1 && A[1].getKind() == TemplateArgument::Type) {
              json::Value pt = typeOf(A[1].getAsType());
              if (auto *po = pt.getAsObject()) {
                if (auto r = po->getInteger("r")) o["sr"] = *r;
                if (auto c = po->getInteger("c")) o["sc"] = *c;
              }
            }
          }
        }
      } else if (q == "std::vector" || q == "std::deque" || q == "boost::circular_buffer" ||
                 q == "boost::ptr_vector" || q == "std::array" || q == "std::list" ||
                 q == "std::initializer_list" || q == "boost::scoped_ptr" ||
                 q == "std::unique_ptr" || q == "std::shared_ptr" || q == "boost::shared_ptr" ||
                 q == "std::pair" || q == "std::tuple") {
        o["b"] = q;
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
          json::Array a;
          auto &A = S->getTemplateArgs();
          for (unsigned i = 0; i < A.size() && i < 2; ++i)
            if (A[i].getKind() == TemplateArgument::Type) a.push_back(typeOf(A[i].getAsType()));
            else if (A[i].getKind() == TemplateArgument::Integral) o["n"] = (int64_t)A[i].getAsIntegral().getSExtValue();
          o["a"] = std::move(a);
        }
      } else {
        o["b"] = recName(R);
        if (inRepo(R->getLocation())) o["rec"] = 1;
      }
    } else if (auto *E = T->getAs<EnumType>()) {
      o["b"] = "enum";
      o["n"] = E->getDecl()->getQualifiedNameAsString();
    } else {
      o["b"] = T.getAsString(PP);
    }
    return std::move(o);
  }

  // --- declarations --------------------------------------------------------
  int idOf(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[D] = n;
    return n;
  }
  std::string funName(const FunctionDecl *F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    F->getNameForDiagnostic(os, PP, true);
    os.flush();
    s += "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) {
      if (i) s += ",";
      QualType T = F->getParamDecl(i)->getType().getCanonicalType();
      std::string t;
      QualType B = T.getNonReferenceType();
      if (auto *R = B->getAsCXXRecordDecl()) {
        std::string q = R->getQualifiedNameAsString();
        if (q.compare(0, 7, "Eigen::") == 0) {
          t = q;
          if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R))
            if (q == "Eigen::Matrix")
              t += "<" + std::to_string(S->getTemplateArgs()[1].getAsIntegral().getSExtValue()) +
                   "," + std::to_string(S->getTemplateArgs()[2].getAsIntegral().getSExtValue()) + ">";
        } else if (q.compare(0, 5, "std::") == 0) {
          t = q;
        } else
          t = recName(R);
        if (T->isReferenceType()) t += "&";
      } else
        t = T.getAsString(PP);
      s += t;
    }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) s += " const";
    return s;
  }
  json::Value calleeOf(const FunctionDecl *F) {
    json::Object o;
    std::string q;
    {
      llvm::raw_string_ostream os(q);
      F->printQualifiedName(os, PP);
    }
    o["q"] = q;
    o["n"] = F->getDeclName().isIdentifier() ? F->getName().str() : F->getNameAsString();
    o["id"] = funName(F);
    const FunctionDecl *pat = F->getTemplateInstantiationPattern();
    if (inRepo(F->getLocation()) || (pat && inRepo(pat->getLocation()))) o["repo"] = 1;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      std::string cq = M->getParent()->getQualifiedNameAsString();
      if (cq.compare(0, 7, "Eigen::") == 0) o["cls"] = cq;
      else o["cls"] = recName(M->getParent());
      if (M->isStatic()) o["static"] = 1;
      if (M->isConst()) o["const"] = 1;
      if (M->isVirtual()) o["virtual"] = 1;
    }
    if (F->isNoReturn()) o["noreturn"] = 1;
    json::Array targs;
    if (auto *TA = F->getTemplateSpecializationArgs())
      for (auto &a : TA->asArray()) {
        if (a.getKind() == TemplateArgument::Integral)
          targs.push_back((int64_t)a.getAsIntegral().getSExtValue());
        else if (a.getKind() == TemplateArgument::Type)
          targs.push_back(typeOf(a.getAsType()));
        else
          targs.push_back(nullptr);
      }
    if (!targs.empty()) o["targs"] = std::move(targs);
    return std::move(o);
  }

  json::Value lambdaFn(const FunctionDecl *M) {
    json::Object o;
    json::Array ps;
    o["id"] = funName(M);
    o["ret"] = typeOf(M->getReturnType());
    for (auto *P : M->parameters()) {
      json::Object p;
      p["id"] = idOf(P);
      p["n"] = P->getNameAsString();
      p["t"] = typeOf(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    o["body"] = stmt(M->getBody());
    return std::move(o);
  }

  // --- expressions ---------------------------------------------------------
  json::Object node(const char *k, const Expr *E) {
    json::Object o;
    o["k"] = k;
    o["l"] = lineOf(E->getExprLoc());
    o["t"] = typeOf(E->getType());
    return o;
  }
  static bool isAssertFail(const Expr *E) {
    E = E->IgnoreParenImpCasts();
    if (auto *C = dyn_cast<CallExpr>(E))
      if (auto *F = C->getDirectCallee()) {
        StringRef n = F->getDeclName().isIdentifier() ? F->getName() : "";
        return n == "__assert_fail" || n == "__assert" || n == "__assert_rtn" || n == "assertion_failed";
      }
    return false;
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E))
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      auto o = node("Temp", E);
      o["e"] = expr(X->getSubExpr());
      if (X->getExtendingDecl()) o["ext"] = 1;
      return std::move(o);
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      CastKind ck = X->getCastKind();
      bool numeric = ck == CK_IntegralCast || ck == CK_FloatingCast || ck == CK_IntegralToFloating ||
                     ck == CK_FloatingToIntegral || ck == CK_IntegralToBoolean ||
                     ck == CK_FloatingToBoolean || ck == CK_PointerToBoolean ||
                     ck == CK_BooleanToSignedIntegral;
      if (numeric) {
        auto o = node("Cast", E);
        o["ck"] = X->getCastKindName();
        o["e"] = expr(X->getSubExpr());
        o["ft"] = typeOf(X->getSubExpr()->getType());
        if (isa<ImplicitCastExpr>(E)) o["imp"] = 1;
        return std::move(o);
      }
      if (ck == CK_DerivedToBase || ck == CK_UncheckedDerivedToBase) {
        return expr(X->getSubExpr());
      }
      return expr(X->getSubExpr());
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      auto o = node("Int", E);
      llvm::SmallString<32> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
      return std::move(o);
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      auto o = node("Float", E);
      bool inv = false;
      std::string txt = Lexer::getSourceText(CharSourceRange::getTokenRange(X->getSourceRange()), SM,
                                             Ctx.getLangOpts(), &inv).str();
      llvm::SmallString<64> s;
      X->getValue().toString(s);
      o["v"] = std::string(s.str());
      o["src"] = txt;
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      auto o = node("Bool", E);
      o["v"] = X->getValue() ? 1 : 0;
      return std::move(o);
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      auto o = node("Int", E);
      o["v"] = std::to_string(X->getValue());
      return std::move(o);
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("Null", E);
    if (isa<StringLiteral>(E)) return node("Str", E);
    if (isa<CXXThisExpr>(E)) return node("This", E);
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) return node("Zero", X);
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) return node("Zero", X);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto o = node("Ref", E);
      const ValueDecl *D = X->getDecl();
      o["n"] = D->getDeclName().isIdentifier() ? D->getName().str() : D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
          o["d"] = isa<ParmVarDecl>(V) ? "param" : "local";
          o["id"] = idOf(V);
        } else {
          o["d"] = V->isStaticLocal() ? "slocal" : "global";
          std::string q;
          llvm::raw_string_ostream os(q);
          V->getNameForDiagnostic(os, PP, true);
          o["q"] = os.str();
          o["gc"] = V->getType().isConstQualified() ? 1 : 0;
          if (inRepo(V->getLocation())) o["repo"] = 1;
          const VarDecl *Def = nullptr;
          const Expr *I = V->getAnyInitializer(Def);
          if (!I && V->getTemplateInstantiationPattern()) {
            I = V->getTemplateInstantiationPattern()->getAnyInitializer(Def);
          }
          static int depth = 0;
          if (I && o.get("repo") && !I->isTypeDependent() && !I->isValueDependent() && depth < 4) {
            ++depth;
            o["init"] = expr(I);
            --depth;
          }
        }
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["d"] = "enum";
        o["v"] = (int64_t)EC->getInitVal().getExtValue();
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["d"] = "fun";
        o["f"] = calleeOf(F);
      } else
        o["d"] = "other";
      return std::move(o);
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        auto o = node("Field", E);
        o["n"] = F->getName().str();
        o["base"] = expr(X->getBase());
        if (X->isArrow()) o["arrow"] = 1;
        if (auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) o["cls"] = recName(R);
        if (F->isMutable()) o["mut"] = 1;
        return std::move(o);
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        auto o = node("Ref", E);
        o["d"] = "global";
        o["n"] = V->getName().str();
        std::string q;
        llvm::raw_string_ostream os(q);
        V->getNameForDiagnostic(os, PP, true);
        o["q"] = os.str();
        return std::move(o);
      }
      auto o = node("MemFun", E);
      o["n"] = D->getNameAsString();
      o["base"] = expr(X->getBase());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = node("OpCall", E);
      o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) {
        o["f"] = calleeOf(F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) o["mem"] = 1;
      }
      json::Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = node("Call", E);
      if (auto *M = X->getMethodDecl()) o["f"] = calleeOf(M);
      const Expr *obj = X->getImplicitObjectArgument();
      o["obj"] = expr(obj);
      if (obj && obj->getType()->isPointerType()) o["arrow"] = 1;
      json::Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto o = node("Call", E);
      if (auto *F = X->getDirectCallee()) o["f"] = calleeOf(F);
      else o["fn"] = expr(X->getCallee());
      json::Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto o = node("Ctor", E);
      o["f"] = calleeOf(X->getConstructor());
      if (X->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = 1;
      if (X->getConstructor()->isDefaultConstructor()) o["def"] = 1;
      if (X->getConstructor()->isImplicit() || X->getConstructor()->isDefaulted()) o["impl"] = 1;
      if (isa<CXXTemporaryObjectExpr>(X) && X->requiresZeroInitialization()) o["zero"] = 1;
      if (X->requiresZeroInitialization()) o["zero"] = 1;
      json::Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      auto o = node("Assign", E);
      o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
      o["L"] = expr(X->getLHS());
      o["R"] = expr(X->getRHS());
      return std::move(o);
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->getOpcode() == BO_Assign) {
        auto o = node("Assign", E);
        o["op"] = "";
        o["L"] = expr(X->getLHS());
        o["R"] = expr(X->getRHS());
        return std::move(o);
      }
      auto o = node("Bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["L"] = expr(X->getLHS());
      o["R"] = expr(X->getRHS());
      return std::move(o);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      auto o = node("Un", E);
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "post" + op;
      o["op"] = op;
      o["e"] = expr(X->getSubExpr());
      return std::move(o);
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      if (isAssertFail(X->getFalseExpr())) {
        auto o = node("Assert", E);
        o["c"] = expr(X->getCond());
        return std::move(o);
      }
      auto o = node("Cond", E);
      o["c"] = expr(X->getCond());
      o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr());
      return std::move(o);
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = node("Index", E);
      o["base"] = expr(X->getBase());
      o["i"] = expr(X->getIdx());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      auto o = node("New", E);
      o["at"] = typeOf(X->getAllocatedType());
      o["e"] = expr(X->getInitializer());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      auto o = node("Delete", E);
      o["e"] = expr(X->getArgument());
      return std::move(o);
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      auto o = node("InitList", E);
      json::Array a;
      for (auto *A : X->inits()) a.push_back(expr(A));
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto o = node("Lambda", E);
      const CXXMethodDecl *M = X->getCallOperator();
      json::Array insts;
      if (auto *FT = M->getDescribedFunctionTemplate()) {
        for (auto *S : FT->specializations()) {
          const FunctionDecl *D = nullptr;
          if (S->hasBody(D)) insts.push_back(lambdaFn(D));
        }
      } else
        insts.push_back(lambdaFn(M));
      o["insts"] = std::move(insts);
      json::Array caps;
      for (auto &c : X->captures()) {
        if (!c.capturesVariable()) continue;
        json::Object co;
        co["id"] = idOf(cast<ValueDecl>(c.getCapturedVar()));
        co["byref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
        auto *cv = cast<VarDecl>(c.getCapturedVar());
        co["n"] = cv->getNameAsString();
        co["t"] = typeOf(cv->getType());
        if (cv->isInitCapture() && cv->getInit()) co["init"] = expr(cv->getInit());
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      auto o = node("Throw", E);
      o["e"] = expr(X->getSubExpr());
      return std::move(o);
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      return node("Sizeof", X);
    }
    auto o = node("Other", E);
    o["c"] = E->getStmtClassName();
    json::Array a;
    for (auto *C : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(C)) a.push_back(expr(CE));
    o["args"] = std::move(a);
    return std::move(o);
  }

  // --- statements ----------------------------------------------------------
  json::Object snode(const char *k, const Stmt *S) {
    json::Object o;
    o["k"] = k;
    o["l"] = lineOf(S->getBeginLoc());
    return o;
  }
  json::Value varDecl(const VarDecl *V) {
    json::Object o;
    o["id"] = idOf(V);
    o["n"] = V->getNameAsString();
    o["t"] = typeOf(V->getType());
    o["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->getInit()) o["init"] = expr(V->getInit());
    return std::move(o);
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      auto o = snode("Expr", S);
      o["e"] = expr(E);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      auto o = snode("Block", S);
      json::Array a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      auto o = snode("Decl", S);
      json::Array a;
      for (auto *d : X->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      o["v"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      auto o = snode("If", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["var"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["then"] = stmt(X->getThen());
      if (X->getElse()) o["else"] = stmt(X->getElse());
      return std::move(o);
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      auto o = snode("For", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getCond()) o["c"] = expr(X->getCond());
      if (X->getInc()) o["inc"] = expr(X->getInc());
      o["body"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      auto o = snode("While", S);
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      auto o = snode("Do", S);
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = snode("RangeFor", S);
      o["var"] = varDecl(X->getLoopVariable());
      o["range"] = expr(X->getRangeInit());
      o["body"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      auto o = snode("Return", S);
      if (X->getRetValue()) o["e"] = expr(X->getRetValue());
      return std::move(o);
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      auto o = snode("Switch", S);
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      auto o = snode("Case", S);
      Expr::EvalResult R;
      if (X->getLHS()->EvaluateAsInt(R, Ctx)) o["v"] = (int64_t)R.Val.getInt().getExtValue();
      o["s"] = stmt(X->getSubStmt());
      return std::move(o);
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      auto o = snode("Default", S);
      o["s"] = stmt(X->getSubStmt());
      return std::move(o);
    }
    if (isa<BreakStmt>(S)) return snode("Break", S);
    if (isa<ContinueStmt>(S)) return snode("Continue", S);
    if (isa<NullStmt>(S)) return snode("Nop", S);
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      auto o = snode("Try", S);
      o["body"] = stmt(X->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) hs.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(hs);
      return std::move(o);
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    auto o = snode("OtherStmt", S);
    o["c"] = S->getStmtClassName();
    return std::move(o);
  }

  // --- top level -----------------------------------------------------------
  json::Value function(const FunctionDecl *F) {
    json::Object o;
    o["id"] = funName(F);
    std::string q;
    {
      llvm::raw_string_ostream os(q);
      F->printQualifiedName(os, PP);
    }
    o["q"] = q;
    o["n"] = F->getDeclName().isIdentifier() ? F->getName().str() : F->getNameAsString();
    o["file"] = rel(fileOf(F->getLocation()));
    o["l"] = lineOf(F->getLocation());
    o["ret"] = typeOf(F->getReturnType());
    if (F->isDefaulted()) o["defaulted"] = 1;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      if (M->isStatic()) o["static"] = 1;
      if (M->isConst()) o["const"] = 1;
      if (M->isVirtual()) o["virtual"] = 1;
      o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
    }
    json::Array ps;
    for (auto *P : F->parameters()) {
      json::Object p;
      p["id"] = idOf(P);
      p["n"] = P->getNameAsString();
      p["t"] = typeOf(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = 1;
      json::Array is;
      for (auto *I : C->inits()) {
        json::Object io;
        if (I->isAnyMemberInitializer()) io["m"] = I->getAnyMember()->getName().str();
        else if (I->isDelegatingInitializer()) io["deleg"] = 1;
        else if (I->isBaseInitializer()) io["base"] = typeOf(QualType(I->getBaseClass(), 0));
        if (I->isWritten()) io["w"] = 1;
        io["e"] = expr(I->getInit());
        io["l"] = lineOf(I->getSourceLocation());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
    o["body"] = stmt(F->getBody());
    return std::move(o);
  }
  json::Value record(const CXXRecordDecl *R) {
    json::Object o;
    o["name"] = recName(R);
    o["q"] = R->getQualifiedNameAsString();
    o["file"] = rel(fileOf(R->getLocation()));
    o["l"] = lineOf(R->getLocation());
    json::Array bs;
    for (auto &b : R->bases()) bs.push_back(typeOf(b.getType()));
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto *F : R->fields()) {
      json::Object f;
      f["n"] = F->getName().str();
      rowMajor = false;
      f["t"] = typeOf(F->getType());
      if (rowMajor) f["rm"] = 1;
      f["l"] = lineOf(F->getLocation());
      f["acc"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
      if (F->isMutable()) f["mut"] = 1;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *M : R->methods()) {
      json::Object m;
      m["id"] = funName(M);
      m["n"] = M->getNameAsString();
      m["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (isa<CXXConstructorDecl>(M)) m["ctor"] = 1;
      if (M->isImplicit()) m["impl"] = 1;
      if (M->isConst()) m["const"] = 1;
      if (M->isVirtual()) m["virtual"] = 1;
      if (M->isStatic()) m["static"] = 1;
      m["ret"] = typeOf(M->getReturnType());
      m["l"] = lineOf(M->getLocation());
      m["file"] = rel(fileOf(M->getLocation()));
      json::Array ps;
      for (auto *P : M->parameters()) {
        json::Object p;
        p["n"] = P->getNameAsString();
        p["t"] = typeOf(P->getType());
        ps.push_back(std::move(p));
      }
      m["params"] = std::move(ps);
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    return std::move(o);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Emit &E;
  json::Array funs, recs;
  std::set<std::string> seen;
  explicit Visitor(Emit &e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (!E.inRepo(F->getLocation())) return true;
    if (F->isImplicit() && !isa<CXXConstructorDecl>(F)) return true;
    std::string id = E.funName(F);
    if (!seen.insert("F" + id).second) return true;
    funs.push_back(E.function(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!E.inRepo(R->getLocation())) return true;
    if (!seen.insert("R" + E.recName(R)).second) return true;
    recs.push_back(E.record(R));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Emit E(C);
    Visitor V(E);
    V.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["functions"] = std::move(V.funs);
    o["records"] = std::move(V.recs);
    o["errors"] = (int64_t)C.getDiagnostics().hasErrorOccurred();
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char **argv) {
  // usage: mwfront ROOT FILE... -- FLAGS...
  std::string err;
  auto DB = tooling::FixedCompilationDatabase::loadFromCommandLine(argc, argv, err);
  if (!DB || argc < 3) {
    llvm::errs() << "usage: mwfront ROOT FILE... -- FLAGS\n" << err;
    return 2;
  }
  gRoot = argv[1];
  std::vector<std::string> files;
  for (int i = 2; i < argc; ++i) files.push_back(argv[i]);
  tooling::ClangTool T(*DB, files);
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
