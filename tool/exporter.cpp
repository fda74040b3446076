// Exports the resolved, type-checked program (functions, records, enums,
// globals of the analysed tree) as JSON: one document per translation unit.
// Templates are exported as instantiated; callees, members and overloads are
// the ones clang's semantic analysis selected.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>

using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("exporter");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("analysed roots"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("out", llvm::cl::desc("output file"), llvm::cl::cat(Cat));

namespace {

std::string usrOf(const Decl *D) {
  llvm::SmallString<128> B;
  if (index::generateUSRForDecl(D, B)) return "";
  return std::string(B.str());
}

class Exporter {
 public:
  Exporter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  json::Array Lambdas;
  std::set<const Decl *> LambdaSeen;

  int idOf(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return std::string(F);
  }
  bool inRoots(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int lineOf(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  std::string plainName(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    os.flush();
    return s;
  }
  std::string fullName(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P2(PP);
    D->getNameForDiagnostic(os, P2, true);
    os.flush();
    return s;
  }
  std::string typeStr(QualType T) {
    if (T.isNull()) return "";
    std::string s = T.getCanonicalType().getAsString(PP);
    if (s.size() > 400) s.resize(400);
    return s;
  }
  std::string tyCode(QualType T) {
    if (T.isNull()) return "?";
    T = T.getNonReferenceType().getCanonicalType();
    if (T->isDependentType()) return "D";
    if (T->isBooleanType()) return "b";
    if (T->isEnumeralType()) return "e";
    if (T->isUnsignedIntegerType()) return "u";
    if (T->isIntegerType()) return "i";
    if (T->isFloatingType()) return "f";
    if (T->isPointerType()) return "p";
    if (T->isVoidType()) return "v";
    if (T->isRecordType()) return "o";
    return "x";
  }

  json::Value fref(const FunctionDecl *F) {
    json::Object o;
    const FunctionDecl *D = F;
    o["q"] = plainName(D);
    if (inRoots(D)) {
      o["r"] = 1;
      o["u"] = usrOf(D);
      o["F"] = fullName(D);
    } else if (plainName(D).rfind("dynamicgraph::sot::", 0) == 0) {
      o["u"] = usrOf(D);
    }
    if (auto *A = D->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (unsigned i = 0; i < A->size(); ++i) {
        const TemplateArgument &t = A->get(i);
        if (t.getKind() == TemplateArgument::Integral)
          ta.push_back(llvm::toString(t.getAsIntegral(), 10));
        else if (t.getKind() == TemplateArgument::Type)
          ta.push_back(typeStr(t.getAsType()));
        else
          ta.push_back("?");
      }
      o["ta"] = std::move(ta);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
      if (M->isVirtual()) o["v"] = 1;
      if (M->isConst()) o["c"] = 1;
      if (M->isStatic()) o["s"] = 1;
      o["cls"] = fullClass(M->getParent());
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(D)) {
      if (C->isCopyConstructor()) o["copy"] = 1;
      if (C->isMoveConstructor()) o["move"] = 1;
    }
    if (D->isNoReturn()) o["nr"] = 1;
    // parameter passing modes: r = non-const lvalue ref, p = ptr to non-const,
    // v = by value/const
    std::string pm;
    for (auto *P : D->parameters()) {
      QualType T = P->getType();
      if (T->isDependentType()) pm += "r";
      else if (T->isRValueReferenceType()) pm += "m";
      else if (T->isLValueReferenceType())
        pm += T->getPointeeType().isConstQualified() ? "c" : "r";
      else if (T->isPointerType())
        pm += T->getPointeeType().isConstQualified() ? "q" : "p";
      else
        pm += "v";
    }
    o["pm"] = pm;
    QualType R = D->getReturnType();
    o["rt"] = std::string(R->isLValueReferenceType() ? (R->getPointeeType().isConstQualified() ? "c" : "r") : "v");
    return o;
  }
  std::string fullClass(const CXXRecordDecl *R) {
    if (!R) return "";
    if (inRoots(R)) return fullName(R);
    return plainName(R);
  }

  json::Value L(json::Object o, const Stmt *S) {
    o["l"] = lineOf(S->getBeginLoc());
    return o;
  }
  json::Array exprs(llvm::ArrayRef<const Expr *> A) {
    json::Array r;
    for (auto *e : A) r.push_back(expr(e));
    return r;
  }
  template <class It>
  json::Array exprRange(It b, It e) {
    json::Array r;
    for (; b != e; ++b) r.push_back(expr(*b));
    return r;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    json::Object o;
    // transparent wrappers
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
      json::Value v = expr(P->getExpr());
      if (auto *ob = v.getAsObject()) (*ob)["dflt"] = 1;
      return v;
    }
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    o["y"] = tyCode(E->getType());
    if (auto *I = dyn_cast<ImplicitCastExpr>(E)) {
      switch (I->getCastKind()) {
        case CK_FloatingToIntegral:
        case CK_FloatingToBoolean:
        case CK_IntegralToBoolean:
        case CK_PointerToBoolean:
        case CK_IntegralToFloating: {
          o["k"] = "icast";
          o["ck"] = I->getCastKindName();
          o["t"] = typeStr(E->getType());
          o["e"] = expr(I->getSubExpr());
          return L(std::move(o), E);
        }
        case CK_IntegralCast: {
          o["k"] = "icast";
          o["ck"] = I->getCastKindName();
          o["t"] = typeStr(E->getType());
          o["e"] = expr(I->getSubExpr());
          return L(std::move(o), E);
        }
        case CK_UserDefinedConversion:
        case CK_ConstructorConversion:
        default:
          return expr(I->getSubExpr());
      }
    }
    if (auto *C = dyn_cast<ExplicitCastExpr>(E)) {
      o["k"] = "cast";
      o["ck"] = C->getCastKindName();
      o["sk"] = C->getStmtClassName();
      o["t"] = typeStr(E->getType());
      o["e"] = expr(C->getSubExpr());
      return L(std::move(o), E);
    }
    if (isa<CXXThisExpr>(E)) {
      o["k"] = "this";
      return o;
    }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(V)) {
        o["k"] = "fn";
        o["f"] = fref(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        o["k"] = "enum";
        o["n"] = EC->getNameAsString();
        o["q"] = plainName(EC);
        o["v"] = EC->getInitVal().getExtValue();
      } else if (auto *VD = dyn_cast<VarDecl>(V)) {
        bool local = VD->isLocalVarDeclOrParm() && !VD->isStaticLocal();
        o["k"] = local ? "ref" : "glob";
        o["n"] = VD->getNameAsString();
        if (local) o["d"] = idOf(VD);
        else { o["q"] = plainName(VD); if (VD->isStaticLocal()) o["sl"] = 1; }
        o["t"] = typeStr(VD->getType());
        if (D->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
      } else if (auto *BD = dyn_cast<BindingDecl>(V)) {
        o["k"] = "ref"; o["n"] = BD->getNameAsString(); o["d"] = idOf(BD);
      } else {
        o["k"] = "glob";
        o["n"] = V->getNameAsString();
        o["q"] = plainName(V);
      }
      return L(std::move(o), E);
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *V = M->getMemberDecl();
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        o["k"] = "glob";
        o["n"] = VD->getNameAsString();
        o["q"] = plainName(VD);
        o["t"] = typeStr(VD->getType());
        return L(std::move(o), E);
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        o["k"] = "enum"; o["n"] = EC->getNameAsString(); o["q"] = plainName(EC);
        o["v"] = EC->getInitVal().getExtValue();
        return L(std::move(o), E);
      }
      if (auto *F = dyn_cast<FunctionDecl>(V)) {
        o["k"] = "bound";
        o["f"] = fref(F);
        o["b"] = expr(M->getBase());
        return L(std::move(o), E);
      }
      o["k"] = "mem";
      o["n"] = V->getNameAsString();
      o["q"] = plainName(V);
      o["t"] = typeStr(V->getType());
      if (M->isArrow()) o["a"] = 1;
      o["b"] = expr(M->getBase());
      return L(std::move(o), E);
    }
    if (auto *I = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "int";
      llvm::SmallString<32> s;
      I->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto *I = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "float";
      llvm::SmallString<32> s;
      I->getValue().toString(s, 17);
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto *I = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "int"; o["ch"] = 1;
      o["v"] = std::to_string(I->getValue());
      return o;
    }
    if (auto *I = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "bool";
      o["v"] = I->getValue();
      return o;
    }
    if (auto *I = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str";
      std::string s = I->getCharByteWidth() == 1 ? I->getString().str() : "<wide>";
      if (!json::isUTF8(s)) s = json::fixUTF8(s);
      o["v"] = s;
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "null";
      return o;
    }
    if (auto *P = dyn_cast<PredefinedExpr>(E)) {
      o["k"] = "str";
      o["v"] = "<predefined>";
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) o["post"] = 1;
      o["e"] = expr(U->getSubExpr());
      return L(std::move(o), E);
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      o["k"] = "bin";
      o["op"] = B->getOpcodeStr().str();
      o["a"] = expr(B->getLHS());
      o["b"] = expr(B->getRHS());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond";
      o["c"] = expr(C->getCond());
      o["ct"] = expr(C->getTrueExpr());
      o["cf"] = expr(C->getFalseExpr());
      o["t"] = typeStr(E->getType());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(C->getSemanticForm());
    if (auto *C = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "ocall";
      o["op"] = getOperatorSpelling(C->getOperator());
      if (auto *F = C->getDirectCallee()) {
        o["f"] = fref(F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) o["m"] = 1;
      }
      o["args"] = exprRange(C->arg_begin(), C->arg_end());
      if (!o.get("t")) o["t"] = typeStr(E->getType());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall";
      const Expr *cal = C->getCallee()->IgnoreParens();
      if (auto *MD = C->getMethodDecl()) o["f"] = fref(MD);
      else o["fe"] = expr(cal);
      if (auto *ME = dyn_cast<MemberExpr>(cal)) {
        if (ME->isArrow()) o["a"] = 1;
        if (ME->hasQualifier()) o["nv"] = 1;  // non virtual dispatch
      }
      o["o"] = expr(C->getImplicitObjectArgument());
      if (auto *IA = C->getImplicitObjectArgument()) o["ot"] = typeStr(IA->getType());
      o["args"] = exprRange(C->arg_begin(), C->arg_end());
      if (!o.get("t")) o["t"] = typeStr(E->getType());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = C->getDirectCallee()) o["f"] = fref(F);
      else o["fe"] = expr(C->getCallee());
      o["args"] = exprRange(C->arg_begin(), C->arg_end());
      if (!o.get("t")) o["t"] = typeStr(E->getType());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor";
      o["t"] = typeStr(E->getType());
      o["f"] = fref(C->getConstructor());
      if (C->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = 1;
      if (isa<CXXTemporaryObjectExpr>(E)) o["tmp"] = 1;
      o["args"] = exprRange(C->arg_begin(), C->arg_end());
      if (!o.get("t")) o["t"] = typeStr(E->getType());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "ctor"; o["t"] = typeStr(E->getType()); o["f"] = fref(C->getConstructor()); o["args"] = json::Array(); o["inh"] = 1;
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "idx";
      o["b"] = expr(C->getBase());
      o["i"] = expr(C->getIdx());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<InitListExpr>(E)) {
      o["k"] = "ilist";
      o["t"] = typeStr(E->getType());
      json::Array a;
      for (auto *x : C->inits()) a.push_back(expr(x));
      o["args"] = std::move(a);
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new";
      o["t"] = typeStr(C->getAllocatedType());
      if (C->getNumPlacementArgs()) o["pl"] = 1;
      if (C->isArray() && C->getArraySize()) o["n"] = expr(*C->getArraySize());
      if (C->getInitializer()) o["e"] = expr(C->getInitializer());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete";
      if (C->isArrayForm()) o["arr"] = 1;
      o["e"] = expr(C->getArgument());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw";
      o["e"] = C->getSubExpr() ? expr(C->getSubExpr()) : json::Value(nullptr);
      if (C->getSubExpr()) o["t"] = typeStr(C->getSubExpr()->getType());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      const CXXMethodDecl *M = C->getCallOperator();
      json::Array caps;
      auto ci = C->capture_init_begin();
      for (auto &cap : C->captures()) {
        json::Object c;
        if (cap.capturesThis()) c["this"] = 1;
        else if (cap.capturesVariable()) {
          c["d"] = idOf(cap.getCapturedVar());
          c["n"] = cap.getCapturedVar()->getNameAsString();
          c["by"] = cap.getCaptureKind() == LCK_ByRef ? "ref" : "val";
        }
        caps.push_back(std::move(c));
        ++ci;
      }
      o["caps"] = std::move(caps);
      json::Array ps;
      if (M) {
        for (auto *P : M->parameters()) ps.push_back(param(P));
        o["params"] = std::move(ps);
        if (M->getBody() && !C->isGenericLambda()) o["body"] = stmt(M->getBody());
      }
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o["k"] = "sizeof";
      o["tr"] = (int)C->getKind();
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx)) o["v"] = R.Val.getInt().getExtValue();
      return L(std::move(o), E);
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      o["k"] = "zero";
      o["t"] = typeStr(E->getType());
      return o;
    }
    if (auto *C = dyn_cast<CXXTypeidExpr>(E)) {
      o["k"] = "typeid";
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<VAArgExpr>(E)) {
      o["k"] = "vaarg"; o["e"] = expr(C->getSubExpr());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<StmtExpr>(E)) {
      o["k"] = "stmtexpr"; o["s"] = stmt(C->getSubStmt());
      return L(std::move(o), E);
    }
    if (auto *C = dyn_cast<OpaqueValueExpr>(E)) {
      if (C->getSourceExpr()) return expr(C->getSourceExpr());
    }
    if (auto *C = dyn_cast<PseudoObjectExpr>(E)) {
      if (C->getResultExpr()) return expr(C->getResultExpr());
    }
    if (auto *C = dyn_cast<TypeTraitExpr>(E)) {
      o["k"] = "bool"; o["v"] = C->isValueDependent() ? false : C->getValue();
      return o;
    }
    o["k"] = "unk";
    o["c"] = E->getStmtClassName();
    json::Array kids;
    for (auto *c : E->children())
      if (c) {
        if (auto *ce = dyn_cast<Expr>(c)) kids.push_back(expr(ce));
      }
    o["args"] = std::move(kids);
    return L(std::move(o), E);
  }

  json::Value param(const ParmVarDecl *P) {
    json::Object o;
    o["d"] = idOf(P);
    o["n"] = P->getNameAsString();
    o["t"] = typeStr(P->getType());
    QualType T = P->getType();
    if (T->isLValueReferenceType()) o["ref"] = T->getPointeeType().isConstQualified() ? "c" : "m";
    o["y"] = tyCode(T);
    return o;
  }
  json::Value var(const VarDecl *V) {
    json::Object o;
    o["d"] = idOf(V);
    o["n"] = V->getNameAsString();
    o["t"] = typeStr(V->getType());
    o["y"] = tyCode(V->getType());
    QualType T = V->getType();
    if (T->isReferenceType()) o["ref"] = T->getPointeeType().isConstQualified() ? "c" : "m";
    if (V->isStaticLocal()) { o["static"] = 1; o["q"] = plainName(V); }
    if (V->getInit()) o["init"] = expr(V->getInit());
    if (auto *AT = Ctx.getAsConstantArrayType(T)) o["asz"] = (int64_t)AT->getSize().getZExtValue();
    o["l"] = lineOf(V->getLocation());
    return o;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object o;
    if (auto *C = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block";
      json::Array a;
      for (auto *c : C->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Value v = expr(E);
      json::Object w;
      w["k"] = "expr";
      w["e"] = std::move(v);
      return L(std::move(w), S);
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      json::Array a;
      for (auto *d : D->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(var(V));
      o["v"] = std::move(a);
      return L(std::move(o), S);
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (I->getInit()) o["i"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cv"] = var(I->getConditionVariable());
      o["c"] = expr(I->getCond());
      o["t"] = stmt(I->getThen());
      if (I->getElse()) o["e"] = stmt(I->getElse());
      return L(std::move(o), S);
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      o["i"] = stmt(F->getInit());
      o["c"] = expr(F->getCond());
      o["n"] = expr(F->getInc());
      o["b"] = stmt(F->getBody());
      return L(std::move(o), S);
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while";
      o["c"] = expr(W->getCond());
      if (W->getConditionVariable()) o["cv"] = var(W->getConditionVariable());
      o["b"] = stmt(W->getBody());
      return L(std::move(o), S);
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      o["k"] = "do";
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return L(std::move(o), S);
    }
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor";
      o["v"] = var(R->getLoopVariable());
      o["r"] = expr(R->getRangeInit());
      o["b"] = stmt(R->getBody());
      return L(std::move(o), S);
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      o["e"] = expr(R->getRetValue());
      return L(std::move(o), S);
    }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return L(std::move(o), S); }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return L(std::move(o), S); }
    if (isa<NullStmt>(S)) { o["k"] = "null"; return o; }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch";
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return L(std::move(o), S);
    }
    if (auto *C = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case";
      o["c"] = expr(C->getLHS());
      o["b"] = stmt(C->getSubStmt());
      return L(std::move(o), S);
    }
    if (auto *C = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default";
      o["b"] = stmt(C->getSubStmt());
      return L(std::move(o), S);
    }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try";
      o["b"] = stmt(T->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        json::Object h;
        if (H->getExceptionDecl()) {
          h["v"] = var(H->getExceptionDecl());
          h["t"] = typeStr(H->getCaughtType());
        }
        h["b"] = stmt(H->getHandlerBlock());
        h["l"] = lineOf(H->getBeginLoc());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      return L(std::move(o), S);
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto *A = dyn_cast<LabelStmt>(S)) { o["k"] = "label"; o["b"] = stmt(A->getSubStmt()); return L(std::move(o), S); }
    o["k"] = "unks";
    o["c"] = S->getStmtClassName();
    return L(std::move(o), S);
  }

  json::Value function(const FunctionDecl *F) {
    json::Object o;
    o["q"] = plainName(F);
    o["F"] = fullName(F);
    o["u"] = usrOf(F);
    o["n"] = F->getNameAsString();
    o["file"] = fileOf(F->getBody()->getBeginLoc());
    o["l"] = lineOf(F->getLocation());
    o["l2"] = lineOf(F->getEndLoc());
    o["rt"] = typeStr(F->getReturnType());
    o["ry"] = tyCode(F->getReturnType());
    if (F->getReturnType()->isLValueReferenceType()) o["rr"] = 1;
    if (F->isVariadic()) o["var"] = 1;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = fullName(M->getParent());
      if (M->isConst()) o["const"] = 1;
      if (M->isStatic()) o["static"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
      o["acc"] = (int)M->getAccess();
      json::Array ov;
      for (auto *b : M->overridden_methods()) ov.push_back(usrOf(b));
      o["ov"] = std::move(ov);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
    if (F->isImplicit() || F->isDefaulted()) o["impl"] = 1;
    json::Array ps;
    for (auto *P : F->parameters()) ps.push_back(param(P));
    o["params"] = std::move(ps);
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = 1;
      json::Array in;
      for (auto *I : C->inits()) {
        json::Object i;
        if (I->isAnyMemberInitializer()) {
          i["f"] = I->getAnyMember()->getNameAsString();
          i["fq"] = plainName(I->getAnyMember());
        } else if (I->isBaseInitializer())
          i["base"] = typeStr(QualType(I->getBaseClass(), 0));
        else
          i["deleg"] = 1;
        if (I->isWritten()) i["w"] = 1;
        i["e"] = expr(I->getInit());
        i["l"] = lineOf(I->getSourceLocation());
        in.push_back(std::move(i));
      }
      o["inits"] = std::move(in);
      if (C->isCopyConstructor()) o["copy"] = 1;
    }
    o["body"] = stmt(F->getBody());
    return o;
  }
  json::Value record(const CXXRecordDecl *R) {
    json::Object o;
    o["F"] = fullName(R);
    o["q"] = plainName(R);
    o["file"] = fileOf(R->getLocation());
    o["l"] = lineOf(R->getLocation());
    json::Array bs, fs, ms;
    for (auto &B : R->bases()) {
      json::Object b;
      const CXXRecordDecl *BR = B.getType()->getAsCXXRecordDecl();
      b["F"] = BR ? fullClass(BR) : typeStr(B.getType());
      if (B.isVirtual()) b["v"] = 1;
      bs.push_back(std::move(b));
    }
    for (auto *f : R->fields()) {
      json::Object x;
      x["n"] = f->getNameAsString();
      x["t"] = typeStr(f->getType());
      x["y"] = tyCode(f->getType());
      if (f->getType()->isReferenceType()) x["ref"] = 1;
      x["acc"] = (int)f->getAccess();
      x["l"] = lineOf(f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) x["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(x));
    }
    for (auto *m : R->methods()) {
      json::Object x;
      x["n"] = m->getNameAsString();
      x["u"] = usrOf(m);
      if (m->isVirtual()) x["v"] = 1;
      if (m->isPureVirtual()) x["pure"] = 1;
      if (m->isImplicit()) x["impl"] = 1;
      x["acc"] = (int)m->getAccess();
      x["l"] = lineOf(m->getLocation());
      json::Array ov;
      for (auto *b : m->overridden_methods()) ov.push_back(usrOf(b));
      x["ov"] = std::move(ov);
      ms.push_back(std::move(x));
    }
    o["bases"] = std::move(bs);
    o["fields"] = std::move(fs);
    o["methods"] = std::move(ms);
    if (R->isAbstract()) o["abs"] = 1;
    if (R->hasTrivialDefaultConstructor()) o["tdc"] = 1;
    return o;
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  V(Exporter &e) : X(e) {}
  Exporter &X;
  json::Array Funcs, Recs, Enums, Globs;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->getBody()) return true;
    if (F->isDependentContext()) return true;
    if (!X.inRoots(F)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    Funcs.push_back(X.function(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (R->isInvalidDecl()) return true;
    if (!X.inRoots(R)) return true;
    Recs.push_back(X.record(R));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !X.inRoots(E)) return true;
    json::Object o;
    o["q"] = X.plainName(E);
    json::Array a;
    for (auto *c : E->enumerators()) {
      json::Object x;
      x["n"] = c->getNameAsString();
      x["v"] = c->getInitVal().getExtValue();
      a.push_back(std::move(x));
    }
    o["v"] = std::move(a);
    o["file"] = X.fileOf(E->getLocation());
    o["l"] = X.lineOf(E->getLocation());
    Enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (!D->hasGlobalStorage() || D->isStaticLocal() || !X.inRoots(D)) return true;
    if (D->getDeclContext()->isDependentContext()) return true;
    if (D->isInvalidDecl()) return true;
    if (!D->isThisDeclarationADefinition()) return true;
    json::Object o;
    o["q"] = X.plainName(D);
    o["F"] = X.fullName(D);
    o["t"] = X.typeStr(D->getType());
    if (D->getInit()) o["init"] = X.expr(D->getInit());
    o["file"] = X.fileOf(D->getLocation());
    o["l"] = X.lineOf(D->getLocation());
    Globs.push_back(std::move(o));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C);
    V v(X);
    v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["functions"] = std::move(v.Funcs);
    o["records"] = std::move(v.Recs);
    o["enums"] = std::move(v.Enums);
    o["globals"] = std::move(v.Globs);
    o["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream os(Out, EC);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(newFrontendActionFactory<Action>().get());
}
