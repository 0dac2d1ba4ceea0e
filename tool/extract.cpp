// gsx: dumps the *resolved* program (AST after overload resolution and template
// instantiation) of every function that is defined under a given root directory
// as JSON.  No code of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> Roots;

namespace {
class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  std::map<std::string, int> TypeIds;
  Array TypeTable;
  std::map<const Decl *, int> DeclIds;
  Object *CurFn = nullptr;

  explicit Dumper(ASTContext &Ctx)
      : C(Ctx), SM(Ctx.getSourceManager()),
        MC(ItaniumMangleContext::create(Ctx, Ctx.getDiagnostics())),
        PP(Ctx.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    if (F.empty())
      return "";
    llvm::SmallString<256> P(F);
    // crude normalisation of a/../b
    std::string s = P.str().str();
    size_t pos;
    while ((pos = s.find("/../")) != std::string::npos) {
      size_t st = s.rfind('/', pos - 1);
      if (st == std::string::npos)
        break;
      s = s.substr(0, st) + s.substr(pos + 3);
    }
    while ((pos = s.find("/./")) != std::string::npos)
      s = s.substr(0, pos) + s.substr(pos + 2);
    return s;
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto &R : Roots)
      if (f.compare(0, R.size(), R) == 0)
        return true;
    return false;
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  int type(QualType T) {
    if (T.isNull())
      return -1;
    QualType Can = T.getCanonicalType();
    std::string cs = Can.getAsString(PP);
    std::string ss = T.getAsString(PP);
    std::string key = ss + "\x01" + cs;
    auto It = TypeIds.find(key);
    if (It != TypeIds.end())
      return It->second;
    int id = TypeTable.size();
    TypeIds[key] = id;
    Object O;
    O["s"] = ss;
    O["c"] = cs;
    QualType NR = Can.getNonReferenceType();
    std::string cls;
    if (Can->isLValueReferenceType())
      O["ref"] = 1;
    if (Can->isRValueReferenceType())
      O["rref"] = 1;
    if (NR.isConstQualified())
      O["const"] = 1;
    if (NR->isPointerType()) {
      O["ptr"] = 1;
      if (NR->getPointeeType().isConstQualified())
        O["pconst"] = 1;
      if (auto *RD = NR->getPointeeType()->getAsCXXRecordDecl())
        O["rec"] = qname(RD);
      if (NR->isFunctionPointerType())
        O["fptr"] = 1;
    }
    if (NR->isBooleanType())
      cls = "bool";
    else if (NR->isEnumeralType())
      cls = "enum";
    else if (NR->isIntegralType(C))
      cls = NR->isUnsignedIntegerType() ? "uint" : "int";
    else if (NR->isFloatingType())
      cls = "float";
    else if (auto *RD = NR->getAsCXXRecordDecl()) {
      cls = "rec";
      O["rec"] = qname(RD);
      if (auto *SP = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array TA;
        for (auto &A : SP->getTemplateArgs().asArray()) {
          if (A.getKind() == TemplateArgument::Type) {
            std::string a = A.getAsType().getCanonicalType().getAsString(PP);
            if (a.size() > 200) a = a.substr(0, 200);
            TA.push_back(a);
          }
          else if (A.getKind() == TemplateArgument::Integral)
            TA.push_back(llvm::toString(A.getAsIntegral(), 10));
          else
            TA.push_back("?");
        }
        O["targs"] = std::move(TA);
      }
    } else if (NR->isVoidType())
      cls = "void";
    else if (NR->isNullPtrType())
      cls = "nullptr";
    else if (NR->isArrayType())
      cls = "array";
    else if (NR->isPointerType())
      cls = "ptr";
    else
      cls = "other";
    if (NR->isIntegralType(C) && !NR->isDependentType())
      O["w"] = (int64_t)C.getTypeSize(NR);
    O["cls"] = cls;
    TypeTable.push_back(std::move(O));
    return id;
  }

  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream OS(s);
    D->printQualifiedName(OS, PP);
    // class template specialisations: no args, keep plain qualified name
    return OS.str();
  }
  std::string recFull(const CXXRecordDecl *RD) {
    return C.getRecordType(RD).getCanonicalType().getAsString(PP);
  }
  std::string mangled(const FunctionDecl *FD) {
    std::string s;
    llvm::raw_string_ostream OS(s);
    if (FD->isDependentContext())
      return "";
    GlobalDecl GD;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD))
      GD = GlobalDecl(CD, Ctor_Complete);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(FD))
      GD = GlobalDecl(DD, Dtor_Complete);
    else
      GD = GlobalDecl(FD);
    if (MC->shouldMangleDeclName(FD))
      MC->mangleName(GD, OS);
    else
      OS << FD->getNameAsString();
    return OS.str();
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = DeclIds.find(D);
    if (It != DeclIds.end())
      return It->second;
    int id = DeclIds.size() + 1;
    DeclIds[D] = id;
    return id;
  }

  Object fnRef(const FunctionDecl *FD) {
    Object O;
    O["q"] = qname(FD);
    if (inRoot(FD->getLocation()) ||
        (FD->getTemplateInstantiationPattern() &&
         inRoot(FD->getTemplateInstantiationPattern()->getLocation()))) {
      O["m"] = mangled(FD);
      O["repo"] = 1;
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = qname(M->getParent());
      if (inRoot(M->getParent()->getLocation()))
        O["clsfull"] = recFull(M->getParent());
      if (M->isConst())
        O["const"] = 1;
      if (M->isStatic())
        O["static"] = 1;
      if (M->isVirtual())
        O["virt"] = 1;
      if (M->isCopyAssignmentOperator())
        O["copyassign"] = 1;
      if (M->isMoveAssignmentOperator())
        O["moveassign"] = 1;
      if (M->isDefaulted())
        O["defaulted"] = 1;
      if (M->getRefQualifier() == RQ_LValue)
        O["rq"] = "&";
      if (M->getRefQualifier() == RQ_RValue)
        O["rq"] = "&&";
    }
    if (FD->isNoReturn())
      O["noreturn"] = 1;
    Array PT;
    for (auto *P : FD->parameters())
      PT.push_back(type(P->getType()));
    O["pt"] = std::move(PT);
    return O;
  }

  Value list(ArrayRef<const Expr *> L) {
    Array A;
    for (auto *E : L)
      A.push_back(expr(E));
    return A;
  }
  template <class R> Value listR(R &&L) {
    Array A;
    for (auto *E : L)
      A.push_back(stmt(E));
    return A;
  }

  Object node(const char *K, const Stmt *S) {
    Object O;
    O["k"] = K;
    O["l"] = (int64_t)lineOf(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S))
      O["t"] = type(E->getType());
    return O;
  }

  Value expr(const Expr *E) { return stmt(E); }

  Value varDecl(const VarDecl *V) {
    Object O;
    O["k"] = "var";
    O["l"] = (int64_t)lineOf(V->getLocation());
    O["n"] = V->getNameAsString();
    O["id"] = declId(V);
    O["t"] = type(V->getType());
    if (V->isStaticLocal())
      O["static"] = 1;
    if (V->isConstexpr())
      O["constexpr"] = 1;
    if (V->hasInit())
      O["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array B;
      for (auto *BD : DD->bindings()) {
        Object X;
        X["n"] = BD->getNameAsString();
        X["id"] = declId(BD);
        if (BD->getBinding())
          X["e"] = expr(BD->getBinding());
        if (BD->getHoldingVar() && BD->getHoldingVar()->getInit()) {
          X["hid"] = declId(BD->getHoldingVar());
          X["he"] = expr(BD->getHoldingVar()->getInit());
        }
        B.push_back(std::move(X));
      }
      O["bind"] = std::move(B);
    }
    return O;
  }

  Value stmt(const Stmt *S) {
    if (!S)
      return nullptr;
    // transparent wrappers
    if (auto *X = dyn_cast<ParenExpr>(S))
      return stmt(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(S))
      return stmt(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(S))
      return stmt(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(S))
      return stmt(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(S))
      return stmt(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(S))
      return stmt(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(S))
      return stmt(X->getExpr());
    if (auto *X = dyn_cast<AttributedStmt>(S))
      return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(S)) {
      Object O = node("stdinit", S);
      O["e"] = stmt(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<ImplicitCastExpr>(S)) {
      switch (X->getCastKind()) {
      case CK_IntegralCast:
      case CK_FloatingToIntegral:
      case CK_IntegralToFloating:
      case CK_FloatingCast:
      case CK_IntegralToBoolean:
      case CK_FloatingToBoolean:
      case CK_PointerToBoolean:
        break;
      default:
        return stmt(X->getSubExpr());
      }
      Object O = node("icast", S);
      O["ck"] = X->getCastKindName();
      O["e"] = stmt(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(S)) {
      Object O = node("cast", S);
      const char *k = "c";
      if (isa<CXXStaticCastExpr>(X))
        k = "static";
      else if (isa<CXXConstCastExpr>(X))
        k = "const";
      else if (isa<CXXDynamicCastExpr>(X))
        k = "dynamic";
      else if (isa<CXXReinterpretCastExpr>(X))
        k = "reinterpret";
      else if (isa<CXXFunctionalCastExpr>(X))
        k = "func";
      O["how"] = k;
      O["ck"] = X->getCastKindName();
      O["e"] = stmt(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(S)) {
      Object O = node("int", S);
      llvm::SmallString<32> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      O["v"] = s.str().str();
      return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(S)) {
      Object O = node("float", S);
      llvm::SmallString<64> s;
      X->getValue().toString(s, 40, 0);
      O["v"] = s.str().str();
      return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(S)) {
      Object O = node("str", S);
      O["v"] = X->getCharByteWidth() == 1 ? json::fixUTF8(X->getString()) : "";
      return O;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(S)) {
      Object O = node("int", S);
      O["v"] = std::to_string(X->getValue());
      return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) {
      Object O = node("bool", S);
      O["v"] = X->getValue();
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S))
      return node("null", S);
    if (isa<CXXThisExpr>(S))
      return node("this", S);
    if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S))
      return node("zeroinit", S);
    if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = X->getDecl();
      if (auto *BD = dyn_cast<BindingDecl>(D)) {
        Object O = node("ref", S);
        O["n"] = BD->getNameAsString();
        O["id"] = declId(BD);
        O["dk"] = "binding";
        return O;
      }
      Object O = node("ref", S);
      O["n"] = D->getNameAsString();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        O["dk"] = "fn";
        O["fn"] = fnRef(FD);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["dk"] = "enum";
        O["q"] = qname(EC);
        llvm::SmallString<32> s;
        EC->getInitVal().toString(s, 10);
        O["v"] = s.str().str();
      } else if (auto *PD = dyn_cast<ParmVarDecl>(D)) {
        O["dk"] = "param";
        O["id"] = declId(PD);
        O["pi"] = (int64_t)PD->getFunctionScopeIndex();
      } else if (auto *VD = dyn_cast<VarDecl>(D)) {
        O["id"] = declId(VD);
        if (VD->isLocalVarDecl() && !VD->isStaticLocal())
          O["dk"] = "local";
        else {
          O["dk"] = VD->isStaticLocal() ? "staticlocal" : "global";
          O["q"] = qname(VD);
          if (inRoot(VD->getLocation()))
            O["repo"] = 1;
        }
      } else if (auto *NP = dyn_cast<NonTypeTemplateParmDecl>(D)) {
        O["dk"] = "nttp";
        (void)NP;
      } else {
        O["dk"] = "other";
        O["q"] = qname(D);
      }
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(S)) {
      Object O = node("mem", S);
      O["n"] = X->getMemberDecl()->getNameAsString();
      O["q"] = qname(X->getMemberDecl());
      if (X->isArrow())
        O["arrow"] = 1;
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["field"] = 1;
        if (FD->isMutable())
          O["mutable"] = 1;
      } else if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O["staticmem"] = 1;
        O["id"] = declId(VD);
      } else if (auto *MD = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
        O["fn"] = fnRef(MD);
      }
      O["b"] = stmt(X->getBase());
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(S)) {
      Object O = node("lambda", S);
      Array Caps;
      auto InitIt = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        Object CO;
        if (Cp.capturesThis())
          CO["this"] = 1;
        else if (Cp.capturesVariable()) {
          CO["n"] = Cp.getCapturedVar()->getNameAsString();
          CO["id"] = declId(Cp.getCapturedVar());
          CO["t"] = type(cast<ValueDecl>(Cp.getCapturedVar())->getType());
        }
        CO["ref"] = Cp.getCaptureKind() == LCK_ByRef;
        if (*InitIt)
          CO["init"] = stmt(*InitIt);
        ++InitIt;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      const FunctionDecl *M = X->getCallOperator();
      const Stmt *Body = X->getBody();
      if (auto *FT = X->getCallOperator()->getDescribedFunctionTemplate())
        for (auto *Sp : FT->specializations())
          if (Sp->getBody()) {
            M = Sp;
            Body = Sp->getBody();
            break;
          }
      Array Ps;
      for (auto *P : M->parameters())
        Ps.push_back(varDecl(P));
      O["params"] = std::move(Ps);
      O["body"] = stmt(Body);
      O["m"] = M->isDependentContext() ? "" : mangled(M);
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(S)) {
      Object O = node("opcall", S);
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *FD = X->getDirectCallee())
        O["fn"] = fnRef(FD);
      else
        O["callee"] = stmt(X->getCallee());
      Array A;
      for (auto *E : X->arguments())
        A.push_back(stmt(E));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(S)) {
      Object O = node("mcall", S);
      if (auto *FD = X->getMethodDecl()) {
        O["fn"] = fnRef(FD);
        O["n"] = FD->getNameAsString();
        if (FD->isVirtual()) {
          auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
          if (ME && !ME->hasQualifier())
            O["dyn"] = 1;
        }
      } else
        O["callee"] = stmt(X->getCallee());
      if (auto *Obj = X->getImplicitObjectArgument()) {
        O["o"] = stmt(Obj);
        O["ot"] = type(Obj->getType());
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
          if (ME->isArrow())
            O["arrow"] = 1;
      }
      Array A;
      for (auto *E : X->arguments())
        A.push_back(stmt(E));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(S)) {
      Object O = node("call", S);
      if (auto *FD = X->getDirectCallee()) {
        O["fn"] = fnRef(FD);
        O["n"] = FD->getNameAsString();
      } else
        O["callee"] = stmt(X->getCallee());
      Array A;
      for (auto *E : X->arguments())
        A.push_back(stmt(E));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      Object O = node("ctor", S);
      auto *CD = X->getConstructor();
      O["fn"] = fnRef(CD);
      if (CD->isCopyConstructor())
        O["copy"] = 1;
      if (CD->isMoveConstructor())
        O["move"] = 1;
      if (X->isElidable())
        O["elide"] = 1;
      if (X->getConstructionKind() != CXXConstructionKind::Complete)
        O["base"] = 1;
      if (X->isListInitialization())
        O["li"] = 1;
      Array A;
      for (auto *E : X->arguments())
        A.push_back(stmt(E));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
      Object O = node("inhctor", S);
      O["fn"] = fnRef(X->getConstructor());
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      Object O = node("new", S);
      O["at"] = type(X->getAllocatedType());
      if (X->getInitializer())
        O["init"] = stmt(X->getInitializer());
      if (X->isArray())
        O["array"] = 1;
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(S)) {
      Object O = node("delete", S);
      O["e"] = stmt(X->getArgument());
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(S)) {
      Object O = node("throw", S);
      if (X->getSubExpr()) {
        O["e"] = stmt(X->getSubExpr());
        O["et"] = type(X->getSubExpr()->getType());
      }
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(S)) {
      if (X->isTransparent() && X->getNumInits() == 1)
        return stmt(X->getInit(0));
      Object O = node("initlist", S);
      Array A;
      for (auto *E : X->inits())
        A.push_back(stmt(E));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<ParenListExpr>(S)) {
      Object O = node("parenlist", S);
      Array A;
      for (unsigned i = 0; i < X->getNumExprs(); ++i)
        A.push_back(stmt(X->getExpr(i)));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(S)) {
      Object O = node("idx", S);
      O["b"] = stmt(X->getBase());
      O["i"] = stmt(X->getIdx());
      return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(S)) {
      Object O = node("cassign", S);
      O["op"] = X->getOpcodeStr().str();
      O["a"] = stmt(X->getLHS());
      O["b"] = stmt(X->getRHS());
      O["ct"] = type(X->getComputationResultType());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(S)) {
      Object O = node("bin", S);
      O["op"] = X->getOpcodeStr().str();
      O["a"] = stmt(X->getLHS());
      O["b"] = stmt(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(S)) {
      Object O = node("un", S);
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix())
        O["post"] = 1;
      O["e"] = stmt(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(S)) {
      Object O = node("cond", S);
      O["c"] = stmt(X->getCond());
      O["a"] = stmt(X->getTrueExpr());
      O["b"] = stmt(X->getFalseExpr());
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      Object O = node("sizeof", S);
      return O;
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(S)) {
      Object O = node("typeid", S);
      if (!X->isTypeOperand())
        O["e"] = stmt(X->getExprOperand());
      return O;
    }
    if (auto *X = dyn_cast<PredefinedExpr>(S)) {
      Object O = node("str", S);
      O["v"] = "";
      return O;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(S))
      return stmt(X->getSourceExpr());
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(S)) {
      Object O = node("arrinitloop", S);
      O["e"] = stmt(X->getCommonExpr());
      return O;
    }
    // ---- statements
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      Object O = node("block", S);
      Array A;
      for (auto *B : X->body())
        A.push_back(stmt(B));
      O["s"] = std::move(A);
      O["el"] = (int64_t)lineOf(X->getEndLoc());
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      Object O = node("decl", S);
      Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D))
          A.push_back(varDecl(V));
      O["d"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) {
        if (auto V = X->getNondiscardedCase(C)) {
          if (*V)
            return stmt(*V);
          return node("nullstmt", S);
        }
      }
      Object O = node("if", S);
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        O["cv"] = varDecl(X->getConditionVariable());
      O["c"] = stmt(X->getCond());
      O["a"] = stmt(X->getThen());
      if (X->getElse())
        O["b"] = stmt(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      Object O = node("for", S);
      O["init"] = stmt(X->getInit());
      O["c"] = stmt(X->getCond());
      O["inc"] = stmt(X->getInc());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      Object O = node("forrange", S);
      O["var"] = varDecl(X->getLoopVariable());
      O["range"] = stmt(X->getRangeInit());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      Object O = node("while", S);
      O["c"] = stmt(X->getCond());
      if (X->getConditionVariable())
        O["cv"] = varDecl(X->getConditionVariable());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      Object O = node("do", S);
      O["c"] = stmt(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      Object O = node("return", S);
      if (X->getRetValue())
        O["e"] = stmt(X->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S))
      return node("break", S);
    if (isa<ContinueStmt>(S))
      return node("continue", S);
    if (isa<NullStmt>(S))
      return node("nullstmt", S);
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      Object O = node("switch", S);
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      O["c"] = stmt(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      Object O = node("case", S);
      O["v"] = stmt(X->getLHS());
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      Object O = node("default", S);
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      Object O = node("try", S);
      O["body"] = stmt(X->getTryBlock());
      Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *HC = X->getHandler(i);
        Object HO;
        if (HC->getExceptionDecl())
          HO["var"] = varDecl(HC->getExceptionDecl());
        HO["body"] = stmt(HC->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
      return O;
    }
    Object O = node("unknown", S);
    O["cls"] = S->getStmtClassName();
    Array A;
    for (auto *Ch : S->children())
      A.push_back(stmt(Ch));
    O["a"] = std::move(A);
    return O;
  }

  Object function(const FunctionDecl *FD) {
    Object O = fnRef(FD);
    O["k"] = "function";
    O["n"] = FD->getNameAsString();
    O["file"] = fileOf(FD->getLocation());
    O["l"] = (int64_t)lineOf(FD->getLocation());
    O["el"] = (int64_t)lineOf(FD->getEndLoc());
    O["rt"] = type(FD->getReturnType());
    if (FD->isTemplateInstantiation())
      O["inst"] = 1;
    if (FD->getStorageClass() == SC_Static)
      O["sstatic"] = 1;
    Array Ps;
    for (auto *P : FD->parameters())
      Ps.push_back(varDecl(P));
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      Array OV;
      for (auto *B : M->overridden_methods())
        OV.push_back(mangled(B));
      O["overrides"] = std::move(OV);
      O["access"] = getAccessSpelling(M->getAccess()).str();
    }
    if (FD->isImplicit())
      O["implicit"] = 1;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      O["ctor"] = 1;
      if (CD->isCopyConstructor())
        O["copy"] = 1;
      if (CD->isMoveConstructor())
        O["move"] = 1;
      Array I;
      for (auto *In : CD->inits()) {
        Object IO;
        IO["l"] = (int64_t)lineOf(In->getSourceLocation());
        if (In->isAnyMemberInitializer()) {
          IO["f"] = In->getAnyMember()->getNameAsString();
          IO["q"] = qname(In->getAnyMember());
        } else if (In->isBaseInitializer()) {
          QualType BT(In->getBaseClass(), 0);
          IO["base"] = BT.getCanonicalType().getAsString(PP);
        } else if (In->isDelegatingInitializer())
          IO["deleg"] = 1;
        if (!In->isWritten())
          IO["imp"] = 1;
        IO["e"] = stmt(In->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(FD))
      O["dtor"] = 1;
    O["body"] = stmt(FD->getBody());
    return O;
  }

  Object record(const CXXRecordDecl *RD) {
    Object O;
    O["q"] = qname(RD);
    O["full"] = recFull(RD);
    O["file"] = fileOf(RD->getLocation());
    O["l"] = (int64_t)lineOf(RD->getLocation());
    if (isa<ClassTemplateSpecializationDecl>(RD))
      O["inst"] = 1;
    if (RD->isAbstract())
      O["abstract"] = 1;
    if (RD->isLambda())
      O["lambda"] = 1;
    Array B;
    for (auto &Bs : RD->bases())
      B.push_back(Bs.getType().getCanonicalType().getAsString(PP));
    O["bases"] = std::move(B);
    Array F;
    for (auto *FD : RD->fields()) {
      Object FO;
      FO["n"] = FD->getNameAsString();
      FO["t"] = type(FD->getType());
      FO["l"] = (int64_t)lineOf(FD->getLocation());
      if (FD->isMutable())
        FO["mutable"] = 1;
      FO["access"] = getAccessSpelling(FD->getAccess()).str();
      if (FD->hasInClassInitializer() && FD->getInClassInitializer())
        FO["init"] = stmt(FD->getInClassInitializer());
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    Array M;
    for (auto *MD : RD->methods()) {
      Object MO = fnRef(MD);
      MO["n"] = MD->getNameAsString();
      MO["l"] = (int64_t)lineOf(MD->getLocation());
      MO["rt"] = type(MD->getReturnType());
      MO["access"] = getAccessSpelling(MD->getAccess()).str();
      MO["m"] = mangled(MD);
      if (MD->isDeleted())
        MO["deleted"] = 1;
      if (MD->isImplicit())
        MO["implicit"] = 1;
      if (MD->isPureVirtual())
        MO["pure"] = 1;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(MD)) {
        MO["ctor"] = 1;
        if (CD->isCopyConstructor())
          MO["copy"] = 1;
        if (CD->isMoveConstructor())
          MO["move"] = 1;
      }
      if (isa<CXXDestructorDecl>(MD))
        MO["dtor"] = 1;
      Array OV;
      for (auto *Bm : MD->overridden_methods())
        OV.push_back(mangled(Bm));
      MO["overrides"] = std::move(OV);
      M.push_back(std::move(MO));
    }
    O["methods"] = std::move(M);
    if (RD->needsImplicitCopyConstructor())
      O["lazycopyctor"] = 1;
    if (RD->needsImplicitMoveConstructor())
      O["lazymovector"] = 1;
    if (RD->needsImplicitCopyAssignment())
      O["lazycopyassign"] = 1;
    if (RD->needsImplicitMoveAssignment())
      O["lazymoveassign"] = 1;
    O["simpleCopy"] = RD->hasSimpleCopyConstructor();
    O["hasUserCopy"] = RD->hasUserDeclaredCopyConstructor();
    O["hasUserMove"] = RD->hasUserDeclaredMoveConstructor();
    O["hasUserCopyAssign"] = RD->hasUserDeclaredCopyAssignment();
    O["hasUserMoveAssign"] = RD->hasUserDeclaredMoveAssignment();
    O["hasUserDtor"] = RD->hasUserDeclaredDestructor();
    return O;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper D;
  Array Fns, Recs, Vars;
  std::set<const void *> Seen;
  explicit Visitor(ASTContext &C) : D(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() &&
        !(FD->isDefaulted() && FD->hasBody()))
      return true;
    if (!FD->hasBody() || FD->isDependentContext())
      return true;
    if (!D.inRoot(FD->getLocation()))
      return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD))
      if (M->getParent()->isLambda())
        return true;
    if (!Seen.insert(FD->getCanonicalDecl()).second)
      return true;
    Fns.push_back(D.function(FD));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() ||
        RD->isLambda())
      return true;
    if (!D.inRoot(RD->getLocation()))
      return true;
    if (!Seen.insert(RD->getCanonicalDecl()).second)
      return true;
    Recs.push_back(D.record(RD));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V) || !V->hasGlobalStorage())
      return true;
    if (!D.inRoot(V->getLocation()))
      return true;
    if (V->getDeclContext()->isDependentContext())
      return true;
    Object O;
    O["q"] = D.qname(V);
    O["n"] = V->getNameAsString();
    O["file"] = D.fileOf(V->getLocation());
    O["l"] = (int64_t)D.lineOf(V->getLocation());
    O["t"] = D.type(V->getType());
    O["id"] = D.declId(V);
    if (V->isStaticLocal())
      O["staticlocal"] = 1;
    if (V->isConstexpr())
      O["constexpr"] = 1;
    if (V->getType().isConstQualified())
      O["const"] = 1;
    if (V->getTSCSpec() != TSCS_unspecified)
      O["tls"] = 1;
    if (V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly)
      O["def"] = 1;
    if (V->hasInit() && !V->getInit()->isValueDependent())
      O["init"] = D.expr(V->getInit());
    Vars.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  std::string Out;
  explicit Consumer(std::string O) : Out(std::move(O)) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Visitor V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object O;
    O["functions"] = std::move(V.Fns);
    O["records"] = std::move(V.Recs);
    O["vars"] = std::move(V.Vars);
    O["types"] = std::move(V.D.TypeTable);
    O["errors"] = C.getDiagnostics().hasErrorOccurred();
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    OS << Value(std::move(O)) << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  static std::string Out;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 StringRef) override {
    return std::make_unique<Consumer>(Out);
  }
};
std::string Action::Out;
} // namespace

// usage: gsx OUT.json FILE ROOT[,ROOT...] -- compile flags
int main(int argc, char **argv) {
  if (argc < 5)
    return 2;
  Action::Out = argv[1];
  std::string File = argv[2];
  {
    std::string r = argv[3];
    size_t p;
    while ((p = r.find(',')) != std::string::npos) {
      Roots.push_back(r.substr(0, p));
      r = r.substr(p + 1);
    }
    Roots.push_back(r);
  }
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i)
    Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, {File});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
