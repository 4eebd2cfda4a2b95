// tgx: dumps the resolved syntax tree of the functions, records and variables
// that are defined below given directories as JSON, for the analyses in
// /verif/tgsa. It judges nothing by itself.
//
//   tgx --root=/repo/src --root=/repo/include FILE... -- -std=c++17 -I...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using namespace clang::tooling;
namespace cl = llvm::cl;
namespace json = llvm::json;

static cl::OptionCategory Cat("tgx");
static cl::list<std::string> Roots("root", cl::desc("directory whose code is dumped"), cl::cat(Cat));

namespace {

class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  std::unique_ptr<ItaniumMangleContext> Mangler;
  std::map<const Type *, int> TypeIds;
  json::Array Types;
  std::map<const Decl *, int> VarIds;
  json::Array Funcs, Records, Globals;
  std::set<const FunctionDecl *> Done;
  std::set<const CXXRecordDecl *> DoneRec;
  std::set<const VarDecl *> DoneVar;
  std::vector<const FunctionDecl *> Pending;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), Mangler(ItaniumMangleContext::create(C, C.getDiagnostics())) {}

  // ---- locations
  std::string file(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? P.getFilename() : "";
  }
  int line(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? (int)P.getLine() : 0;
  }
  bool inRoots(SourceLocation L) {
    std::string F = file(L);
    for (auto &R : Roots)
      if (llvm::StringRef(F).starts_with(R)) return true;
    return false;
  }

  // ---- names
  static std::string scopeName(const DeclContext *DC) {
    std::string S;
    if (!DC || DC->isTranslationUnit()) return "";
    if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
      std::string P = scopeName(NS->getParent());
      if (NS->isInline()) return P;
      std::string N = NS->isAnonymousNamespace() ? "(anon)" : NS->getNameAsString();
      return P.empty() ? N : P + "::" + N;
    }
    if (auto *RD = dyn_cast<CXXRecordDecl>(DC)) return recName(RD);
    if (auto *TD = dyn_cast<TagDecl>(DC)) {
      std::string P = scopeName(TD->getParent());
      return P.empty() ? TD->getNameAsString() : P + "::" + TD->getNameAsString();
    }
    if (auto *FD = dyn_cast<FunctionDecl>(DC)) return funcName(FD);
    return scopeName(DC->getParent());
  }
  static std::string recName(const CXXRecordDecl *RD) {
    std::string P = scopeName(RD->getDeclContext());
    std::string N = RD->getNameAsString();
    if (RD->isLambda()) N = "(lambda)";
    return P.empty() ? N : P + "::" + N;
  }
  static std::string funcName(const FunctionDecl *FD) {
    std::string P = scopeName(FD->getDeclContext());
    std::string N;
    if (isa<CXXConstructorDecl>(FD)) N = "(ctor)";
    else if (isa<CXXDestructorDecl>(FD)) N = "(dtor)";
    else if (isa<CXXConversionDecl>(FD)) N = "(conv)";
    else N = FD->getNameAsString();
    return P.empty() ? N : P + "::" + N;
  }
  std::string mangled(const FunctionDecl *FD) {
    FD = FD->getCanonicalDecl();
    std::string S;
    llvm::raw_string_ostream OS(S);
    GlobalDecl GD;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) GD = GlobalDecl(CD, Ctor_Complete);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(FD)) GD = GlobalDecl(DD, Dtor_Complete);
    else GD = GlobalDecl(FD);
    if (Mangler->shouldMangleDeclName(FD)) Mangler->mangleName(GD, OS);
    else OS << FD->getNameAsString();
    OS.flush();
    // file-local functions of different files may share a name
    if (!FD->isExternallyVisible() || FD->isDependentContext()) S += "@" + file(FD->getLocation());
    auto *MD = dyn_cast<CXXMethodDecl>(FD);
    if (MD && MD->getParent()->isLambda())
      S += "@" + file(MD->getLocation()) + ":" + std::to_string(SM.getFileOffset(SM.getExpansionLoc(MD->getParent()->getLocation())));
    return S;
  }
  std::string varName(const VarDecl *VD) {
    if (VD->isLocalVarDeclOrParm() && VD->isStaticLocal()) {
      const DeclContext *DC = VD->getParentFunctionOrMethod();
      return (DC ? scopeName(DC) : std::string()) + "::" + VD->getNameAsString();
    }
    std::string P = scopeName(VD->getDeclContext());
    return P.empty() ? VD->getNameAsString() : P + "::" + VD->getNameAsString();
  }
  int varId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = VarIds.find(D);
    if (It != VarIds.end()) return It->second;
    int N = VarIds.size() + 1;
    VarIds[D] = N;
    return N;
  }

  // ---- types
  int type(QualType Q) {
    if (Q.isNull()) return -1;
    Q = C.getCanonicalType(Q);
    bool Const = Q.isConstQualified();
    // key on the qualified pointer value
    const Type *Key = reinterpret_cast<const Type *>(Q.getAsOpaquePtr());
    auto It = TypeIds.find(Key);
    if (It != TypeIds.end()) return It->second;
    int Id = Types.size();
    TypeIds[Key] = Id;
    Types.push_back(nullptr);
    json::Object O;
    const Type *T = Q.getTypePtr();
    PrintingPolicy PP(C.getLangOpts());
    PP.SuppressTagKeyword = true;
    O["s"] = Q.getAsString(PP);
    if (Const) O["const"] = true;
    if (T->isDependentType()) O["k"] = "dep";
    else if (auto *RT = dyn_cast<ReferenceType>(T)) { O["k"] = "ref"; O["to"] = type(RT->getPointeeType()); if (isa<RValueReferenceType>(T)) O["rv"] = true; }
    else if (auto *PT = dyn_cast<PointerType>(T)) { O["k"] = "ptr"; O["to"] = type(PT->getPointeeType()); }
    else if (T->isNullPtrType()) O["k"] = "nullptr";
    else if (T->isBooleanType()) O["k"] = "bool";
    else if (T->isEnumeralType()) { O["k"] = "enum"; O["bits"] = (int)C.getTypeSize(Q); O["signed"] = T->isSignedIntegerOrEnumerationType(); }
    else if (T->isIntegerType()) { O["k"] = "int"; O["bits"] = (int)C.getTypeSize(Q); O["signed"] = T->isSignedIntegerType(); if (T->isAnyCharacterType()) O["char"] = true; }
    else if (T->isFloatingType()) O["k"] = "float";
    else if (T->isVoidType()) O["k"] = "void";
    else if (auto *AT = C.getAsConstantArrayType(Q)) { O["k"] = "arr"; O["n"] = (int64_t)AT->getSize().getZExtValue(); O["of"] = type(AT->getElementType()); }
    else if (auto *RD = T->getAsCXXRecordDecl()) {
      O["k"] = "rec";
      O["name"] = recName(RD);
      if (RD->isLambda()) O["lambda"] = mangled(RD->getLambdaCallOperator());
      if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        json::Array A;
        for (auto &Arg : TS->getTemplateArgs().asArray())
          if (Arg.getKind() == TemplateArgument::Type) A.push_back(type(Arg.getAsType()));
          else if (Arg.getKind() == TemplateArgument::Pack) { for (auto &P : Arg.pack_elements()) if (P.getKind() == TemplateArgument::Type) A.push_back(type(P.getAsType())); }
          else A.push_back(-1);
        O["args"] = std::move(A);
      }
      if (RD->hasDefinition() && (inRoots(RD->getLocation()) || RD->isLambda())) record(RD->getDefinition());
    }
    else if (isa<FunctionProtoType>(T)) O["k"] = "func";
    else O["k"] = "other";
    Types[Id] = std::move(O);
    return Id;
  }

  void record(const CXXRecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD || RD->isDependentType() || !DoneRec.insert(RD).second) return;
    json::Object O;
    O["name"] = recName(RD);
    O["file"] = file(RD->getLocation());
    O["line"] = line(RD->getLocation());
    O["lambda"] = RD->isLambda();
    json::Array F;
    for (auto *FD : RD->fields()) {
      json::Object X;
      X["name"] = fieldName(FD);
      X["t"] = type(FD->getType());
      X["mutable"] = FD->isMutable();
      X["access"] = (int)FD->getAccess();
      if (FD->hasInClassInitializer() && FD->getInClassInitializer()) X["init"] = expr(FD->getInClassInitializer());
      F.push_back(std::move(X));
    }
    O["fields"] = std::move(F);
    json::Array B;
    for (auto &Base : RD->bases())
      if (auto *BD = Base.getType()->getAsCXXRecordDecl()) B.push_back(recName(BD));
    O["bases"] = std::move(B);
    json::Array M;
    for (auto *MD : RD->methods()) {
      json::Object X;
      X["name"] = funcName(MD);
      X["m"] = mangled(MD);
      X["virtual"] = MD->isVirtual();
      X["pure"] = MD->isPureVirtual();
      X["access"] = (int)MD->getAccess();
      X["implicit"] = MD->isImplicit();
      X["deleted"] = MD->isDeleted();
      X["const"] = MD->isConst();
      X["static"] = MD->isStatic();
      json::Array Ov;
      for (auto *P : MD->overridden_methods()) Ov.push_back(mangled(P));
      X["overrides"] = std::move(Ov);
      M.push_back(std::move(X));
    }
    O["methods"] = std::move(M);
    json::Array Fr;
    for (auto *FR : RD->friends()) if (auto *FD = FR->getFriendDecl()) Fr.push_back(FD->getNameAsString());
    O["friends"] = std::move(Fr);
    Records.push_back(std::move(O));
  }
  std::string fieldName(const FieldDecl *FD) {
    if (!FD->getNameAsString().empty()) return FD->getNameAsString();
    return "#" + std::to_string(FD->getFieldIndex());
  }

  json::Value var(const VarDecl *VD) {
    json::Object O;
    O["id"] = varId(VD);
    O["name"] = VD->getNameAsString();
    O["t"] = type(VD->getType());
    O["l"] = line(VD->getLocation());
    if (VD->isStaticLocal()) { O["static"] = true; O["q"] = varName(VD) + "@" + file(VD->getLocation()); }
    if (VD->getTSCSpec() != TSCS_unspecified) O["tls"] = true;
    if (VD->isConstexpr() || VD->getType().isConstQualified()) O["const"] = true;
    if (const Expr *I = VD->getInit()) O["init"] = expr(I);
    if (auto *DD = dyn_cast<DecompositionDecl>(VD)) {
      json::Array A;
      for (auto *BD : DD->bindings()) {
        json::Object X;
        X["id"] = varId(BD);
        X["name"] = BD->getNameAsString();
        X["t"] = type(BD->getType());
        if (auto *HV = BD->getHoldingVar()) X["hold"] = var(HV);
        else if (BD->getBinding()) X["bind"] = expr(BD->getBinding());
        A.push_back(std::move(X));
      }
      O["bindings"] = std::move(A);
    }
    return std::move(O);
  }

  json::Object fnRef(const FunctionDecl *FD) {
    json::Object O;
    O["q"] = funcName(FD);
    O["m"] = mangled(FD);
    if (FD->isVariadic()) O["variadic"] = true;
    if (FD->isNoReturn()) O["noreturn"] = true;
    if (auto *P = FD->getType()->getAs<FunctionProtoType>()) {
      if (P->canThrow() == CT_Cannot) O["nothrow"] = true;
      json::Array A;
      for (auto T : P->param_types()) A.push_back(type(T));
      O["pt"] = std::move(A);
      O["rt"] = type(P->getReturnType());
    }
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = recName(MD->getParent());
      if (MD->isVirtual()) O["virtual"] = true;
      if (MD->isStatic()) O["static"] = true;
      if (MD->isConst()) O["const"] = true;
    }
    // the definition, if it lies in our roots, gets dumped as well
    const FunctionDecl *Def = nullptr;
    if (FD->hasBody(Def) && Def && (inRoots(Def->getLocation()))) Pending.push_back(Def);
    else if (FD->isTemplateInstantiation() && FD->getTemplateInstantiationPattern() &&
             inRoots(FD->getTemplateInstantiationPattern()->getLocation()) && FD->hasBody(Def)) Pending.push_back(Def);
    if (FD->isDefaulted()) O["defaulted"] = true;
    return O;
  }

  // ---- expressions
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // wrappers without an effect of their own
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<GenericSelectionExpr>(E)) E = P->getResultExpr();
      else if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (!P->getSourceExpr()) break; E = P->getSourceExpr(); }
      else if (auto *P = dyn_cast<ChooseExpr>(E)) E = P->getChosenSubExpr();
      else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
          case CK_NoOp: case CK_FunctionToPointerDecay: case CK_UserDefinedConversion:
          case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
            E = P->getSubExpr(); continue;
          default: break;
        }
        break;
      } else break;
    }
    json::Object O;
    O["t"] = type(E->getType());
    O["l"] = line(E->getExprLoc());
    if (E->isGLValue()) O["lv"] = true;
    exprInto(E, O);
    // integer constant expressions that aren't literals
    if (!E->isValueDependent() && !E->isGLValue() && E->getType()->isIntegralOrEnumerationType() && !O.getString("e")->equals("int") &&
        !O.getString("e")->equals("char") && !O.getString("e")->equals("bool")) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && !R.HasSideEffects) {
        llvm::SmallString<32> S; R.Val.getInt().toString(S);
        O["cv"] = S.str().str();
      }
    }
    return std::move(O);
  }

  json::Array args(llvm::ArrayRef<const Expr *> A) {
    json::Array R;
    for (auto *E : A) R.push_back(expr(E));
    return R;
  }
  template <class It> json::Array args(It B, It E) {
    json::Array R;
    for (; B != E; ++B) R.push_back(expr(*B));
    return R;
  }

  void exprInto(const Expr *E, json::Object &O) {
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { O["e"] = "int"; llvm::SmallString<32> S; X->getValue().toString(S, 10, X->getType()->isSignedIntegerType()); O["v"] = S.str().str(); return; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["e"] = "char"; O["v"] = (int64_t)(int32_t)X->getValue(); return; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["e"] = "bool"; O["v"] = X->getValue(); return; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E) || isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["e"] = "zero"; return; }
    if (isa<FloatingLiteral>(E)) { O["e"] = "float"; return; }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      O["e"] = "str";
      json::Array B;
      for (unsigned char Ch : X->getBytes()) B.push_back((int)Ch);
      O["v"] = std::move(B);
      return;
    }
    if (isa<PredefinedExpr>(E)) { O["e"] = "predef"; return; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["e"] = "int"; llvm::SmallString<32> S; EC->getInitVal().toString(S, 10); O["v"] = S.str().str(); return; }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) { O["e"] = "fn"; O["f"] = fnRef(FD); return; }
      if (auto *BD = dyn_cast<BindingDecl>(D)) { O["e"] = "var"; O["id"] = varId(BD); O["name"] = BD->getNameAsString(); return; }
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
          O["e"] = "global"; O["q"] = varName(VD); O["file"] = file(VD->getLocation());
          if (VD->getFormalLinkage() == Linkage::Internal) O["q"] = varName(VD) + "@" + file(VD->getLocation());
          global(VD);
        } else if (VD->isStaticLocal()) { O["e"] = "global"; O["q"] = varName(VD) + "@" + file(VD->getLocation()); O["file"] = file(VD->getLocation()); global(VD); }
        else { O["e"] = "var"; O["id"] = varId(VD); O["name"] = VD->getNameAsString(); if (isa<ParmVarDecl>(VD)) O["parm"] = true; }
        return;
      }
      O["e"] = "unk"; O["cls"] = "DeclRef"; return;
    }
    if (isa<CXXThisExpr>(E)) { O["e"] = "this"; return; }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl())) { O["e"] = "global"; O["q"] = varName(VD); O["file"] = file(VD->getLocation()); global(VD); return; }
      if (auto *FD = dyn_cast<FunctionDecl>(X->getMemberDecl())) { O["e"] = "fn"; O["f"] = fnRef(FD); O["base"] = expr(X->getBase()); return; }
      O["e"] = "member"; O["b"] = expr(X->getBase()); O["arrow"] = X->isArrow();
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) { O["f"] = fieldName(FD); O["cls"] = recName(cast<CXXRecordDecl>(FD->getParent())); }
      else O["f"] = X->getMemberDecl()->getNameAsString();
      return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["e"] = "call";
      const Expr *Callee = X->getCallee()->IgnoreParens();
      if (auto *MD = X->getMethodDecl()) {
        O["f"] = fnRef(MD);
        O["obj"] = expr(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(Callee)) {
          O["arrow"] = ME->isArrow();
          if (ME->hasQualifier()) O["qualified"] = true;
        }
        O["a"] = args(X->arg_begin(), X->arg_end());
      } else { O["fp"] = expr(X->getCallee()); O["a"] = args(X->arg_begin(), X->arg_end()); }
      return;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["e"] = "call"; O["op"] = getOperatorSpelling(X->getOperator());
      auto *FD = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl());
      if (FD) {
        O["f"] = fnRef(FD);
        auto *MD = dyn_cast<CXXMethodDecl>(FD);
        if (MD && !MD->isStatic()) { O["obj"] = expr(X->getArg(0)); O["a"] = args(X->arg_begin() + 1, X->arg_end()); }
        else O["a"] = args(X->arg_begin(), X->arg_end());
      } else O["a"] = args(X->arg_begin(), X->arg_end());
      return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O["e"] = "call";
      if (auto *FD = X->getDirectCallee()) O["f"] = fnRef(FD);
      else O["fp"] = expr(X->getCallee());
      O["a"] = args(X->arg_begin(), X->arg_end());
      return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *CD = X->getConstructor();
      O["e"] = "ctor"; O["f"] = fnRef(CD);
      if (CD->isCopyConstructor()) O["kind"] = "copy";
      else if (CD->isMoveConstructor()) O["kind"] = "move";
      else if (CD->isDefaultConstructor()) O["kind"] = "default";
      if (X->isStdInitListInitialization()) O["il"] = true;
      O["a"] = args(X->arg_begin(), X->arg_end());
      return;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { (void)X; O["e"] = "unk"; O["cls"] = "InheritedCtor"; return; }
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { O["e"] = "mat"; O["x"] = expr(X->getSubExpr()); return; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      O["e"] = "cast"; O["c"] = X->getCastKindName(); O["x"] = expr(X->getSubExpr());
      if (isa<CXXConstCastExpr>(E)) O["constcast"] = true;
      if (isa<CXXReinterpretCastExpr>(E)) O["reinterpret"] = true;
      if (isa<ExplicitCastExpr>(E)) {
        O["explicit"] = true;
        if (isa<CStyleCastExpr>(E)) {
          QualType F = X->getSubExpr()->getType(), T = E->getType();
          if (F->isPointerType() && T->isPointerType() && F->getPointeeType().isConstQualified() && !T->getPointeeType().isConstQualified()) O["constcast"] = true;
        }
      }
      return;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { O["e"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"] = X->isPostfix(); O["x"] = expr(X->getSubExpr()); return; }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { O["e"] = "opassign"; std::string S = X->getOpcodeStr().str(); S.pop_back(); O["op"] = S; O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS()); O["ct"] = type(X->getComputationResultType()); return; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->getOpcode() == BO_Assign) { O["e"] = "assign"; O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS()); return; }
      O["e"] = "bin"; O["op"] = X->getOpcodeStr().str(); O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS()); return;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) { O["e"] = "cond"; O["c"] = expr(X->getCond()); O["x"] = expr(X->getTrueExpr()); O["y"] = expr(X->getFalseExpr()); return; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["e"] = "index"; O["x"] = expr(X->getBase()); O["i"] = expr(X->getIdx()); return; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      O["e"] = "initlist";
      json::Array A;
      for (auto *I : S->inits()) A.push_back(expr(I));
      O["a"] = std::move(A);
      if (auto *RD = S->getType()->getAsCXXRecordDecl()) {
        json::Array F;
        for (auto *FD : RD->fields()) F.push_back(fieldName(FD));
        O["fields"] = std::move(F);
      }
      if (S->hasArrayFiller()) O["filler"] = expr(S->getArrayFiller());
      return;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["e"] = "lambda"; O["m"] = mangled(X->getCallOperator());
      Pending.push_back(X->getCallOperator());
      json::Array A;
      auto FI = X->getLambdaClass()->field_begin();
      auto CI = X->capture_init_begin();
      for (auto &Cap : X->captures()) {
        json::Object Y;
        Y["field"] = fieldName(*FI);
        Y["byref"] = Cap.getCaptureKind() == LCK_ByRef;
        Y["this"] = Cap.capturesThis();
        if (Cap.capturesVariable()) { Y["id"] = varId(Cap.getCapturedVar()); Y["name"] = Cap.getCapturedVar()->getNameAsString(); }
        Y["init"] = expr(*CI);
        A.push_back(std::move(Y));
        ++FI; ++CI;
      }
      O["caps"] = std::move(A);
      return;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["e"] = "throw"; if (X->getSubExpr()) { O["x"] = expr(X->getSubExpr()); } return; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { O["e"] = "new"; O["of"] = type(X->getAllocatedType()); O["array"] = X->isArray(); if (X->getInitializer()) O["init"] = expr(X->getInitializer()); else if (X->getConstructExpr()) O["init"] = expr(X->getConstructExpr()); return; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["e"] = "delete"; O["array"] = X->isArrayForm(); O["x"] = expr(X->getArgument()); return; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { O["e"] = "sizeof"; (void)X; return; }
    if (auto *X = dyn_cast<StmtExpr>(E)) { (void)X; O["e"] = "unk"; O["cls"] = "StmtExpr"; return; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { (void)X; O["e"] = "unk"; O["cls"] = "ArrayInitLoop"; return; }
    O["e"] = "unk"; O["cls"] = E->getStmtClassName();
    json::Array K;
    for (auto *S : E->children()) if (auto *CE = dyn_cast_or_null<Expr>(S)) K.push_back(expr(CE));
    O["kids"] = std::move(K);
  }

  // ---- statements
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object O;
    O["l"] = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) { O["s"] = "expr"; O["x"] = expr(E); return std::move(O); }
    if (auto *X = dyn_cast<CompoundStmt>(S)) { O["s"] = "block"; json::Array A; for (auto *K : X->body()) A.push_back(stmt(K)); O["b"] = std::move(A); return std::move(O); }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["s"] = "decl"; json::Array A;
      for (auto *D : X->decls()) if (auto *VD = dyn_cast<VarDecl>(D)) { A.push_back(var(VD)); if (VD->isStaticLocal()) global(VD); }
      O["v"] = std::move(A); return std::move(O);
    }
    if (auto *X = dyn_cast<IfStmt>(S)) { O["s"] = "if"; if (X->getInit()) O["init"] = stmt(X->getInit()); if (X->getConditionVariableDeclStmt()) O["cv"] = stmt(X->getConditionVariableDeclStmt()); if (X->isConstexpr()) O["constexpr"] = true; O["c"] = expr(X->getCond()); O["x"] = stmt(X->getThen()); O["y"] = stmt(X->getElse()); return std::move(O); }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O["s"] = "while"; if (X->getConditionVariableDeclStmt()) O["cv"] = stmt(X->getConditionVariableDeclStmt()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["s"] = "do"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<ForStmt>(S)) { O["s"] = "for"; O["init"] = stmt(X->getInit()); if (X->getConditionVariableDeclStmt()) O["cv"] = stmt(X->getConditionVariableDeclStmt()); O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["s"] = "rfor"; if (X->getInit()) O["init"] = stmt(X->getInit());
      O["range"] = stmt(X->getRangeStmt()); O["begin"] = stmt(X->getBeginStmt()); O["end"] = stmt(X->getEndStmt());
      O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["var"] = stmt(X->getLoopVarStmt()); O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O["s"] = "switch"; if (X->getInit()) O["init"] = stmt(X->getInit()); if (X->getConditionVariableDeclStmt()) O["cv"] = stmt(X->getConditionVariableDeclStmt()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<CaseStmt>(S)) { O["s"] = "case"; O["v"] = expr(X->getLHS()); if (X->getRHS()) O["hi"] = expr(X->getRHS()); O["b"] = stmt(X->getSubStmt()); return std::move(O); }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["s"] = "default"; O["b"] = stmt(X->getSubStmt()); return std::move(O); }
    if (isa<BreakStmt>(S)) { O["s"] = "break"; return std::move(O); }
    if (isa<ContinueStmt>(S)) { O["s"] = "continue"; return std::move(O); }
    if (auto *X = dyn_cast<GotoStmt>(S)) { O["s"] = "goto"; O["label"] = X->getLabel()->getNameAsString(); return std::move(O); }
    if (auto *X = dyn_cast<LabelStmt>(S)) { O["s"] = "label"; O["label"] = X->getDecl()->getNameAsString(); O["b"] = stmt(X->getSubStmt()); return std::move(O); }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["s"] = "return"; O["x"] = expr(X->getRetValue()); return std::move(O); }
    if (isa<NullStmt>(S)) { O["s"] = "null"; return std::move(O); }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["s"] = "try"; O["b"] = stmt(X->getTryBlock()); json::Array A;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        auto *H = X->getHandler(I); json::Object Y;
        Y["l"] = line(H->getBeginLoc());
        if (H->getExceptionDecl()) { Y["v"] = var(H->getExceptionDecl()); Y["t"] = type(H->getCaughtType()); }
        Y["b"] = stmt(H->getHandlerBlock()); A.push_back(std::move(Y));
      }
      O["h"] = std::move(A); return std::move(O);
    }
    O["s"] = "unk"; O["cls"] = S->getStmtClassName();
    return std::move(O);
  }

  void global(const VarDecl *VD) {
    const VarDecl *Def = VD->isStaticLocal() ? VD : VD->getDefinition();
    if (!Def) Def = VD;
    if (!inRoots(Def->getLocation()) || !DoneVar.insert(Def).second) return;
    json::Object O;
    bool Local = Def->isStaticLocal() || Def->getFormalLinkage() == Linkage::Internal;
    O["q"] = varName(Def) + (Local ? "@" + file(Def->getLocation()) : "");
    O["name"] = Def->getNameAsString();
    O["t"] = type(Def->getType());
    O["file"] = file(Def->getLocation());
    O["l"] = line(Def->getLocation());
    O["staticlocal"] = Def->isStaticLocal();
    O["tls"] = Def->getTSCSpec() != TSCS_unspecified;
    O["const"] = Def->getType().isConstQualified() || Def->isConstexpr() ||
      (C.getAsArrayType(Def->getType()) && C.getBaseElementType(Def->getType()).isConstQualified());
    O["def"] = Def->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    const VarDecl *ID = nullptr;
    if (const Expr *I = Def->getAnyInitializer(ID)) O["init"] = expr(I);
    Globals.push_back(std::move(O));
  }

  void function(const FunctionDecl *FD) {
    const FunctionDecl *Def = nullptr;
    if (!FD->hasBody(Def) || !Def || Def->isDependentContext()) return;
    if (!Done.insert(Def).second) return;
    json::Object O = fnRef(Def);
    O["file"] = file(Def->getLocation());
    O["line"] = line(Def->getLocation());
    O["endline"] = line(Def->getEndLoc());
    O["implicit"] = Def->isImplicit();
    O["access"] = (int)Def->getAccess();
    O["external"] = Def->isExternallyVisible();
    auto *MD = dyn_cast<CXXMethodDecl>(Def);
    if (MD && MD->getParent()->isLambda()) O["lambda"] = true;
    if (MD) { type(C.getRecordType(MD->getParent())); record(MD->getParent()); }
    json::Array P;
    for (auto *V : Def->parameters()) P.push_back(var(V));
    O["params"] = std::move(P);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(Def)) {
      json::Array I;
      for (auto *X : CD->inits()) {
        json::Object Y;
        Y["l"] = line(X->getSourceLocation());
        if (X->isAnyMemberInitializer()) Y["field"] = fieldName(X->getAnyMember());
        else if (X->isDelegatingInitializer()) Y["delegate"] = true;
        else if (X->isBaseInitializer()) Y["base"] = X->getBaseClass()->getAsCXXRecordDecl() ? recName(X->getBaseClass()->getAsCXXRecordDecl()) : "";
        Y["x"] = expr(X->getInit());
        I.push_back(std::move(Y));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = stmt(Def->getBody());
    Funcs.push_back(std::move(O));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (FD->isThisDeclarationADefinition() && D.inRoots(FD->getLocation())) D.function(FD);
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (VD->hasGlobalStorage() && D.inRoots(VD->getLocation()) && !VD->getDeclContext()->isDependentContext()) D.global(VD);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (RD->isThisDeclarationADefinition() && D.inRoots(RD->getLocation())) D.record(RD);
    return true;
  }
};

json::Array Units;

class Consumer : public ASTConsumer {
public:
  std::string File;
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.Pending.empty()) { auto *F = D.Pending.back(); D.Pending.pop_back(); D.function(F); }
    json::Object O;
    O["file"] = File;
    O["errors"] = C.getDiagnostics().hasErrorOccurred();
    O["types"] = std::move(D.Types);
    O["functions"] = std::move(D.Funcs);
    O["records"] = std::move(D.Records);
    O["globals"] = std::move(D.Globals);
    Units.push_back(std::move(O));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef F) override {
    auto X = std::make_unique<Consumer>();
    X->File = F.str();
    return X;
  }
};

} // namespace

int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()) << "\n"; return 2; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  int R = T.run(newFrontendActionFactory<Action>().get());
  llvm::outs() << json::Value(std::move(Units)) << "\n";
  return R;
}
