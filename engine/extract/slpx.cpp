// slpx: dumps the type-resolved, template-instantiated bodies of the functions
// defined under given path prefixes as JSON (one object per line).
//
// usage: slpx OUT.jsonl PREFIX[,PREFIX...] file.cpp -- <compiler flags>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string OutPath;
static std::vector<std::string> Prefixes;

namespace {

struct Dumper {
  ASTContext& Ctx;
  const SourceManager& SM;
  PrintingPolicy PP;
  std::ofstream OS;
  std::map<const void*, int> Ids;
  std::set<const FunctionDecl*> Emitted;
  std::vector<const FunctionDecl*> Pending;
  std::set<const CXXRecordDecl*> Records;
  std::vector<const CXXRecordDecl*> RecPending;
  std::map<std::string, int> FileIds;
  std::map<std::string, int> TypeIds;
  std::map<const Type*, int> TypeCache;

  explicit Dumper(ASTContext& C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), OS(OutPath) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.TerseOutput = true;
  }

  int id(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }

  void line(json::Object O) {
    std::string s;
    llvm::raw_string_ostream ss(s);
    ss << json::Value(std::move(O));
    OS << ss.str() << "\n";
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::StringRef real = F->getFileEntry().tryGetRealPathName();
    return real.empty() ? F->getName().str() : real.str();
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  bool inScope(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto& p : Prefixes)
      if (f.rfind(p, 0) == 0) return true;
    return false;
  }

  std::string typeStr(QualType T) {
    return T.getCanonicalType().getAsString(PP);
  }

  json::Value tcls(QualType T0) {
    QualType T = T0.getCanonicalType();
    json::Object o;
    if (auto* R = T->getAs<ReferenceType>()) {
      o["ref"] = T->isLValueReferenceType() ? 1 : 2;
      T = R->getPointeeType().getCanonicalType();
    }
    if (T.isConstQualified()) o["const"] = 1;
    T = T.getUnqualifiedType();
    o["s"] = T.getAsString(PP);
    if (T->isPointerType()) {
      o["c"] = "ptr";
      QualType P = T->getPointeeType();
      if (P.isConstQualified()) o["pc"] = 1;
      if (auto* RD = P->getAsCXXRecordDecl()) {
        o["rec"] = id(RD);
        noteRecord(RD);
      }
    } else if (T->isBooleanType()) {
      o["c"] = "bool";
    } else if (T->isEnumeralType()) {
      o["c"] = "enum";
    } else if (T->isIntegerType()) {
      o["c"] = T->isUnsignedIntegerType() ? "uint" : "int";
      o["w"] = (int)Ctx.getTypeSize(T);
    } else if (T->isFloatingType()) {
      o["c"] = "float";
    } else if (T->isVoidType()) {
      o["c"] = "void";
    } else if (T->isNullPtrType()) {
      o["c"] = "nullptr";
    } else if (auto* RD = T->getAsCXXRecordDecl()) {
      o["c"] = "rec";
      o["rec"] = id(RD);
      noteRecord(RD);
    } else if (T->isArrayType()) {
      o["c"] = "arr";
    } else if (T->isFunctionType()) {
      o["c"] = "fn";
    } else {
      o["c"] = "other";
    }
    return json::Value(std::move(o));
  }

  int ty(QualType T) {
    QualType C = T.getCanonicalType();
    std::string key = C.getAsString(PP);
    auto it = TypeIds.find(key);
    if (it != TypeIds.end()) return it->second;
    int n = (int)TypeIds.size() + 1;
    TypeIds[key] = n;
    json::Value v = tcls(T);
    json::Object o = std::move(*v.getAsObject());
    o["K"] = "type";
    o["id"] = n;
    line(std::move(o));
    return n;
  }

  void noteRecord(const CXXRecordDecl* RD) {
    RD = cast<CXXRecordDecl>(RD->getCanonicalDecl());
    if (Records.insert(RD).second) RecPending.push_back(RD);
  }

  std::string qname(const NamedDecl* D, bool targs) {
    std::string s;
    llvm::raw_string_ostream ss(s);
    D->getNameForDiagnostic(ss, PP, true);
    std::string r = ss.str();
    (void)targs;
    return r;
  }
  std::string plainName(const NamedDecl* D) {
    std::string s = D->getQualifiedNameAsString();
    return s;
  }

  int file(const std::string& f) {
    auto it = FileIds.find(f);
    if (it != FileIds.end()) return it->second;
    int n = (int)FileIds.size() + 1;
    FileIds[f] = n;
    line(json::Object{{"K", "file"}, {"id", n}, {"path", f}});
    return n;
  }

  json::Value none() { return json::Value(nullptr); }

  // ---- functions
  void noteFn(const FunctionDecl* FD) {
    if (!FD) return;
    const FunctionDecl* Def = nullptr;
    if (!FD->hasBody(Def)) {
      if (!FD->isDefaulted()) return;
      Def = FD;
    }
    if (Def->isDependentContext()) return;
    if (!inScope(Def->getLocation())) return;
    if (Emitted.insert(Def->getCanonicalDecl()).second) Pending.push_back(Def);
  }

  json::Object fnRef(const FunctionDecl* FD) {
    json::Object o;
    o["id"] = id(FD);
    o["n"] = FD->getNameAsString();
    o["q"] = plainName(FD);
    const FunctionDecl* P = FD->getTemplateInstantiationPattern();
    if (auto* TA = FD->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& A : TA->asArray()) a.push_back(targ(A));
      o["ta"] = std::move(a);
    }
    (void)P;
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isConst()) o["const"] = 1;
      if (M->isStatic()) o["static"] = 1;
      o["cls"] = id(M->getParent());
      noteRecord(M->getParent());
    }
    if (FD->isVariadic()) o["variadic"] = 1;
    json::Array ps;
    for (auto* p : FD->parameters()) ps.push_back(ty(p->getType()));
    o["pt"] = std::move(ps);
    o["rt"] = ty(FD->getReturnType());
    if (inScope(FD->getLocation())) o["in"] = 1;
    if (FD->isDeleted()) o["deleted"] = 1;
    if (FD->isDefaulted()) o["defaulted"] = 1;
    noteFn(FD);
    return o;
  }

  std::string targ(const TemplateArgument& A) {
    std::string s;
    llvm::raw_string_ostream ss(s);
    A.print(PP, ss, true);
    return ss.str();
  }

  json::Value valueOf(const APValue& V, QualType T) {
    if (V.isInt()) {
      llvm::SmallString<40> s;
      V.getInt().toString(s, 10);
      return json::Object{{"i", std::string(s.str())}};
    }
    if (V.isFloat()) {
      llvm::SmallString<40> s;
      V.getFloat().toString(s, 0, 0);
      // shortest round-trip via double
      double d;
      bool lose;
      llvm::APFloat f = V.getFloat();
      f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
      d = f.convertToDouble();
      char buf[64];
      snprintf(buf, sizeof buf, "%.17g", d);
      for (int p = 1; p <= 17; ++p) {
        snprintf(buf, sizeof buf, "%.*g", p, d);
        if (strtod(buf, nullptr) == d) break;
      }
      return json::Object{{"f", std::string(buf)}};
    }
    return none();
  }

  json::Object E0(const char* k, const Stmt* S) {
    json::Object o;
    o["k"] = k;
    o["l"] = (int)lineOf(S->getBeginLoc());
    return o;
  }

  json::Value expr(const Expr* E) {
    if (!E) return none();
    // transparent
    if (auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      auto o = E0("mat", E);
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) {
      auto o = E0("defarg", E);
      o["e"] = expr(X->getExpr());
      return o;
    }
    if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto* X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<GenericSelectionExpr>(E)) return expr(X->getResultExpr());
    if (auto* X = dyn_cast<ChooseExpr>(E)) return expr(X->getChosenSubExpr());
    if (auto* X = dyn_cast<PredefinedExpr>(E)) return expr(X->getFunctionName());

    if (auto* X = dyn_cast<CastExpr>(E)) {
      CastKind CK = X->getCastKind();
      switch (CK) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
        case CK_LValueBitCast:
          if (CK == CK_LValueToRValue) {
            auto o = E0("ld", E);
            o["e"] = expr(X->getSubExpr());
            o["t"] = ty(E->getType());
            return o;
          }
          return expr(X->getSubExpr());
        default: break;
      }
      auto o = E0("cast", E);
      o["ck"] = X->getCastKindName();
      o["t"] = ty(E->getType());
      if (isa<ExplicitCastExpr>(X)) o["x"] = 1;
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<IntegerLiteral>(E)) {
      auto o = E0("int", E);
      llvm::SmallString<40> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto* X = dyn_cast<FloatingLiteral>(E)) {
      auto o = E0("flt", E);
      o["v"] = valueOf(APValue(X->getValue()), X->getType());
      return o;
    }
    if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      auto o = E0("bool", E);
      o["v"] = X->getValue();
      return o;
    }
    if (auto* X = dyn_cast<CharacterLiteral>(E)) {
      auto o = E0("int", E);
      o["v"] = std::to_string(X->getValue());
      return o;
    }
    if (auto* X = dyn_cast<StringLiteral>(E)) {
      auto o = E0("str", E);
      std::string s = X->getCharByteWidth() == 1 ? X->getString().str() : "<wide>";
      o["v"] = json::fixUTF8(s);
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return E0("null", E);
    if (isa<CXXThisExpr>(E)) {
      auto o = E0("this", E);
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto* X = dyn_cast<DeclRefExpr>(E)) return declRef(X->getDecl(), X);
    if (auto* X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl* D = X->getMemberDecl();
      if (auto* FD = dyn_cast<FieldDecl>(D)) {
        auto o = E0("mem", E);
        o["b"] = expr(X->getBase());
        if (X->isArrow()) o["arrow"] = 1;
        o["n"] = FD->getNameAsString();
        o["f"] = id(FD);
        o["t"] = ty(FD->getType());
        if (auto* RD = dyn_cast<CXXRecordDecl>(FD->getParent())) {
          noteRecord(RD);
          o["r"] = id(RD);
          o["rq"] = plainName(RD);
        }
        return o;
      }
      if (auto* MD = dyn_cast<CXXMethodDecl>(D)) {
        auto o = E0("memfn", E);
        o["b"] = expr(X->getBase());
        if (X->isArrow()) o["arrow"] = 1;
        if (X->hasQualifier()) o["nonvirt"] = 1;
        o["fn"] = fnRef(MD);
        return o;
      }
      return declRef(D, E);
    }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) return call(X);
    if (auto* X = dyn_cast<CallExpr>(E)) return call(X);
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      auto o = E0("ctor", E);
      auto* C = X->getConstructor();
      o["fn"] = fnRef(C);
      o["t"] = ty(X->getType());
      if (C->isCopyConstructor()) o["copy"] = 1;
      if (C->isMoveConstructor()) o["move"] = 1;
      if (X->isListInitialization()) o["list"] = 1;
      if (X->isStdInitListInitialization()) o["ilist"] = 1;
      if (C->isImplicit() || C->isDefaulted()) o["implicit"] = 1;
      if (C->isTrivial()) o["trivial"] = 1;
      if (X->requiresZeroInitialization()) o["zero"] = 1;
      if (isa<CXXTemporaryObjectExpr>(X)) o["tmp"] = 1;
      json::Array a;
      for (auto* A : X->arguments()) a.push_back(expr(A));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      auto o = E0("ctor", E);
      o["fn"] = fnRef(X->getConstructor());
      o["t"] = ty(X->getType());
      o["inherited"] = 1;
      return o;
    }
    if (auto* X = dyn_cast<UnaryOperator>(E)) {
      auto o = E0("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "p" : "");
      o["e"] = expr(X->getSubExpr());
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto* X = dyn_cast<CompoundAssignOperator>(E)) {
      auto o = E0("casgn", E);
      o["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).drop_back(1).str();
      o["L"] = expr(X->getLHS());
      o["R"] = expr(X->getRHS());
      o["t"] = ty(E->getType());
      o["ct"] = ty(X->getComputationResultType());
      return o;
    }
    if (auto* X = dyn_cast<BinaryOperator>(E)) {
      auto o = E0(X->getOpcode() == BO_Assign ? "asgn" : "bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["L"] = expr(X->getLHS());
      o["R"] = expr(X->getRHS());
      o["t"] = ty(E->getType());
      o["lt"] = ty(X->getLHS()->getType());
      return o;
    }
    if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
      auto o = E0("cond", E);
      o["c"] = expr(X->getCond());
      o["T"] = expr(X->getTrueExpr());
      o["F"] = expr(X->getFalseExpr());
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = E0("idx", E);
      o["b"] = expr(X->getBase());
      o["i"] = expr(X->getIdx());
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto* X = dyn_cast<InitListExpr>(E)) {
      if (auto* Sm = X->getSemanticForm()) X = Sm;
      auto o = E0("ilist", E);
      o["t"] = ty(X->getType());
      json::Array a;
      for (auto* I : X->inits()) a.push_back(expr(I));
      o["a"] = std::move(a);
      if (X->hasArrayFiller()) {
        o["fill"] = expr(X->getArrayFiller());
        if (auto* CA = Ctx.getAsConstantArrayType(X->getType()))
          o["n"] = (int64_t)CA->getSize().getZExtValue();
      }
      return o;
    }
    if (auto* X = dyn_cast<CXXParenListInitExpr>(E)) {
      auto o = E0("ilist", E);
      o["t"] = ty(X->getType());
      json::Array a;
      for (auto* I : X->getInitExprs()) a.push_back(expr(I));
      o["a"] = std::move(a);
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      auto o = E0("zero", E);
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto* X = dyn_cast<LambdaExpr>(E)) {
      auto o = E0("lambda", E);
      const CXXRecordDecl* C = X->getLambdaClass();
      o["cls"] = id(C);
      json::Array caps;
      auto initIt = X->capture_init_begin();
      for (auto& cap : X->captures()) {
        json::Object c;
        if (cap.capturesThis()) {
          c["this"] = cap.getCaptureKind() == LCK_StarThis ? 2 : 1;
        } else if (cap.capturesVariable()) {
          auto* V = cap.getCapturedVar();
          c["v"] = id(V);
          c["n"] = V->getNameAsString();
          if (cap.getCaptureKind() == LCK_ByRef) c["ref"] = 1;
          if (auto* VD = dyn_cast<VarDecl>(V); VD && VD->isInitCapture()) c["ic"] = 1;
        }
        if (initIt != X->capture_init_end() && *initIt) c["e"] = expr(*initIt);
        ++initIt;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      json::Array ops;
      if (auto* FT = X->getDependentCallOperator()) {
        for (auto* S : FT->specializations()) {
          noteFn(S);
          ops.push_back(id(S));
        }
      } else if (auto* Op = X->getCallOperator()) {
        noteFn(Op);
        ops.push_back(id(Op));
      }
      o["ops"] = std::move(ops);
      return o;
    }
    if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      auto o = E0("new", E);
      o["at"] = ty(X->getAllocatedType());
      if (X->getOperatorNew()) o["fn"] = fnRef(X->getOperatorNew());
      o["init"] = expr(X->getInitializer());
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      json::Array a;
      for (auto* A : X->placement_arguments()) a.push_back(expr(A));
      o["pl"] = std::move(a);
      return o;
    }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      auto o = E0("delete", E);
      o["e"] = expr(X->getArgument());
      return o;
    }
    if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
      auto o = E0("throw", E);
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<CXXPseudoDestructorExpr>(E)) {
      auto o = E0("pdtor", E);
      o["e"] = expr(X->getBase());
      return o;
    }
    // constant evaluatable leftovers: sizeof, traits, requires, concepts
    if (!E->isValueDependent() && !E->isTypeDependent()) {
      Expr::EvalResult R;
      if (E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsRValue(R, Ctx) && R.Val.isInt()) {
        if (E->getType()->isBooleanType()) {
          auto o = E0("bool", E);
          o["v"] = R.Val.getInt().getBoolValue();
          return o;
        }
        auto o = E0("int", E);
        llvm::SmallString<40> s;
        R.Val.getInt().toString(s, 10);
        o["v"] = std::string(s.str());
        if (isa<UnaryExprOrTypeTraitExpr>(E)) {
          auto* U = cast<UnaryExprOrTypeTraitExpr>(E);
          o["trait"] = U->getKind() == UETT_SizeOf ? "sizeof" : "alignof";
          o["tt"] = ty(U->getTypeOfArgument());
        }
        return o;
      }
    }
    auto o = E0("unknown", E);
    o["cls"] = E->getStmtClassName();
    return o;
  }

  json::Value declRef(const ValueDecl* D, const Expr* E) {
    auto o = E0("ref", E);
    o["d"] = id(D);
    o["n"] = D->getNameAsString();
    if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
      o["k"] = "enum";
      llvm::SmallString<40> s;
      EC->getInitVal().toString(s, 10);
      o["v"] = std::string(s.str());
      o["q"] = plainName(EC);
      o["t"] = ty(EC->getType());
      return o;
    }
    if (auto* FD = dyn_cast<FunctionDecl>(D)) {
      o["k"] = "fnref";
      o["fn"] = fnRef(FD);
      return o;
    }
    if (auto* BD = dyn_cast<BindingDecl>(D)) {
      o["k"] = "bind";
      o["t"] = ty(BD->getType());
      return o;
    }
    o["t"] = ty(D->getType());
    if (auto* VD = dyn_cast<VarDecl>(D)) {
      if (isa<ParmVarDecl>(VD)) o["vk"] = "param";
      else if (VD->hasLocalStorage()) o["vk"] = "local";
      else {
        o["vk"] = "global";
        o["q"] = plainName(VD);
        noteVar(VD);
      }
      if ((VD->isConstexpr() || (VD->getType().isConstQualified() && !VD->hasLocalStorage())) && !VD->getType()->isDependentType() && !VD->getType()->isReferenceType()) {
        const VarDecl* Def = nullptr;
        if (VD->getAnyInitializer(Def) && Def && !Def->getInit()->isValueDependent()) {
          if (const APValue* V = Def->evaluateValue()) {
            auto vv = valueOf(*V, VD->getType());
            if (!(vv == none())) o["cv"] = std::move(vv);
          }
        }
      }
    }
    return o;
  }

  std::set<const VarDecl*> Vars;
  void noteVar(const VarDecl* VD) {
    VD = VD->getCanonicalDecl();
    if (!Vars.insert(VD).second) return;
    if (!inScope(VD->getLocation())) return;
    json::Object o;
    o["K"] = "var";
    o["id"] = id(VD);
    o["n"] = VD->getNameAsString();
    o["q"] = plainName(VD);
    o["file"] = file(fileOf(VD->getLocation()));
    o["l"] = (int)lineOf(VD->getLocation());
    o["t"] = ty(VD->getType());
    if (VD->isConstexpr()) o["constexpr"] = 1;
    if (VD->getType().isConstQualified()) o["const"] = 1;
    if (VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
    if (VD->isStaticLocal()) o["slocal"] = 1;
    line(std::move(o));
  }

  json::Value call(const CallExpr* X) {
    auto o = E0("call", X);
    o["t"] = ty(X->getType());
    if (X->isLValue()) o["lv"] = 1;
    const Decl* CD = X->getCalleeDecl();
    const FunctionDecl* FD = dyn_cast_or_null<FunctionDecl>(CD);
    const Expr* Callee = X->getCallee()->IgnoreParenImpCasts();
    json::Array args;
    unsigned first = 0;
    if (auto* OC = dyn_cast<CXXOperatorCallExpr>(X)) {
      o["oper"] = getOperatorSpelling(OC->getOperator());
      if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
        o["obj"] = expr(X->getArg(0));
        first = 1;
      } else if (FD && isa<CXXMethodDecl>(FD)) {
        first = 1;
      }
    } else if (auto* MC = dyn_cast<CXXMemberCallExpr>(X)) {
      if (auto* ME = dyn_cast<MemberExpr>(Callee)) {
        o["obj"] = expr(ME->getBase());
        if (ME->isArrow()) o["arrow"] = 1;
        if (ME->hasQualifier()) o["nonvirt"] = 1;
      }
      (void)MC;
    }
    if (FD) {
      o["fn"] = fnRef(FD);
    } else {
      o["ce"] = expr(Callee);
    }
    for (unsigned i = first; i < X->getNumArgs(); ++i) args.push_back(expr(X->getArg(i)));
    o["a"] = std::move(args);
    return o;
  }

  json::Value varDecl(const VarDecl* VD) {
    json::Object o;
    o["d"] = id(VD);
    o["n"] = VD->getNameAsString();
    o["t"] = ty(VD->getType());
    o["l"] = (int)lineOf(VD->getLocation());
    if (VD->isStaticLocal()) { o["static"] = 1; noteVar(VD); }
    if (VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
    if (VD->isConstexpr()) o["constexpr"] = 1;
    if (VD->hasInit()) o["init"] = expr(VD->getInit());
    if (auto* DD = dyn_cast<DecompositionDecl>(VD)) {
      json::Array b;
      for (auto* B : DD->bindings()) {
        json::Object bo;
        bo["d"] = id(B);
        bo["n"] = B->getNameAsString();
        bo["t"] = ty(B->getType());
        if (auto* HV = B->getHoldingVar()) {
          bo["hv"] = id(HV);
          if (HV->hasInit()) bo["init"] = expr(HV->getInit());
        } else if (B->getBinding()) {
          bo["e"] = expr(B->getBinding());
        }
        b.push_back(std::move(bo));
      }
      o["binds"] = std::move(b);
    }
    return o;
  }

  json::Value stmt(const Stmt* S) {
    if (!S) return none();
    if (auto* E = dyn_cast<Expr>(S)) {
      auto o = E0("expr", S);
      o["e"] = expr(E);
      return o;
    }
    if (auto* C = dyn_cast<CompoundStmt>(S)) {
      auto o = E0("block", S);
      json::Array a;
      for (auto* B : C->body()) a.push_back(stmt(B));
      o["b"] = std::move(a);
      return o;
    }
    if (auto* D = dyn_cast<DeclStmt>(S)) {
      auto o = E0("decl", S);
      json::Array a;
      for (auto* DD : D->decls())
        if (auto* V = dyn_cast<VarDecl>(DD)) a.push_back(varDecl(V));
      o["v"] = std::move(a);
      return o;
    }
    if (auto* I = dyn_cast<IfStmt>(S)) {
      auto o = E0("if", S);
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (auto* V = I->getConditionVariable()) o["cv"] = varDecl(V);
      if (I->isConsteval()) {
        o["k"] = "block";
        json::Array a;
        a.push_back(stmt(I->isNonNegatedConsteval() ? I->getElse() : I->getThen()));
        o["b"] = std::move(a);
        return o;
      }
      if (I->isConstexpr()) {
        o["cx"] = 1;
        Expr::EvalResult R;
        if (!I->getCond()->isValueDependent() && I->getCond()->EvaluateAsRValue(R, Ctx) && R.Val.isInt()) {
          bool v = R.Val.getInt().getBoolValue();
          o["k"] = "block";
          json::Array a;
          if (I->getInit()) a.push_back(stmt(I->getInit()));
          const Stmt* T = v ? I->getThen() : I->getElse();
          if (T) a.push_back(stmt(T));
          o["b"] = std::move(a);
          o.erase("init");
          return o;
        }
      }
      o["c"] = expr(I->getCond());
      o["T"] = stmt(I->getThen());
      o["F"] = stmt(I->getElse());
      return o;
    }
    if (auto* W = dyn_cast<WhileStmt>(S)) {
      auto o = E0("while", S);
      if (auto* V = W->getConditionVariable()) o["cv"] = varDecl(V);
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (auto* W = dyn_cast<DoStmt>(S)) {
      auto o = E0("do", S);
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (auto* F = dyn_cast<ForStmt>(S)) {
      auto o = E0("for", S);
      o["init"] = stmt(F->getInit());
      if (auto* V = F->getConditionVariable()) o["cv"] = varDecl(V);
      o["c"] = expr(F->getCond());
      o["inc"] = expr(F->getInc());
      o["b"] = stmt(F->getBody());
      return o;
    }
    if (auto* R = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = E0("rfor", S);
      if (R->getInit()) o["init"] = stmt(R->getInit());
      o["v"] = varDecl(R->getLoopVariable());
      o["r"] = expr(R->getRangeInit());
      o["rt"] = ty(R->getRangeInit()->getType());
      o["b"] = stmt(R->getBody());
      return o;
    }
    if (auto* W = dyn_cast<SwitchStmt>(S)) {
      auto o = E0("switch", S);
      if (W->getInit()) o["init"] = stmt(W->getInit());
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return o;
    }
    if (auto* C = dyn_cast<CaseStmt>(S)) {
      auto o = E0("case", S);
      o["v"] = expr(C->getLHS());
      o["b"] = stmt(C->getSubStmt());
      return o;
    }
    if (auto* C = dyn_cast<DefaultStmt>(S)) {
      auto o = E0("default", S);
      o["b"] = stmt(C->getSubStmt());
      return o;
    }
    if (auto* R = dyn_cast<ReturnStmt>(S)) {
      auto o = E0("ret", S);
      o["e"] = expr(R->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S)) return E0("break", S);
    if (isa<ContinueStmt>(S)) return E0("continue", S);
    if (isa<NullStmt>(S)) return E0("null", S);
    if (auto* A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto* T = dyn_cast<CXXTryStmt>(S)) {
      auto o = E0("try", S);
      o["b"] = stmt(T->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) a.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(a);
      return o;
    }
    auto o = E0("unknownstmt", S);
    o["cls"] = S->getStmtClassName();
    return o;
  }

  void emitFn(const FunctionDecl* FD) {
    const FunctionDecl* Def = FD;
    FD->hasBody(Def);
    json::Object o;
    o["K"] = "fn";
    json::Object r = fnRef(Def);
    for (auto& kv : r) o[kv.first] = std::move(kv.second);
    o["dn"] = qname(Def, true);
    o["file"] = file(fileOf(Def->getLocation()));
    o["l"] = (int)lineOf(Def->getLocation());
    o["el"] = (int)lineOf(Def->getEndLoc());
    json::Array ps;
    for (auto* p : Def->parameters()) {
      json::Object po;
      po["d"] = id(p);
      po["n"] = p->getNameAsString();
      po["t"] = ty(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
        po["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto* M = dyn_cast<CXXMethodDecl>(Def)) {
      json::Array ov;
      for (auto* b : M->overridden_methods()) ov.push_back(id(b));
      o["over"] = std::move(ov);
      if (M->getParent()->isLambda()) o["lam"] = 1;
      if (M->isCopyAssignmentOperator()) o["copyassign"] = 1;
      if (M->isMoveAssignmentOperator()) o["moveassign"] = 1;
    }
    if (isa<CXXDestructorDecl>(Def)) o["dtor"] = 1;
    if (auto* C = dyn_cast<CXXConstructorDecl>(Def)) {
      o["isctor"] = 1;
      if (C->isCopyConstructor()) o["copyctor"] = 1;
      if (C->isMoveConstructor()) o["movector"] = 1;
      json::Array a;
      for (auto* I : C->inits()) {
        json::Object io;
        if (I->isMemberInitializer()) {
          io["f"] = id(I->getMember());
          io["n"] = I->getMember()->getNameAsString();
          io["t"] = ty(I->getMember()->getType());
        } else if (I->isBaseInitializer()) {
          io["base"] = ty(QualType(I->getBaseClass(), 0));
        } else if (I->isDelegatingInitializer()) {
          io["deleg"] = 1;
        }
        io["e"] = expr(I->getInit());
        a.push_back(std::move(io));
      }
      o["inits"] = std::move(a);
    }
    if (Def->isInvalidDecl()) o["invalid"] = 1;
    if (Def->doesThisDeclarationHaveABody() && !Def->isDefaulted()) o["body"] = stmt(Def->getBody());
    else if (Def->isDefaulted()) o["defaulted"] = 1;
    line(std::move(o));
  }

  void emitRec(const CXXRecordDecl* RD) {
    const CXXRecordDecl* D = RD->getDefinition();
    json::Object o;
    o["K"] = "rec";
    o["id"] = id(RD);
    o["n"] = RD->getNameAsString();
    o["q"] = plainName(RD);
    o["dn"] = qname(RD, true);
    bool in = inScope(RD->getLocation());
    if (in) o["in"] = 1;
    if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
      json::Array a;
      for (auto& A : S->getTemplateArgs().asArray()) {
        if (A.getKind() == TemplateArgument::Pack) {
          for (auto& P : A.pack_elements()) a.push_back(targ(P));
        } else a.push_back(targ(A));
      }
      o["ta"] = std::move(a);
    }
    if (RD->isLambda()) o["lam"] = 1;
    if (D && in && !D->isDependentContext() && !D->isInvalidDecl()) {
      auto& L = Ctx.getASTRecordLayout(D);
      o["sz"] = (int64_t)L.getSize().getQuantity();
      o["al"] = (int64_t)L.getAlignment().getQuantity();
    }
    if (D && !D->isDependentContext() && (in || D->isAggregate())) {
      o["file"] = file(fileOf(RD->getLocation()));
      o["l"] = (int)lineOf(RD->getLocation());
      json::Array fs;
      for (auto* F : D->fields()) {
        json::Object fo;
        fo["f"] = id(F);
        fo["n"] = F->getNameAsString();
        fo["t"] = ty(F->getType());
        if (F->isMutable()) fo["mutable"] = 1;
        if (F->getType().isDestructedType()) fo["nd"] = 1;
        if (in && F->hasInClassInitializer() && F->getInClassInitializer())
          fo["init"] = expr(F->getInClassInitializer());
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
      json::Array bs;
      for (auto& B : D->bases())
        if (auto* BR = B.getType()->getAsCXXRecordDecl()) {
          bs.push_back(id(BR));
          noteRecord(BR);
        }
      o["bases"] = std::move(bs);
      if (in) {
        json::Array ms;
        for (auto* M : D->methods()) {
          ms.push_back(id(M));
          if (!M->isDependentContext()) noteFn(M);
        }
        o["methods"] = std::move(ms);
        if (D->isAbstract()) o["abstract"] = 1;
      }
    }
    line(std::move(o));
  }

  void emitEnum(const EnumDecl* ED) {
    json::Object o;
    o["K"] = "enum";
    o["id"] = id(ED);
    o["q"] = plainName(ED);
    o["file"] = file(fileOf(ED->getLocation()));
    o["l"] = (int)lineOf(ED->getLocation());
    json::Array a;
    for (auto* E : ED->enumerators()) {
      llvm::SmallString<40> s;
      E->getInitVal().toString(s, 10);
      std::string doc;
      if (auto* RC = Ctx.getRawCommentForDeclNoCache(E)) doc = RC->getBriefText(Ctx);
      a.push_back(json::Object{{"n", E->getNameAsString()}, {"v", std::string(s.str())}, {"doc", json::fixUTF8(doc)}});
    }
    o["e"] = std::move(a);
    line(std::move(o));
  }

  void drain() {
    while (!Pending.empty() || !RecPending.empty()) {
      if (!Pending.empty()) {
        auto* F = Pending.back();
        Pending.pop_back();
        emitFn(F);
      } else {
        auto* R = RecPending.back();
        RecPending.pop_back();
        emitRec(R);
      }
    }
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper& D;
  explicit Visitor(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* FD) {
    if (FD->isDependentContext()) {
      // record uninstantiated templates so that coverage can be reported
      return true;
    }
    D.noteFn(FD);
    return true;
  }
  bool VisitFunctionTemplateDecl(FunctionTemplateDecl* FT) {
    if (D.inScope(FT->getLocation()) && FT->isThisDeclarationADefinition()) {
      int n = 0;
      for (auto* S : FT->specializations()) { (void)S; ++n; }
      D.line(json::Object{{"K", "ftmpl"}, {"q", D.plainName(FT)}, {"n", n},
                          {"file", D.file(D.fileOf(FT->getLocation()))},
                          {"dep", FT->getDeclContext()->isDependentContext() ? 1 : 0},
                          {"l", (int)D.lineOf(FT->getLocation())}});
    }
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if (V->isTemplated()) return true;
    if (V->hasGlobalStorage() && !isa<ParmVarDecl>(V) && D.inScope(V->getLocation())) D.noteVar(V);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (D.inScope(E->getLocation()) && E->isThisDeclarationADefinition()) D.emitEnum(E);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isDependentContext() && D.inScope(R->getLocation()) && R->isThisDeclarationADefinition()) D.noteRecord(R);
    return true;
  }
};

// variables with static storage, and what the program does to them
struct Statics : RecursiveASTVisitor<Statics> {
  Dumper& D;
  explicit Statics(Dumper& d) : D(d) {}
  struct Info { int reads = 0, writes = 0, refs = 0; std::string how; unsigned line = 0; std::string wfile; };
  std::map<const VarDecl*, Info> Vs;
  std::vector<const FunctionDecl*> Fns;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseFunctionDecl(FunctionDecl* F) { Fns.push_back(F); bool r = RecursiveASTVisitor::TraverseFunctionDecl(F); Fns.pop_back(); return r; }
  bool TraverseLambdaExpr(LambdaExpr* L) { Fns.push_back(L->getCallOperator()); bool r = RecursiveASTVisitor::TraverseLambdaExpr(L); Fns.pop_back(); return r; }
  bool TraverseCXXMethodDecl(CXXMethodDecl* F) { Fns.push_back(F); bool r = RecursiveASTVisitor::TraverseCXXMethodDecl(F); Fns.pop_back(); return r; }
  bool VisitVarDecl(VarDecl* V) {
    if (V->hasGlobalStorage() && !isa<ParmVarDecl>(V) && D.inScope(V->getLocation())) Vs[V->getCanonicalDecl()];
    return true;
  }
  static const VarDecl* base(const Expr* E) {
    for (;;) {
      E = E->IgnoreParenImpCasts();
      if (auto* M = dyn_cast<MemberExpr>(E)) { if (auto* V = dyn_cast<VarDecl>(M->getMemberDecl())) return V->hasGlobalStorage() ? V : nullptr; if (M->isArrow()) return nullptr; E = M->getBase(); continue; }
      if (auto* A = dyn_cast<ArraySubscriptExpr>(E)) { E = A->getBase(); continue; }
      if (auto* C = dyn_cast<CXXConstCastExpr>(E)) { E = C->getSubExpr(); continue; }
      if (auto* C = dyn_cast<CXXOperatorCallExpr>(E)) { if (C->getOperator() == OO_Subscript || C->getOperator() == OO_Call) { if (C->isLValue()) { E = C->getArg(0); continue; } } return nullptr; }
      if (auto* C = dyn_cast<CXXMemberCallExpr>(E)) {
        auto* M = C->getMethodDecl();
        if (M && C->isLValue() && (M->getName() == StringRef("at") || M->getName() == StringRef("front") || M->getName() == StringRef("back"))) { E = C->getImplicitObjectArgument(); continue; }
        return nullptr;
      }
      if (auto* R = dyn_cast<DeclRefExpr>(E)) { auto* V = dyn_cast<VarDecl>(R->getDecl()); return V && V->hasGlobalStorage() ? V : nullptr; }
      return nullptr;
    }
  }
  void wr(const Expr* E, const Expr* At, const char* how) {
    if (auto* V = base(E)) {
      V = V->getCanonicalDecl();
      if (!D.inScope(V->getLocation())) return;
      auto& i = Vs[V];
      if (!i.writes++) { i.how = how; i.line = D.lineOf(At->getBeginLoc()); i.wfile = D.fileOf(At->getBeginLoc()); }
    }
  }
  bool VisitBinaryOperator(BinaryOperator* B) { if (B->isAssignmentOp()) wr(B->getLHS(), B, "is assigned"); return true; }
  bool VisitUnaryOperator(UnaryOperator* U) {
    if (U->isIncrementDecrementOp()) wr(U->getSubExpr(), U, "is incremented");
    if (U->getOpcode() == UO_AddrOf && !U->getType().isNull() && U->getType()->isPointerType() && !U->getType()->getPointeeType().isConstQualified()) wr(U->getSubExpr(), U, "is handed out by address");
    return true;
  }
  bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr* C) {
    auto* M = dyn_cast_or_null<CXXMethodDecl>(C->getDirectCallee());
    auto o = C->getOperator();
    if (M && !M->isConst() && !M->isStatic() && o != OO_Subscript && o != OO_Call && o != OO_Star && o != OO_Arrow) wr(C->getArg(0), C, "is modified by an operator");
    return true;
  }
  bool VisitCXXMemberCallExpr(CXXMemberCallExpr* C) {
    auto* M = C->getMethodDecl();
    if (!M || M->isConst() || M->isStatic() || !M->getIdentifier()) return true;
    static const std::set<std::string> Neutral{"begin", "end", "rbegin", "rend", "data", "at", "front", "back", "find", "get", "size"};
    if (!Neutral.count(M->getNameAsString())) wr(C->getImplicitObjectArgument(), C, "is modified by a member function");
    return true;
  }
  bool VisitCallExpr(CallExpr* C) {
    auto* F = C->getDirectCallee();
    if (!F || isa<CXXOperatorCallExpr>(C)) return true;
    static const std::set<std::string> NonReentrant{"rand", "srand", "random", "srandom", "drand48", "strtok", "localtime", "gmtime", "asctime", "ctime", "setlocale", "tmpnam", "lgamma", "setenv", "putenv", "chdir", "fesetround", "signal"};
    if (F->getIdentifier() && NonReentrant.count(F->getNameAsString()) && D.inScope(C->getBeginLoc()) && D.SM.isInSystemHeader(F->getLocation()))
      D.line(json::Object{{"K", "nonre"}, {"n", F->getNameAsString()}, {"f", D.fileOf(C->getBeginLoc())}, {"l", (int)D.lineOf(C->getBeginLoc())}});
    for (unsigned i = 0; i < C->getNumArgs() && i < F->getNumParams(); ++i) {
      QualType T = F->getParamDecl(i)->getType();
      if (T->isLValueReferenceType() && !T->getPointeeType().isConstQualified() && !T->isDependentType()) wr(C->getArg(i), C, "is passed by reference");
    }
    return true;
  }
  bool VisitReturnStmt(ReturnStmt* R) {
    if (Fns.empty() || !R->getRetValue()) return true;
    QualType T = Fns.back()->getReturnType();
    if (T->isLValueReferenceType() && !T->getPointeeType().isConstQualified() && !T->isDependentType()) wr(R->getRetValue(), R->getRetValue(), "is handed out by reference");
    return true;
  }
  bool VisitImplicitCastExpr(ImplicitCastExpr* C) {
    if (C->getCastKind() == CK_LValueToRValue) if (auto* R = dyn_cast<DeclRefExpr>(C->getSubExpr()->IgnoreParens())) if (auto* V = dyn_cast<VarDecl>(R->getDecl()); V && V->hasGlobalStorage() && D.inScope(V->getLocation())) ++Vs[V->getCanonicalDecl()].reads;
    return true;
  }
  bool VisitDeclRefExpr(DeclRefExpr* R) {
    if (auto* V = dyn_cast<VarDecl>(R->getDecl()); V && V->hasGlobalStorage() && D.inScope(V->getLocation())) ++Vs[V->getCanonicalDecl()].refs;
    return true;
  }
  // does the initial value depend on the call that happens to come first?
  struct Dep : RecursiveASTVisitor<Dep> {
    std::string on;
    bool VisitDeclRefExpr(DeclRefExpr* R) {
      auto* V = dyn_cast<VarDecl>(R->getDecl());
      if (V && on.empty() && !V->isConstexpr() && (isa<ParmVarDecl>(V) || V->hasLocalStorage())) on = V->getNameAsString();
      return true;
    }
    bool VisitCXXThisExpr(CXXThisExpr*) { if (on.empty()) on = "this"; return true; }
    bool TraverseLambdaExpr(LambdaExpr* L) { for (auto* I : L->capture_inits()) TraverseStmt(I); return true; }
  };
  static bool mut(QualType T, int d = 0) {
    if (T.isNull() || d > 6) return false;
    while (auto* A = T->getAsArrayTypeUnsafe()) T = A->getElementType();
    auto* R = T->getAsCXXRecordDecl();
    if (!R || !R->hasDefinition()) return false;
    R = R->getDefinition();
    for (auto* F : R->fields()) if (F->isMutable() || mut(F->getType(), d + 1)) return true;
    for (auto& B : R->bases()) if (mut(B.getType(), d + 1)) return true;
    return false;
  }
  void emit() {
    for (auto& [V, i] : Vs) {
      json::Object o;
      o["K"] = "static";
      o["n"] = V->getNameAsString();
      o["q"] = D.plainName(V);
      o["f"] = D.fileOf(V->getLocation());
      o["l"] = (int)D.lineOf(V->getLocation());
      o["ts"] = D.typeStr(V->getType());
      if (V->isConstexpr()) o["constexpr"] = 1;
      bool cst = V->getType().isConstQualified() || (V->getType()->isReferenceType() && V->getType()->getPointeeType().isConstQualified());
      if (auto* A = V->getType()->getAsArrayTypeUnsafe()) cst = cst || A->getElementType().isConstQualified();
      if (cst) o["const"] = 1;
      if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
      if (V->isStaticLocal()) o["slocal"] = 1;
      if (mut(V->getType())) o["mut"] = 1;
      o["reads"] = i.reads; o["writes"] = i.writes; o["refs"] = i.refs;
      if (i.writes) { o["how"] = i.how; o["wl"] = (int)i.line; o["wf"] = i.wfile; }
      if (V->isStaticLocal() && V->getInit()) {
        Dep P; P.TraverseStmt(const_cast<Expr*>(V->getInit()));
        if (!P.on.empty()) o["dep"] = P.on;
      }
      D.line(std::move(o));
    }
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance& CI;
  explicit Consumer(CompilerInstance& c) : CI(c) {}
  void HandleTranslationUnit(ASTContext& Ctx) override {
    Dumper D(Ctx);
    Visitor V(D);
    Statics S(D);
    for (auto* TopD : Ctx.getTranslationUnitDecl()->decls()) {
      // skip system namespaces quickly: only visit decls that may be in scope
      if (auto* NS = dyn_cast<NamespaceDecl>(TopD)) {
        if (NS->getName() == "std" || NS->getName() == "Eigen") {
          // specialisations of std/Eigen templates written in scope
          for (auto* Sub : NS->decls())
            if (D.inScope(Sub->getLocation())) { V.TraverseDecl(Sub); S.TraverseDecl(Sub); }
          continue;
        }
        V.TraverseDecl(NS);
        S.TraverseDecl(NS);
        continue;
      }
      if (D.inScope(TopD->getLocation())) { V.TraverseDecl(TopD); S.TraverseDecl(TopD); }
    }
    D.drain();
    S.emit();
    auto& DE = Ctx.getDiagnostics();
    D.line(json::Object{{"K", "end"}, {"errors", DE.hasErrorOccurred() ? 1 : 0}});
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
struct Factory : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) return 3;
  OutPath = argv[1];
  std::string p = argv[2];
  size_t b = 0;
  while (b <= p.size()) {
    size_t e = p.find(',', b);
    if (e == std::string::npos) e = p.size();
    Prefixes.push_back(p.substr(b, e - b));
    b = e + 1;
  }
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  Factory F;
  return T.run(&F);
}
