// gcx: dumps the type-resolved AST of every function defined in the analysed
// repository (not in bundled third-party code, not in system headers) as JSON.
// usage: gcx <repo-root> <out.json> <source.cc> -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string g_root, g_out;
static bool g_failed = false;

static bool thirdParty(llvm::StringRef f) {
  return f.contains("/rapidjson/") || f.contains("/fkYAML/") ||
         f.contains("/toml++/") || f.contains("/lua-5") || f.contains("/_build/");
}

class Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> typeIdx;
  std::map<const Decl *, int> localIds;
  std::map<std::string, int> strs;

public:
  Array types;
  Array functions;
  Array globals;
  Array records;
  Array enums;
  std::set<std::string> seen, seenRec, seenGlob;
  std::vector<const CXXMethodDecl *> pendingLambdas;

  explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    SourceLocation E = SM.getExpansionLoc(L);
    auto F = SM.getFilename(E);
    return F.str();
  }
  int lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }
  bool inRepo(SourceLocation L) {
    std::string f = fileOf(L);
    llvm::StringRef s(f);
    return s.starts_with(g_root) && !thirdParty(s);
  }
  std::string rel(const std::string &f) {
    if (llvm::StringRef(f).starts_with(g_root)) {
      std::string r = f.substr(g_root.size());
      while (!r.empty() && r[0] == '/') r = r.substr(1);
      return r;
    }
    return f;
  }

  int typeId(QualType T) {
    std::string s = T.isNull() ? std::string("?") : T.getCanonicalType().getAsString(PP);
    auto it = typeIdx.find(s);
    if (it != typeIdx.end()) return it->second;
    int n = (int)typeIdx.size();
    typeIdx[s] = n;
    Object o;
    o["s"] = s;
    if (!T.isNull()) {
      QualType C = T.getCanonicalType();
      if (C->isReferenceType()) { o["ref"] = true; C = C->getPointeeType(); }
      if (C.isConstQualified()) o["const"] = true;
      if (!C->isDependentType()) {
        if (C->isBooleanType()) o["cls"] = "bool";
        else if (C->isEnumeralType()) o["cls"] = "enum";
        else if (C->isIntegerType()) o["cls"] = "int";
        else if (C->isFloatingType()) o["cls"] = "float";
        else if (C->isPointerType()) {
          o["cls"] = "ptr";
          if (C->getPointeeType().isConstQualified()) o["pconst"] = true;
          if (C->getPointeeType()->isFunctionType()) o["cls"] = "fptr";
        }
        else if (C->isRecordType()) o["cls"] = C->isUnionType() ? "union" : "rec";
        else if (C->isArrayType()) o["cls"] = "arr";
        else if (C->isVoidType()) o["cls"] = "void";
        if ((C->isIntegerType() || C->isFloatingType() || C->isEnumeralType()) && !C->isIncompleteType()) {
          o["bits"] = (int64_t)Ctx.getTypeSize(C);
          o["signed"] = C->isSignedIntegerOrEnumerationType() || C->isFloatingType();
        }
        if (C->isRecordType()) {
          if (auto *RD = C->getAsCXXRecordDecl()) o["rec"] = RD->getQualifiedNameAsString();
        }
      }
    }
    types.push_back(std::move(o));
    return n;
  }

  int localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = localIds.find(D);
    if (it != localIds.end()) return it->second;
    int n = (int)localIds.size() + 1;
    localIds[D] = n;
    return n;
  }

  std::string usr(const Decl *D) {
    if (auto *F0 = dyn_cast<FunctionDecl>(D)) D = F0->getCanonicalDecl();
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    std::string s = B.str().str();
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      // distinguish instantiations
      if (F->isTemplateInstantiation() || F->getTemplateSpecializationInfo()) {
        if (auto *A = F->getTemplateSpecializationArgs()) {
          s += "<";
          for (unsigned i = 0; i < A->size(); ++i) {
            std::string t; llvm::raw_string_ostream os(t);
            A->get(i).print(PP, os, true);
            s += os.str(); s += ",";
          }
          s += ">";
        }
      }
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        if (M->getParent()->isLambda()) s += "#L" + std::to_string(localId(M->getParent()));
      }
    }
    return s;
  }

  Object calleeInfo(const FunctionDecl *F) {
    Object o;
    o["usr"] = usr(F);
    o["q"] = F->getQualifiedNameAsString();
    o["n"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["m"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      o["rec"] = M->getParent()->getQualifiedNameAsString();
      if (M->isVirtual()) o["virt"] = true;
    }
    if (F->isNoReturn()) o["noret"] = true;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
      if (isUnresolvedExceptionSpec(FPT->getExceptionSpecType())) { if (isa<CXXDestructorDecl>(F)) o["nx"] = true; }
      else if (FPT->isNothrow()) o["nx"] = true;
    }
    if (inRepo(F->getLocation())) o["repo"] = true;
    if (F->isDefaulted()) o["dflt"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array ta;
      for (auto &A : TA->asArray())
        if (A.getKind() == TemplateArgument::Integral) {
          llvm::SmallString<32> ss; A.getAsIntegral().toString(ss, 10);
          ta.push_back(ss.str().str());
        }
      if (!ta.empty()) o["ta"] = std::move(ta);
    }
    Array pt;
    for (auto *P : F->parameters()) pt.push_back(typeId(P->getType()));
    o["pt"] = std::move(pt);
    o["rt"] = typeId(F->getReturnType());
    return o;
  }

  Value optStmt(const Stmt *S) { return S ? stmt(S) : Value(nullptr); }

  Object varDecl(const VarDecl *V) {
    Object o;
    o["id"] = localId(V);
    o["name"] = V->getNameAsString();
    o["t"] = typeId(V->getType());
    o["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal() || V->getStorageClass() == SC_Static) o["static"] = true;
    if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (V->isConstexpr()) o["constexpr"] = true;
    if (V->hasInit()) o["init"] = stmt(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array b;
      for (auto *BD : DD->bindings()) {
        Object bo;
        bo["id"] = localId(BD);
        bo["name"] = BD->getNameAsString();
        bo["t"] = typeId(BD->getType());
        if (BD->getHoldingVar()) {
          bo["hv"] = varDecl(BD->getHoldingVar());
        }
        if (BD->getBinding()) bo["e"] = stmt(BD->getBinding());
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return o;
  }

  void base(Object &o, const Stmt *S) {
    o["k"] = S->getStmtClassName();
    o["l"] = lineOf(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"] = typeId(E->getType());
      if (E->isLValue()) o["vk"] = "l";
      else if (E->isXValue()) o["vk"] = "x";
      if (!E->isValueDependent() && !E->isTypeDependent() &&
          (E->getType()->isIntegralOrEnumerationType()) &&
          !isa<IntegerLiteral>(E) && !isa<CharacterLiteral>(E) && !isa<CXXBoolLiteralExpr>(E) &&
          E->isPRValue()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
          auto I = R.Val.getInt();
          llvm::SmallString<32> ss;
          I.toString(ss, 10);
          o["cv"] = ss.str().str();
        }
      }
      if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isRealFloatingType() &&
          !isa<FloatingLiteral>(E) && E->isPRValue()) {
        llvm::APFloat R(0.0);
        if (E->EvaluateAsFloat(R, Ctx, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> ss; R.toString(ss, 17, 0);
          o["fv"] = ss.str().str();
        }
      }
    }
  }

  static std::string utf8(llvm::StringRef s) {
    if (json::isUTF8(s)) return s.str();
    return json::fixUTF8(s);
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    // transparent nodes
    if (auto *P = dyn_cast<ParenExpr>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return stmt(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(S)) return stmt(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(S)) return stmt(P->getExpr());
    if (auto *P = dyn_cast<AttributedStmt>(S)) return stmt(P->getSubStmt());
    if (auto *P = dyn_cast<OpaqueValueExpr>(S)) { if (P->getSourceExpr()) return stmt(P->getSourceExpr()); }

    Object o;
    base(o, S);
    switch (S->getStmtClass()) {
    case Stmt::DeclStmtClass: {
      Array a;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      o["d"] = std::move(a);
      return o;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt()) o["cvd"] = stmt(I->getConditionVariableDeclStmt());
      o["cond"] = stmt(I->getCond());
      o["then"] = stmt(I->getThen());
      if (I->getElse()) o["else"] = stmt(I->getElse());
      if (I->isConstexpr()) o["constexpr"] = true;
      return o;
    }
    case Stmt::SwitchStmtClass: {
      auto *I = cast<SwitchStmt>(S);
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt()) o["cvd"] = stmt(I->getConditionVariableDeclStmt());
      o["cond"] = stmt(I->getCond());
      o["body"] = stmt(I->getBody());
      if (const auto *ET = I->getCond()->IgnoreImpCasts()->getType().getCanonicalType()->getAs<EnumType>()) {
        json::Array ev;
        for (auto *c : ET->getDecl()->enumerators()) {
          llvm::SmallString<32> ss; c->getInitVal().toString(ss, 10);
          ev.push_back(ss.str().str());
        }
        o["ev"] = std::move(ev);
      }
      return o;
    }
    case Stmt::CaseStmtClass: {
      auto *C = cast<CaseStmt>(S);
      o["lhs"] = stmt(C->getLHS());
      Expr::EvalResult R;
      if (!C->getLHS()->isValueDependent() && C->getLHS()->EvaluateAsInt(R, Ctx)) {
        llvm::SmallString<32> ss; R.Val.getInt().toString(ss, 10);
        o["val"] = ss.str().str();
      }
      if (C->getRHS()) {
        o["rhs"] = stmt(C->getRHS());
        if (!C->getRHS()->isValueDependent() && C->getRHS()->EvaluateAsInt(R, Ctx)) {
          llvm::SmallString<32> ss; R.Val.getInt().toString(ss, 10);
          o["val2"] = ss.str().str();
        }
      }
      o["sub"] = stmt(C->getSubStmt());
      return o;
    }
    case Stmt::DefaultStmtClass:
      o["sub"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
      return o;
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S);
      if (W->getConditionVariableDeclStmt()) o["cvd"] = stmt(W->getConditionVariableDeclStmt());
      o["cond"] = stmt(W->getCond());
      o["body"] = stmt(W->getBody());
      return o;
    }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(S);
      o["cond"] = stmt(W->getCond());
      o["body"] = stmt(W->getBody());
      return o;
    }
    case Stmt::ForStmtClass: {
      auto *W = cast<ForStmt>(S);
      o["init"] = optStmt(W->getInit());
      if (W->getConditionVariableDeclStmt()) o["cvd"] = stmt(W->getConditionVariableDeclStmt());
      o["cond"] = optStmt(W->getCond());
      o["inc"] = optStmt(W->getInc());
      o["body"] = stmt(W->getBody());
      return o;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *W = cast<CXXForRangeStmt>(S);
      if (W->getInit()) o["init"] = stmt(W->getInit());
      o["range"] = stmt(W->getRangeInit());
      o["var"] = varDecl(W->getLoopVariable());
      o["body"] = stmt(W->getBody());
      return o;
    }
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      o["body"] = stmt(T->getTryBlock());
      Array h;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *C = T->getHandler(i);
        Object c;
        c["l"] = lineOf(C->getBeginLoc());
        if (C->getExceptionDecl()) c["var"] = varDecl(C->getExceptionDecl());
        else c["all"] = true;
        if (!C->getCaughtType().isNull()) c["ct"] = typeId(C->getCaughtType());
        c["body"] = stmt(C->getHandlerBlock());
        h.push_back(std::move(c));
      }
      o["h"] = std::move(h);
      return o;
    }
    case Stmt::ReturnStmtClass:
      o["e"] = optStmt(cast<ReturnStmt>(S)->getRetValue());
      return o;
    case Stmt::GotoStmtClass:
      o["label"] = cast<GotoStmt>(S)->getLabel()->getNameAsString();
      return o;
    case Stmt::LabelStmtClass:
      o["label"] = cast<LabelStmt>(S)->getDecl()->getNameAsString();
      o["sub"] = stmt(cast<LabelStmt>(S)->getSubStmt());
      return o;
    case Stmt::IntegerLiteralClass: {
      llvm::SmallString<32> ss;
      cast<IntegerLiteral>(S)->getValue().toString(ss, 10, cast<Expr>(S)->getType()->isSignedIntegerType());
      o["v"] = ss.str().str();
      return o;
    }
    case Stmt::CharacterLiteralClass:
      o["v"] = std::to_string(cast<CharacterLiteral>(S)->getValue());
      return o;
    case Stmt::CXXBoolLiteralExprClass:
      o["v"] = cast<CXXBoolLiteralExpr>(S)->getValue();
      return o;
    case Stmt::FloatingLiteralClass: {
      llvm::SmallString<32> ss;
      cast<FloatingLiteral>(S)->getValue().toString(ss);
      o["v"] = ss.str().str();
      return o;
    }
    case Stmt::StringLiteralClass: {
      auto *L = cast<StringLiteral>(S);
      if (L->getCharByteWidth() == 1) o["v"] = utf8(L->getString());
      return o;
    }
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(S)->getDecl();
      o["name"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["ref"] = "enum";
        llvm::SmallString<32> ss; EC->getInitVal().toString(ss, 10);
        o["v"] = ss.str().str();
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["ref"] = "func";
        o["callee"] = calleeInfo(F);
      } else if (auto *BD = dyn_cast<BindingDecl>(D)) {
        o["ref"] = "bind";
        o["id"] = localId(BD);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          o["ref"] = "global";
          o["usr"] = usr(V);
          o["q"] = V->getQualifiedNameAsString();
          if (inRepo(V->getLocation())) o["repo"] = true;
          if (V->getType().isConstQualified() || V->isConstexpr()) o["cst"] = true;
          if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
        } else {
          o["ref"] = V->isStaticLocal() ? "static" : "local";
          o["id"] = localId(V);
          if (V->isStaticLocal()) {
            if (V->getType().isConstQualified() || V->isConstexpr()) o["cst"] = true;
            if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
          }
          if (cast<DeclRefExpr>(S)->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        }
        o["dt"] = typeId(V->getType());
      } else {
        o["ref"] = "other";
      }
      return o;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(S);
      o["b"] = stmt(M->getBase());
      o["name"] = M->getMemberDecl()->getNameAsString();
      if (M->isArrow()) o["arrow"] = true;
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        o["mk"] = "field";
        o["rec"] = F->getParent()->getQualifiedNameAsString();
        if (F->getParent()->isUnion()) o["union"] = true;
        if (F->isMutable()) o["mutable"] = true;
        o["ft"] = typeId(F->getType());
      } else if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        o["mk"] = "static";
        o["q"] = V->getQualifiedNameAsString();
      } else if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
        o["mk"] = "method";
        o["callee"] = calleeInfo(F);
      }
      return o;
    }
    case Stmt::UnaryOperatorClass:
      o["op"] = UnaryOperator::getOpcodeStr(cast<UnaryOperator>(S)->getOpcode()).str();
      if (cast<UnaryOperator>(S)->isPostfix()) o["post"] = true;
      o["e"] = stmt(cast<UnaryOperator>(S)->getSubExpr());
      return o;
    case Stmt::BinaryOperatorClass:
    case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(S);
      o["op"] = B->getOpcodeStr().str();
      o["lhs"] = stmt(B->getLHS());
      o["rhs"] = stmt(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) o["ct"] = typeId(CA->getComputationResultType());
      return o;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *C = cast<ConditionalOperator>(S);
      o["cond"] = stmt(C->getCond());
      o["a"] = stmt(C->getTrueExpr());
      o["b"] = stmt(C->getFalseExpr());
      return o;
    }
    case Stmt::MaterializeTemporaryExprClass:
      o["e"] = stmt(cast<MaterializeTemporaryExpr>(S)->getSubExpr());
      return o;
    case Stmt::CXXThrowExprClass:
      o["e"] = optStmt(cast<CXXThrowExpr>(S)->getSubExpr());
      return o;
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(S);
      o["at"] = typeId(N->getAllocatedType());
      if (N->isArray()) { o["array"] = true; if (N->getArraySize()) o["size"] = optStmt(*N->getArraySize()); }
      if (N->getNumPlacementArgs()) { Array a; for (unsigned i=0;i<N->getNumPlacementArgs();++i) a.push_back(stmt(N->getPlacementArg(i))); o["place"] = std::move(a); }
      if (N->getOperatorNew()) {
        if (auto *FPT = N->getOperatorNew()->getType()->getAs<FunctionProtoType>()) if (FPT->isNothrow()) o["nothrow"] = true;
      }
      o["init"] = optStmt(N->getInitializer());
      return o;
    }
    case Stmt::CXXDeleteExprClass:
      if (cast<CXXDeleteExpr>(S)->isArrayForm()) o["array"] = true;
      o["e"] = stmt(cast<CXXDeleteExpr>(S)->getArgument());
      return o;
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(S);
      Array caps;
      auto ii = L->capture_init_begin();
      for (auto &C : L->captures()) {
        Object c;
        if (C.capturesThis()) c["this"] = true;
        if (C.capturesVariable()) {
          c["id"] = localId(C.getCapturedVar());
          c["name"] = C.getCapturedVar()->getNameAsString();
        }
        c["byref"] = C.getCaptureKind() == LCK_ByRef || C.getCaptureKind() == LCK_This;
        c["init"] = optStmt(*ii);
        ++ii;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      if (L->isGenericLambda()) {
        o["generic"] = true;
        // instantiations of the call operator are dumped as separate functions
        Array inst;
        if (auto *FT = L->getDependentCallOperator()) {
          for (auto *Sp : FT->specializations()) { inst.push_back(usr(Sp)); function(Sp, true); }
        }
        o["inst"] = std::move(inst);
      } else {
        auto *M = L->getCallOperator();
        o["usr"] = usr(M);
        function(M, true);
      }
      return o;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass:
      return o; // cv carries the value
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(S);
      if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
      Array a;
      for (auto *E : I->inits()) a.push_back(stmt(E));
      o["c"] = std::move(a);
      if (I->hasArrayFiller()) o["filler"] = true;
      return o;
    }
    case Stmt::CXXStdInitializerListExprClass:
      o["e"] = stmt(cast<CXXStdInitializerListExpr>(S)->getSubExpr());
      return o;
    case Stmt::ArraySubscriptExprClass:
      o["b"] = stmt(cast<ArraySubscriptExpr>(S)->getBase());
      o["i"] = stmt(cast<ArraySubscriptExpr>(S)->getIdx());
      return o;
    case Stmt::CXXThisExprClass:
      return o;
    default:
      break;
    }
    if (auto *C = dyn_cast<CastExpr>(S)) {
      o["ck"] = C->getCastKindName();
      if (isa<ExplicitCastExpr>(C)) o["ex"] = true;
      if (auto *FD = dyn_cast_or_null<FunctionDecl>(C->getConversionFunction())) o["conv"] = calleeInfo(FD);
      o["e"] = stmt(C->getSubExpr());
      return o;
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(S)) {
      o["k"] = "CXXConstructExpr";
      o["callee"] = calleeInfo(C->getConstructor());
      Array a;
      for (auto *A : C->arguments()) a.push_back(stmt(A));
      o["a"] = std::move(a);
      if (C->isElidable()) o["elide"] = true;
      if (C->isListInitialization()) o["list"] = true;
      return o;
    }
    if (auto *C = dyn_cast<CallExpr>(S)) {
      const FunctionDecl *F = C->getDirectCallee();
      if (F) o["callee"] = calleeInfo(F);
      else o["fn"] = stmt(C->getCallee());
      if (auto *M = dyn_cast<CXXMemberCallExpr>(C)) {
        o["obj"] = optStmt(M->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) if (ME->isArrow()) o["arrow"] = true;
      }
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(C)) o["op"] = getOperatorSpelling(OC->getOperator());
      Array a;
      for (auto *A : C->arguments()) a.push_back(stmt(A));
      o["a"] = std::move(a);
      return o;
    }
    // generic
    Array ch;
    for (const Stmt *c : S->children()) ch.push_back(optStmt(c));
    o["c"] = std::move(ch);
    return o;
  }

  void function(const FunctionDecl *F, bool force = false) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def)) {
      if (F->isDefaulted() && inRepo(F->getLocation())) Def = F; else return;
    }
    F = Def;
    if (F->isDependentContext()) return;
    if (!force && !inRepo(F->getLocation())) return;
    std::string u = usr(F);
    if (!seen.insert(u).second) return;
    Object o = calleeInfo(F);
    o["file"] = rel(fileOf(F->getLocation()));
    o["l"] = lineOf(F->getLocation());
    o["le"] = lineOf(F->getEndLoc());
    if (F->isExternC()) o["externC"] = true;
    if (F->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
    if (F->isImplicit()) o["implicit"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["access"] = (int)M->getAccess();
      if (isa<CXXConstructorDecl>(M)) o["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
    }
    Array ps;
    for (auto *P : F->parameters()) {
      Object p;
      p["id"] = localId(P);
      p["name"] = P->getNameAsString();
      p["t"] = typeId(P->getType());
      ps.push_back(std::move(p));
    }
    o["ps"] = std::move(ps);
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto *I : C->inits()) {
        Object i;
        if (I->isMemberInitializer()) i["field"] = I->getMember()->getNameAsString();
        else if (I->isBaseInitializer()) i["base"] = typeId(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) i["deleg"] = true;
        if (I->isWritten()) i["written"] = true;
        i["e"] = optStmt(I->getInit());
        in.push_back(std::move(i));
      }
      o["inits"] = std::move(in);
    }
    if (F->getBody()) o["body"] = stmt(F->getBody());
    functions.push_back(std::move(o));
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRepo(R->getLocation())) return;
    std::string q = R->getQualifiedNameAsString();
    std::string u = usr(R);
    if (!seenRec.insert(u).second) return;
    Object o;
    o["q"] = q;
    o["usr"] = u;
    o["t"] = typeId(Ctx.getRecordType(R));
    o["file"] = rel(fileOf(R->getLocation()));
    o["l"] = lineOf(R->getLocation());
    if (R->isUnion()) o["union"] = true;
    Array bs;
    for (auto &B : R->bases()) bs.push_back(typeId(B.getType()));
    o["bases"] = std::move(bs);
    Array fs;
    for (auto *F : R->fields()) {
      Object f;
      f["name"] = F->getNameAsString();
      f["t"] = typeId(F->getType());
      if (F->isMutable()) f["mutable"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = stmt(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto *M : R->methods()) {
      Object m = calleeInfo(M);
      m["access"] = (int)M->getAccess();
      m["l"] = lineOf(M->getLocation());
      if (M->isImplicit()) m["implicit"] = true;
      if (M->isDeleted()) m["deleted"] = true;
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    records.push_back(std::move(o));
  }

  void enumd(const EnumDecl *E) {
    if (!inRepo(E->getLocation()) || !E->isThisDeclarationADefinition()) return;
    Object o;
    o["q"] = E->getQualifiedNameAsString();
    Array a;
    for (auto *C : E->enumerators()) {
      Object c;
      c["name"] = C->getNameAsString();
      llvm::SmallString<32> ss; C->getInitVal().toString(ss, 10);
      c["v"] = ss.str().str();
      a.push_back(std::move(c));
    }
    o["c"] = std::move(a);
    o["file"] = rel(fileOf(E->getLocation()));
    enums.push_back(std::move(o));
  }

  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal()) return;
    if (!inRepo(V->getLocation()) || V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) return;
    std::string u = usr(V);
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
    if (!seenGlob.insert(u).second) return;
    Object o = varDecl(V);
    o["usr"] = u;
    o["q"] = V->getQualifiedNameAsString();
    o["file"] = rel(fileOf(V->getLocation()));
    if (V->getType().isConstQualified() || V->isConstexpr()) o["cst"] = true;
    globals.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Dumper &D;
  explicit V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { D.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.enumd(E); return true; }
  bool VisitVarDecl(VarDecl *G) { D.global(G); return true; }
};

// parameters may keep a reference to the function prototype only in headers of
// C linkage: also list every extern "C" declaration of the repository.
class DeclV : public RecursiveASTVisitor<DeclV> {
public:
  Dumper &D; Array &out;
  DeclV(Dumper &d, Array &o) : D(d), out(o) {}
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isExternC() || !D.inRepo(F->getLocation())) return true;
    Object o = D.calleeInfo(F);
    o["file"] = D.rel(D.fileOf(F->getLocation()));
    o["l"] = D.lineOf(F->getLocation());
    o["def"] = F->isThisDeclarationADefinition();
    out.push_back(std::move(o));
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  CompilerInstance &CI;
  explicit Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) { g_failed = true; return; }
    Dumper D(Ctx);
    V v(D);
    v.TraverseDecl(Ctx.getTranslationUnitDecl());
    Array cdecls;
    DeclV dv(D, cdecls);
    dv.TraverseDecl(Ctx.getTranslationUnitDecl());
    Object root;
    root["functions"] = std::move(D.functions);
    root["records"] = std::move(D.records);
    root["enums"] = std::move(D.enums);
    root["globals"] = std::move(D.globals);
    root["cdecls"] = std::move(cdecls);
    root["types"] = std::move(D.types);
    std::error_code EC;
    llvm::raw_fd_ostream os(g_out, EC);
    if (EC) { g_failed = true; return; }
    os << Value(std::move(root));
  }
};

class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Cons>(CI);
  }
};

int main(int argc, const char **argv) {
  if (argc < 4) { llvm::errs() << "usage: gcx root out src -- flags\n"; return 2; }
  g_root = argv[1];
  g_out = argv[2];
  std::vector<std::string> flags;
  bool dd = false;
  for (int i = 4; i < argc; ++i) {
    if (dd) flags.push_back(argv[i]);
    else if (std::string(argv[i]) == "--") dd = true;
  }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {std::string(argv[3])});
  int rc = T.run(tooling::newFrontendActionFactory<Act>().get());
  return (rc || g_failed) ? 3 : 0;
}
