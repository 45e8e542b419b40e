// vexport: dumps the type-checked syntax trees of the functions, classes and
// globals that live under given source roots as compact JSON.
//   vexport -p <builddir> --root=<dir>[,<dir>...] <file.cpp>  > out.json
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>

using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("vexport");
static llvm::cl::list<std::string> Roots("root", llvm::cl::CommaSeparated, llvm::cl::cat(Cat));

namespace {

class Exporter {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl *, int> ids;
  std::set<std::string> doneF, doneC, doneG;
  std::deque<const FunctionDecl *> work;
  std::deque<const CXXRecordDecl *> cwork;
  json::Object functions, classes, globals;
  std::string tu;

  Exporter(ASTContext &c, std::string t)
      : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), MC(ItaniumMangleContext::create(c, c.getDiagnostics())), tu(t) {
    PP.SuppressTagKeyword = true;
    PP.SuppressInlineNamespace = true;
    PP.Bool = true;
    PP.adjustForCPlusPlus();
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int idOf(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[D] = n;
    return n;
  }
  std::string ty(QualType T) {
    QualType U = T.getCanonicalType();
    QualType N = U.getNonReferenceType();
    if (auto *ET = N->getAs<EnumType>())      // enumerations are their underlying integers
      if (ET->getDecl()->isComplete() && !ET->getDecl()->getIntegerType().isNull()) {
        QualType I = ET->getDecl()->getIntegerType().getCanonicalType();
        std::string s = (N.isConstQualified() && U->isReferenceType() ? "const " : "") + I.getAsString(PP);
        return U->isLValueReferenceType() ? s + " &" : U->isRValueReferenceType() ? s + " &&" : s;
      }
    return U.getUnqualifiedType().getAsString(PP);
  }
  std::string key(const FunctionDecl *F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
    else os << F->getNameAsString();
    os.flush();
    if (!F->isExternallyVisible() || F->isMain()) s += "@" + tu;
    return s;
  }
  std::string gkey(const VarDecl *V) {
    std::string s = V->getQualifiedNameAsString();
    if (auto *FD = dyn_cast<FunctionDecl>(V->getDeclContext())) s = key(FD) + "::" + s;
    else if (!V->isExternallyVisible()) s += "@" + tu;
    return s;
  }
  std::string recName(const RecordDecl *R) {
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }
  json::Object node(const char *k, const Stmt *S) {
    json::Object o;
    o["k"] = k;
    o["l"] = (int64_t)lineOf(S->getBeginLoc());
    return o;
  }
  const char *refk(QualType T) {
    if (T->isReferenceType()) return "ref";
    if (T->isPointerType()) return "ptr";
    return "val";
  }
  void typeInto(json::Object &o, QualType T) {
    o["t"] = ty(T);
    QualType U = T.getNonReferenceType();
    if (U->isPointerType()) U = U->getPointeeType();
    U = U.getCanonicalType();
    if (auto *R = U->getAsCXXRecordDecl()) {
      o["c"] = recName(R);
      cls(R);
    }
  }

  void cls(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isDependentContext()) return;
    bool root = inRoot(R->getLocation());
    if (!root && !R->isPolymorphic()) return;
    std::string n = recName(R);
    if (!doneC.insert(n).second) return;
    cwork.push_back(R);
  }

  void emitClass(const CXXRecordDecl *R) {
    bool root = inRoot(R->getLocation());
    json::Object o;
    std::string n = recName(R);
    o["file"] = fileOf(R->getLocation());
    o["line"] = (int64_t)lineOf(R->getLocation());
    o["root"] = root;
    json::Array bases;
    for (auto &B : R->bases())
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) {
        bases.push_back(recName(BR));
        cls(BR);
      }
    o["bases"] = std::move(bases);
    if (root) {
      o["abstract"] = R->isAbstract();
      o["union"] = R->isUnion();
      if (auto *D = R->getDestructor()) o["dtor"] = key(D);
      o["trivialDtor"] = R->hasTrivialDestructor();
      json::Array fs;
      for (auto *F : R->fields()) {
        json::Object f;
        f["n"] = F->getNameAsString();
        typeInto(f, F->getType());
        f["acc"] = (int64_t)F->getAccess();
        f["line"] = (int64_t)lineOf(F->getLocation());
        if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
        fs.push_back(std::move(f));
      }
      o["fields"] = std::move(fs);
      json::Array ms;
      for (auto *M : R->methods()) {
        json::Object m;
        m["n"] = M->getNameAsString();
        m["f"] = key(M);
        m["virt"] = M->isVirtual();
        m["pure"] = M->isPureVirtual();
        m["static"] = M->isStatic();
        m["const"] = M->isConst();
        m["acc"] = (int64_t)M->getAccess();
        m["implicit"] = M->isImplicit();
        m["deleted"] = M->isDeleted();
        m["line"] = (int64_t)lineOf(M->getLocation());
        json::Array ov;
        for (auto *O : M->overridden_methods()) ov.push_back(key(O->getCanonicalDecl()));
        m["over"] = std::move(ov);
        json::Array ps;
        for (auto *P : M->parameters()) {
          json::Object p;
          p["n"] = P->getNameAsString();
          typeInto(p, P->getType());
          if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) p["def"] = expr(P->getDefaultArg());
          ps.push_back(std::move(p));
        }
        m["params"] = std::move(ps);
        m["rt"] = ty(M->getReturnType());
        ms.push_back(std::move(m));
      }
      o["methods"] = std::move(ms);
    }
    classes[n] = std::move(o);
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object o;
    o["id"] = idOf(V);
    o["n"] = V->getNameAsString();
    o["l"] = (int64_t)lineOf(V->getLocation());
    typeInto(o, V->getType());
    if (auto *CA = C.getAsConstantArrayType(V->getType())) {
      o["arr"] = (int64_t)CA->getSize().getZExtValue();
      o["et"] = ty(CA->getElementType());
    }
    if (V->isStaticLocal()) { o["static"] = true; o["g"] = gkey(V); }
    if (V->getInit()) o["init"] = expr(V->getInit());
    if (V->getInit() && V->getInitStyle() == VarDecl::CallInit) o["ci"] = true;
    return o;
  }

  json::Value opt(const Stmt *S) {
    if (!S) return nullptr;
    return stmt(S);
  }
  json::Value optE(const Expr *S) {
    if (!S) return nullptr;
    return expr(S);
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object o = node("ex", S);
      o["e"] = expr(E);
      return o;
    }
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      json::Object o = node("seq", S);
      json::Array a;
      for (auto *c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      o["el"] = (int64_t)lineOf(S->getEndLoc());
      return o;
    }
    case Stmt::DeclStmtClass: {
      json::Object o = node("decl", S);
      json::Array a;
      for (auto *d : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["v"] = std::move(a);
      return o;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      json::Object o = node("if", S);
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
      o["c"] = expr(I->getCond());
      o["th"] = opt(I->getThen());
      o["el"] = opt(I->getElse());
      return o;
    }
    case Stmt::WhileStmtClass: {
      auto *I = cast<WhileStmt>(S);
      json::Object o = node("while", S);
      if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
      o["c"] = expr(I->getCond());
      o["b"] = opt(I->getBody());
      return o;
    }
    case Stmt::DoStmtClass: {
      auto *I = cast<DoStmt>(S);
      json::Object o = node("do", S);
      o["c"] = expr(I->getCond());
      o["b"] = opt(I->getBody());
      return o;
    }
    case Stmt::ForStmtClass: {
      auto *I = cast<ForStmt>(S);
      json::Object o = node("for", S);
      o["init"] = opt(I->getInit());
      if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
      o["c"] = optE(I->getCond());
      o["inc"] = optE(I->getInc());
      o["b"] = opt(I->getBody());
      return o;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *I = cast<CXXForRangeStmt>(S);
      json::Object o = node("rfor", S);
      o["range"] = opt(I->getRangeStmt());
      o["begin"] = opt(I->getBeginStmt());
      o["end"] = opt(I->getEndStmt());
      o["c"] = optE(I->getCond());
      o["inc"] = optE(I->getInc());
      o["lv"] = opt(I->getLoopVarStmt());
      o["b"] = opt(I->getBody());
      return o;
    }
    case Stmt::SwitchStmtClass: {
      auto *I = cast<SwitchStmt>(S);
      json::Object o = node("switch", S);
      if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
      o["c"] = expr(I->getCond());
      o["b"] = opt(I->getBody());
      return o;
    }
    case Stmt::CaseStmtClass: {
      auto *I = cast<CaseStmt>(S);
      json::Object o = node("case", S);
      o["lo"] = expr(I->getLHS());
      if (I->getRHS()) o["hi"] = expr(I->getRHS());
      o["s"] = opt(I->getSubStmt());
      return o;
    }
    case Stmt::DefaultStmtClass: {
      json::Object o = node("default", S);
      o["s"] = opt(cast<DefaultStmt>(S)->getSubStmt());
      return o;
    }
    case Stmt::BreakStmtClass: return node("break", S);
    case Stmt::ContinueStmtClass: return node("cont", S);
    case Stmt::NullStmtClass: return node("null", S);
    case Stmt::ReturnStmtClass: {
      json::Object o = node("ret", S);
      o["e"] = optE(cast<ReturnStmt>(S)->getRetValue());
      return o;
    }
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      json::Object o = node("try", S);
      o["b"] = stmt(T->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        json::Object h = node("catch", H);
        if (H->getExceptionDecl()) h["v"] = varDecl(H->getExceptionDecl());
        if (!H->getCaughtType().isNull()) {
          h["t"] = ty(H->getCaughtType().getNonReferenceType());
        }
        h["b"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      return o;
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::LabelStmtClass: {
      json::Object o = node("label", S);
      o["n"] = cast<LabelStmt>(S)->getDecl()->getNameAsString();
      o["s"] = stmt(cast<LabelStmt>(S)->getSubStmt());
      return o;
    }
    case Stmt::GotoStmtClass: {
      json::Object o = node("goto", S);
      o["n"] = cast<GotoStmt>(S)->getLabel()->getNameAsString();
      return o;
    }
    default: {
      json::Object o = node("unk", S);
      o["n"] = S->getStmtClassName();
      json::Array a;
      for (auto *c : S->children()) if (c) a.push_back(stmt(c));
      o["ch"] = std::move(a);
      return o;
    }
    }
  }

  void calleeInto(json::Object &o, const FunctionDecl *F) {
    o["f"] = key(F);
    o["n"] = F->getQualifiedNameAsString();
    o["root"] = inRoot(F->getLocation());
    if (F->isNoReturn()) o["nr"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["mc"] = recName(M->getParent());
      cls(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
    }
    // reference-ness of the parameters
    json::Array pr;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      std::string s = "v";
      if (T->isReferenceType()) s = T.getNonReferenceType().isConstQualified() ? "c" : (T->isRValueReferenceType() ? "m" : "r");
      else if (T->isPointerType()) s = T->getPointeeType().isConstQualified() ? "q" : "p";
      pr.push_back(s);
    }
    o["pr"] = std::move(pr);
    o["rt"] = ty(F->getReturnType());
    if (F->isVariadic()) o["va"] = true;
    if (F->isFunctionTemplateSpecialization() || (isa<CXXMethodDecl>(F) && F->getTemplateInstantiationPattern())) {
      const FunctionDecl *D = nullptr;
      if (F->hasBody(D) && inRoot(D->getLocation())) want(D);
    }
    if (auto *A = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &x : A->asArray()) {
        std::string s; llvm::raw_string_ostream os(s);
        x.print(PP, os, true); os.flush();
        ta.push_back(s);
      }
      o["ta"] = std::move(ta);
    }
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    json::Value v = expr0(E);
    return v;
  }

  json::Value constOf(const Expr *E, bool &ok) {
    ok = false;
    if (E->isValueDependent() || E->isTypeDependent() || !E->isPRValue()) return nullptr;
    QualType T = E->getType();
    if (T->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && !R.HasSideEffects) {
        ok = true;
        json::Object o = node("int", E);
        llvm::APSInt I = R.Val.getInt();
        if (I.isSigned() || I.getActiveBits() < 64) o["v"] = (int64_t)I.getExtValue();
        else { llvm::SmallString<32> s; I.toString(s, 10); o["vs"] = s.str().str(); }
        o["t"] = ty(T);
        return o;
      }
    }
    if (T->isRealFloatingType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isFloat()) {
        ok = true;
        json::Object o = node("flt", E);
        llvm::SmallString<64> s;
        R.Val.getFloat().toString(s, 0, 0);
        o["v"] = s.str().str();
        o["t"] = ty(T);
        return o;
      }
    }
    return nullptr;
  }

  json::Value expr0(const Expr *E) {
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: {
      json::Object o = node("full", E);
      o["e"] = expr(cast<ExprWithCleanups>(E)->getSubExpr());
      return o;
    }
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: {
      json::Object o = node("tmp", E);
      o["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
      typeInto(o, E->getType());
      return o;
    }
    case Stmt::CXXDefaultArgExprClass: {
      json::Value v = expr(cast<CXXDefaultArgExpr>(E)->getExpr());
      if (auto *o = v.getAsObject()) (*o)["da"] = true;
      return v;
    }
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::CXXStdInitializerListExprClass: return expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
    case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    default: break;
    }
    if (!isa<CallExpr>(E) || E->isPRValue()) {
      bool ok = false;
      // fold constants, but keep calls that merely happen to be constexpr in repo code
      if (!isa<ConditionalOperator>(E)) {
        json::Value v = constOf(E, ok);
        if (ok) return v;
      } else {
        json::Value v = constOf(E, ok);
        if (ok) return v;
      }
    }
    switch (E->getStmtClass()) {
    case Stmt::StringLiteralClass: {
      json::Object o = node("str", E);
      auto *L = cast<StringLiteral>(E);
      std::string s;
      if (L->getCharByteWidth() == 1) {
        for (unsigned char c : L->getBytes()) { // latin-1 to utf-8
          if (c < 0x80) s += (char)c; else { s += (char)(0xC0 | (c >> 6)); s += (char)(0x80 | (c & 0x3F)); }
        }
      }
      o["v"] = s;
      return o;
    }
    case Stmt::SourceLocExprClass: {
      if (!E->getType()->isPointerType()) { json::Object o = node("int", E); o["v"] = 0; return o; }
      json::Object o = node("str", E);
      o["v"] = "";
      return o;
    }
    case Stmt::PredefinedExprClass: {
      json::Object o = node("str", E);
      o["v"] = "";
      return o;
    }
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: return node("nullp", E);
    case Stmt::CXXThisExprClass: {
      json::Object o = node("this", E);
      return o;
    }
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        json::Object o = node("fn", E);
        calleeInto(o, F);
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        json::Object o = node("var", E);
        o["n"] = V->getNameAsString();
        typeInto(o, V->getType());
        if (V->hasGlobalStorage()) {
          o["g"] = gkey(V);
          want(V);
        } else
          o["id"] = idOf(V);
        return o;
      }
      json::Object o = node("unk", E);
      o["n"] = "DeclRef";
      o["q"] = D->getQualifiedNameAsString();
      return o;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        json::Object o = node("var", E);
        o["n"] = V->getNameAsString();
        typeInto(o, V->getType());
        o["g"] = gkey(V);
        want(V);
        return o;
      }
      json::Object o = node("mem", E);
      o["b"] = expr(M->getBase());
      o["arrow"] = M->isArrow();
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        o["n"] = F->getNameAsString();
        o["fc"] = recName(F->getParent());
        if (auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) cls(R);
        typeInto(o, F->getType());
      } else {
        o["n"] = M->getMemberDecl()->getNameAsString();
      }
      return o;
    }
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(E);
      if (U->getOpcode() == UO_Extension) return expr(U->getSubExpr());
      json::Object o = node("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) o["post"] = true;
      o["e"] = expr(U->getSubExpr());
      o["t"] = ty(E->getType());
      return o;
    }
    case Stmt::CompoundAssignOperatorClass:
    case Stmt::BinaryOperatorClass: {
      auto *B = cast<BinaryOperator>(E);
      json::Object o = node(B->isAssignmentOp() ? "asg" : "bin", E);
      o["op"] = B->getOpcodeStr().str();
      o["a"] = expr(B->getLHS());
      o["b"] = expr(B->getRHS());
      o["t"] = ty(E->getType());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) o["ct"] = ty(CA->getComputationResultType());
      return o;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *B = cast<ConditionalOperator>(E);
      json::Object o = node("cond", E);
      o["c"] = expr(B->getCond());
      o["a"] = expr(B->getTrueExpr());
      o["b"] = expr(B->getFalseExpr());
      o["t"] = ty(E->getType());
      return o;
    }
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXDynamicCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass: {
      auto *K = cast<CastExpr>(E);
      if (K->getCastKind() == CK_NoOp && !isa<CXXReinterpretCastExpr>(E)) return expr(K->getSubExpr());
      if (K->getCastKind() == CK_LValueToRValue) {
        json::Object o = node("rd", E);
        o["e"] = expr(K->getSubExpr());
        o["t"] = ty(E->getType());
        return o;
      }
      if (K->getCastKind() == CK_ConstructorConversion || K->getCastKind() == CK_UserDefinedConversion ||
          K->getCastKind() == CK_FunctionToPointerDecay)
        return expr(K->getSubExpr());
      json::Object o = node("cast", E);
      o["ck"] = K->getCastKindName();
      typeInto(o, E->getType());
      o["ft"] = ty(K->getSubExpr()->getType());
      o["lv"] = E->isGLValue();
      if (isa<CXXDynamicCastExpr>(E)) o["dyn"] = true;
      o["e"] = expr(K->getSubExpr());
      return o;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(E);
      json::Object o = node("idx", E);
      o["b"] = expr(A->getBase());
      o["i"] = expr(A->getIdx());
      o["it"] = ty(A->getIdx()->getType());
      typeInto(o, E->getType());
      // array extent if known
      const Expr *B = A->getBase()->IgnoreParenImpCasts();
      if (auto *CA = C.getAsConstantArrayType(B->getType())) o["n"] = (int64_t)CA->getSize().getZExtValue();
      return o;
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto *K = cast<CXXConstructExpr>(E);
      json::Object o = node("ctor", E);
      calleeInto(o, K->getConstructor());
      typeInto(o, E->getType());
      json::Array a;
      for (auto *x : K->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      if (K->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      if (K->getConstructor()->isDefaultConstructor()) o["dflt"] = true;
      if (K->isElidable()) o["elide"] = true;
      if (K->requiresZeroInitialization()) o["zero"] = true;
      if (K->getConstructor()->isTrivial()) o["triv"] = true;
      noteF(K->getConstructor());
      return o;
    }
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(E);
      json::Object o = node("new", E);
      typeInto(o, N->getAllocatedType());
      o["arr"] = N->isArray();
      if (N->isArray() && N->getArraySize()) o["n"] = expr(*N->getArraySize());
      if (N->getInitializer()) o["init"] = expr(N->getInitializer());
      o["nothrow"] = N->shouldNullCheckAllocation();
      return o;
    }
    case Stmt::CXXDeleteExprClass: {
      auto *D = cast<CXXDeleteExpr>(E);
      json::Object o = node("del", E);
      o["arr"] = D->isArrayForm();
      o["e"] = expr(D->getArgument());
      typeInto(o, D->getDestroyedType());
      return o;
    }
    case Stmt::CXXThrowExprClass: {
      json::Object o = node("throw", E);
      auto *T = cast<CXXThrowExpr>(E)->getSubExpr();
      o["e"] = optE(T);
      if (T) typeInto(o, T->getType());
      return o;
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *M = cast<CXXMemberCallExpr>(E);
      json::Object o = node("call", E);
      if (auto *D = M->getMethodDecl()) {
        calleeInto(o, D);
        noteF(D);
      }
      const Expr *cal = M->getCallee()->IgnoreParens();
      bool virt = false;
      if (auto *ME = dyn_cast<MemberExpr>(cal)) {
        o["obj"] = expr(ME->getBase());
        o["arrow"] = ME->isArrow();
        QualType OT = ME->isArrow() ? ME->getBase()->getType()->getPointeeType() : ME->getBase()->getType();
        if (auto *R = OT.getCanonicalType()->getAsCXXRecordDecl()) { o["oc"] = recName(R); cls(R); }
        virt = M->getMethodDecl() && M->getMethodDecl()->isVirtual() && !ME->hasQualifier();
      }
      o["vc"] = virt;
      json::Array a;
      for (auto *x : M->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      o["t"] = ty(E->getType());
      o["lv"] = E->isGLValue();
      return o;
    }
    case Stmt::CXXOperatorCallExprClass:
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto *K = cast<CallExpr>(E);
      json::Object o = node("call", E);
      bool isM = false;
      if (auto *D = K->getDirectCallee()) {
        calleeInto(o, D);
        noteF(D);
        isM = isa<CXXMethodDecl>(D) && !cast<CXXMethodDecl>(D)->isStatic() && isa<CXXOperatorCallExpr>(E);
      } else
        o["fe"] = expr(K->getCallee());
      json::Array a;
      unsigned i = 0;
      for (auto *x : K->arguments()) {
        if (isM && i == 0) {
          o["obj"] = expr(x);
          o["arrow"] = false;
          if (auto *R = x->getType().getCanonicalType()->getAsCXXRecordDecl()) { o["oc"] = recName(R); cls(R); }
          o["vc"] = K->getDirectCallee() && cast<CXXMethodDecl>(K->getDirectCallee())->isVirtual();
        } else
          a.push_back(expr(x));
        ++i;
      }
      o["a"] = std::move(a);
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) o["op"] = getOperatorSpelling(OC->getOperator());
      o["t"] = ty(E->getType());
      o["lv"] = E->isGLValue();
      return o;
    }
    case Stmt::InitListExprClass: {
      auto *L = cast<InitListExpr>(E);
      if (L->isSemanticForm() == false && L->getSemanticForm()) L = L->getSemanticForm();
      json::Object o = node("init", E);
      typeInto(o, E->getType());
      json::Array a;
      for (auto *x : L->inits()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    case Stmt::CXXScalarValueInitExprClass:
    case Stmt::ImplicitValueInitExprClass: {
      json::Object o = node("zero", E);
      typeInto(o, E->getType());
      return o;
    }
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(E);
      json::Object o = node("lambda", E);
      auto *OpM = L->getCallOperator();
      o["f"] = key(OpM);
      json::Array caps;
      auto init = L->capture_init_begin();
      for (auto &cp : L->captures()) {
        json::Object c;
        c["this"] = cp.capturesThis();
        if (cp.capturesVariable()) { c["id"] = idOf(cp.getCapturedVar()); c["n"] = cp.getCapturedVar()->getNameAsString(); }
        c["ref"] = cp.getCaptureKind() == LCK_ByRef;
        if (*init) c["e"] = expr(*init);
        ++init;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      typeInto(o, E->getType());
      work.push_back(OpM);
      return o;
    }
    default: {
      json::Object o = node("unk", E);
      o["n"] = E->getStmtClassName();
      typeInto(o, E->getType());
      json::Array a;
      for (auto *c : E->children())
        if (auto *x = dyn_cast_or_null<Expr>(c)) a.push_back(expr(x));
      o["ch"] = std::move(a);
      return o;
    }
    }
  }

  void noteF(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D) && inRoot(D->getLocation())) want(D);
  }
  void want(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    work.push_back(F);
  }
  void want(const VarDecl *V) {
    const VarDecl *D = V->getDefinition() ? V->getDefinition() : V;
    if (!inRoot(D->getLocation())) return;
    std::string k = gkey(V);
    if (!doneG.insert(k).second) return;
    const Expr *I = D->getAnyInitializer();
    json::Object o;
    o["n"] = D->getQualifiedNameAsString();
    typeInto(o, D->getType());
    o["const"] = D->getType().isConstQualified() || (C.getAsArrayType(D->getType()) && C.getAsArrayType(D->getType())->getElementType().isConstQualified());
    o["file"] = fileOf(D->getLocation());
    o["line"] = (int64_t)lineOf(D->getLocation());
    if (auto *CA = C.getAsConstantArrayType(D->getType())) o["arr"] = (int64_t)CA->getSize().getZExtValue();
    if (I) o["init"] = expr(I);
    o["def"] = V->getDefinition() != nullptr;
    globals[k] = std::move(o);
  }

  void emitF(const FunctionDecl *F) {
    const Stmt *B = F->getBody();
    if (!B) return;
    std::string k = key(F);
    if (!doneF.insert(k).second) return;
    json::Object o;
    o["key"] = k;
    o["name"] = F->getNameAsString();
    o["qual"] = F->getQualifiedNameAsString();
    o["file"] = fileOf(F->getLocation());
    o["line"] = (int64_t)lineOf(F->getLocation());
    o["endline"] = (int64_t)lineOf(F->getEndLoc());
    o["rt"] = ty(F->getReturnType());
    if (F->isNoReturn()) o["nr"] = true;
    json::Object rto; typeInto(rto, F->getReturnType());
    if (rto.get("c")) o["rc"] = *rto.get("c");
    json::Array ps;
    for (auto *P : F->parameters()) {
      json::Object p;
      p["id"] = idOf(P);
      p["n"] = P->getNameAsString();
      typeInto(p, P->getType());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) p["def"] = expr(P->getDefaultArg());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["class"] = recName(M->getParent());
      o["virt"] = M->isVirtual();
      o["static"] = M->isStatic();
      o["const"] = M->isConst();
      o["implicit"] = M->isImplicit() || M->isDefaulted();
      o["acc"] = (int64_t)M->getAccess();
      json::Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(key(O->getCanonicalDecl()));
      o["over"] = std::move(ov);
      cls(M->getParent());
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["kind"] = "ctor";
      if (CD->isCopyConstructor()) o["copyctor"] = true;
      if (CD->isMoveConstructor()) o["movector"] = true;
      if (CD->isDefaultConstructor()) o["dfltctor"] = true;
      json::Array in;
      for (auto *I : CD->inits()) {
        json::Object i;
        i["l"] = (int64_t)lineOf(I->getSourceLocation());
        i["written"] = I->isWritten();
        if (I->isAnyMemberInitializer()) {
          i["m"] = I->getAnyMember()->getNameAsString();
          i["fc"] = recName(I->getAnyMember()->getParent());
          typeInto(i, I->getAnyMember()->getType());
        } else if (I->isBaseInitializer()) {
          i["base"] = ty(QualType(I->getBaseClass(), 0));
        } else
          i["deleg"] = true;
        i["e"] = expr(I->getInit());
        in.push_back(std::move(i));
      }
      o["inits"] = std::move(in);
    } else if (isa<CXXDestructorDecl>(F))
      o["kind"] = "dtor";
    else if (isa<CXXMethodDecl>(F)) {
      o["kind"] = "method";
      if (cast<CXXMethodDecl>(F)->isCopyAssignmentOperator()) o["copyasg"] = true;
    } else
      o["kind"] = "func";
    if (F->getTemplateSpecializationArgs() || F->getTemplateInstantiationPattern()) o["inst"] = true;
    if (auto *A = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &x : A->asArray()) {
        std::string s; llvm::raw_string_ostream os(s);
        x.print(PP, os, true); os.flush();
        ta.push_back(s);
      }
      o["ta"] = std::move(ta);
    }
    o["body"] = stmt(B);
    functions[k] = std::move(o);
  }

  void drain() {
    while (!work.empty() || !cwork.empty()) {
      if (!work.empty()) {
        auto *F = work.front(); work.pop_front();
        emitF(F);
      } else {
        auto *R = cwork.front(); cwork.pop_front();
        emitClass(R);
      }
    }
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Exporter &X;
  explicit Visitor(Exporter &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && !F->isDependentContext() && X.inRoot(F->getLocation())) X.want(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->getType()->isDependentType() && !V->getDeclContext()->isDependentContext() && X.inRoot(V->getLocation()) && !V->isStaticLocal()) X.want(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && X.inRoot(R->getLocation())) X.cls(R);
    return true;
  }
};

class Consumer : public ASTConsumer {
  std::string tu;
  CompilerInstance &CI;
public:
  Consumer(std::string t, CompilerInstance &c) : tu(t), CI(c) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C, tu);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    X.drain();
    json::Object o;
    o["tu"] = tu;
    o["functions"] = std::move(X.functions);
    o["classes"] = std::move(X.classes);
    o["globals"] = std::move(X.globals);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override {
    return std::make_unique<Consumer>(f.str(), CI);
  }
};
} // namespace

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
