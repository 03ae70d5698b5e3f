// psi-extract: dumps the resolved, normalised AST of every function defined
// under the repository root of one translation unit as JSON.
#include <map>
#include <set>
#include <string>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace json = llvm::json;
using V = json::Value; using O = json::Object; using A = json::Array;
static std::string gRepo = "/repo/", gOut;
static V i64(const llvm::APSInt& i) { if ((i.isUnsigned() ? i.getActiveBits() : i.getSignificantBits()) <= 53) return V((int64_t)i.getExtValue()); llvm::SmallString<40> b; i.toString(b, 10); return V(b.str().str()); }

struct X {
  ASTContext& C; SourceManager& SM; PrintingPolicy PP;
  std::map<const void*, int> tid; A types;
  std::map<const Decl*, int> did; int nextDid = 1;
  std::vector<const FunctionDecl*> pendingCallees;
  X(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) { PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true; PP.SuppressUnwrittenScope = true; PP.TerseOutput = true; PP.SuppressDefaultTemplateArgs = true; }
  int declId(const Decl* d) { d = d->getCanonicalDecl(); auto it = did.find(d); if (it != did.end()) return it->second; return did[d] = nextDid++; }
  std::string fileOf(SourceLocation l) { l = SM.getExpansionLoc(l); auto p = SM.getPresumedLoc(l, false); return p.isValid() ? std::string(p.getFilename()) : ""; }
  bool inRepo(SourceLocation l) { if (l.isInvalid()) return false; auto f = fileOf(l); return f.rfind(gRepo, 0) == 0; }
  int line(SourceLocation l) { return (int)SM.getExpansionLineNumber(l); }
  std::string rel(const std::string& f) { return f.rfind(gRepo, 0) == 0 ? f.substr(gRepo.size()) : f; }
  std::string qn(const NamedDecl* d) { std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os, PP); os.flush(); std::string r; size_t p = 0; while (true) { size_t q = s.find("(anonymous namespace)::", p); if (q == std::string::npos) { r += s.substr(p); break; } r += s.substr(p, q - p); p = q + 23; } 
    // inline std namespaces
    for (const char* k : {"std::__cxx11::", "absl::lts_20220623::"}) { std::string ks(k); std::string to = ks.substr(0, ks.find("::") + 2); size_t i; while ((i = r.find(ks)) != std::string::npos) r.replace(i, ks.size(), to); }
    return r; }
  std::string usr(const Decl* d) { llvm::SmallString<128> b; if (index::generateUSRForDecl(d, b)) return ""; return b.str().str(); }
  int type(QualType q) {
    if (q.isNull()) return -1;
    const void* key = q.getAsOpaquePtr(); auto it = tid.find(key); if (it != tid.end()) return it->second;
    int id = types.size(); tid[key] = id; types.push_back(nullptr);
    O o; QualType cq = q.getCanonicalType(); o["s"] = q.getAsString(PP);
    QualType nr = cq.getNonReferenceType();
    if (cq->isLValueReferenceType()) o["ref"] = 1; if (cq->isRValueReferenceType()) o["rref"] = 1;
    if (nr.isConstQualified()) o["const"] = 1;
    QualType pt = nr; if (nr->isPointerType()) { o["ptr"] = 1; pt = nr->getPointeeType(); if (pt.isConstQualified()) o["cptr"] = 1; }
    if (nr->isIntegralOrEnumerationType() && !nr->isDependentType() && !nr->isIncompleteType()) { o["int"] = (int)C.getTypeSize(nr); o["sgn"] = nr->isSignedIntegerOrEnumerationType() ? 1 : 0; if (nr->isBooleanType()) o["bool"] = 1; }
    if (nr->isFloatingType()) o["flt"] = 1;
    if (auto* ar = C.getAsConstantArrayType(nr)) { o["arr"] = (int64_t)ar->getSize().getZExtValue(); o["elt"] = type(ar->getElementType()); }
    if (auto* et = pt->getAs<EnumType>()) o["enum"] = qn(et->getDecl());
    if (auto* rd = pt->getAsCXXRecordDecl()) { o["rec"] = qn(rd); if (auto* ts = dyn_cast<ClassTemplateSpecializationDecl>(rd)) { A ta; for (auto& a : ts->getTemplateArgs().asArray()) { if (a.getKind() == TemplateArgument::Type) ta.push_back(type(a.getAsType())); else if (a.getKind() == TemplateArgument::Integral) ta.push_back(i64(a.getAsIntegral())); else if (a.getKind() == TemplateArgument::Pack) { for (auto& b : a.pack_elements()) if (b.getKind() == TemplateArgument::Type) ta.push_back(type(b.getAsType())); } } o["ta"] = std::move(ta); } }
    types[id] = std::move(o); return id;
  }
  O mk(const char* k, SourceLocation l) { O o; o["k"] = k; o["l"] = line(l); return o; }
  V ex(const Expr* e) { O o = ex0(e); return o; }
  A exs(llvm::ArrayRef<const Expr*> v) { A a; for (auto* e : v) a.push_back(ex(e)); return a; }
  template <typename R> A args(R r) { A a; for (const Expr* e : r) { a.push_back(ex(e)); } return a; }
  bool constInt(const Expr* e, O& o) {
    if (e->isValueDependent() || e->isTypeDependent()) return false; QualType t = e->getType(); if (!t->isIntegralOrEnumerationType()) return false;
    Expr::EvalResult r; if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) { o["cv"] = i64(r.Val.getInt()); return true; } return false; }
  void fnref(O& o, const FunctionDecl* f) {
    o["f"] = qn(f); o["u"] = usr(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) { if (m->isVirtual()) o["virt"] = 1; if (m->isStatic()) o["static"] = 1; if (m->isConst()) o["constm"] = 1; }
    { std::string ff = SM.getFilename(SM.getExpansionLoc(f->getLocation())).str(); if (ff.size() > 5 && ff.compare(ff.size() - 5, 5, ".pb.h") == 0) o["pb"] = 1; if (f->isDefaulted() && !f->isUserProvided()) o["dflt"] = 1; }
    if (auto* ta = f->getTemplateSpecializationArgs()) { A a; for (auto& x : ta->asArray()) { if (x.getKind() == TemplateArgument::Type) a.push_back(type(x.getAsType())); else if (x.getKind() == TemplateArgument::Integral) a.push_back(i64(x.getAsIntegral())); } o["ta"] = std::move(a); }
    A pt; for (auto* p : f->parameters()) { pt.push_back(type(p->getType())); } o["pt"] = std::move(pt);
  }
  O ex0(const Expr* e) {
    if (!e) { O o; o["k"] = "none"; return o; }
    // Transparent nodes.
    while (true) {
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { e = x->getSourceExpr(); continue; } }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        // Keep narrowing integer conversions visible; drop everything else.
        QualType a = x->getSubExpr()->getType(), b = x->getType();
        if (x->getCastKind() == CK_IntegralCast && !a->isDependentType() && !b->isDependentType() && !b->isBooleanType() && !a->isEnumeralType() && C.getTypeSize(b) < C.getTypeSize(a)) { O t; if (!constInt(x, t)) { O o = mk("cast", x->getBeginLoc()); o["t"] = type(b); o["imp"] = 1; o["e"] = ex(x->getSubExpr()); return o; } }
        e = x->getSubExpr(); continue;
      }
      break;
    }
    SourceLocation L = e->getExprLoc(); if (L.isInvalid()) L = e->getBeginLoc();
    if (auto* x = dyn_cast<IntegerLiteral>(e)) { O o = mk("int", L); constInt(x, o); if (!o.get("cv")) { llvm::SmallString<40> s; x->getValue().toStringUnsigned(s); o["cv"] = s.str().str(); } o["t"] = type(e->getType()); return o; }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) { O o = mk("int", L); o["cv"] = (int64_t)x->getValue(); return o; }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { O o = mk("bool", L); o["cv"] = x->getValue() ? 1 : 0; return o; }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) { O o = mk("flt", L); llvm::SmallString<32> s; x->getValue().toString(s); o["cv"] = s.str().str(); return o; }
    if (auto* x = dyn_cast<clang::StringLiteral>(e)) { O o = mk("str", L); o["cv"] = x->isOrdinary() || x->isUTF8() ? json::fixUTF8(x->getString()) : std::string("?"); return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return mk("null", L);
    if (isa<PredefinedExpr>(e)) { O o = mk("str", L); o["cv"] = "__func__"; return o; }
    if (isa<CXXThisExpr>(e)) return mk("this", L);
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { O o = mk("enum", L); o["n"] = qn(ec); o["cv"] = i64(ec->getInitVal()); return o; }
      if (auto* f = dyn_cast<FunctionDecl>(d)) { O o = mk("fn", L); fnref(o, f); return o; }
      O o = mk("var", L); o["n"] = d->getNameAsString(); o["t"] = type(d->getType());
      if (auto* v = dyn_cast<VarDecl>(d)) { bool glob = v->hasGlobalStorage(); if (glob) { o["g"] = qn(v); constInt(x, o); if (v->isStaticLocal()) { o["g"] = "static:" + qn(v) + "#" + std::to_string(line(v->getLocation())); } } else { o["id"] = declId(v); if (v->isConstexpr() || (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType())) constInt(x, o); } if (isa<ParmVarDecl>(v)) o["p"] = 1; }
      else if (auto* b = dyn_cast<BindingDecl>(d)) { o["id"] = declId(b); if (b->getBinding()) { } }
      else { o["id"] = declId(d); }
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) { O o = mk("var", L); o["n"] = v->getNameAsString(); o["g"] = qn(v); o["t"] = type(v->getType()); constInt(x, o); return o; }
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { O o = mk("enum", L); o["n"] = qn(ec); o["cv"] = i64(ec->getInitVal()); return o; }
      if (auto* f = dyn_cast<FunctionDecl>(d)) { O o = mk("fn", L); fnref(o, f); o["b"] = ex(x->getBase()); return o; }
      O o = mk("mem", L); o["n"] = d->getNameAsString(); o["c"] = [&] { auto* rd = dyn_cast<CXXRecordDecl>(d->getDeclContext()); return rd ? qn(rd) : std::string(); }(); o["b"] = ex(x->getBase()); o["t"] = type(d->getType()); if (x->isArrow()) o["arrow"] = 1; return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      O o = mk("opcall", L); o["op"] = getOperatorSpelling(x->getOperator());
      if (auto* f = x->getDirectCallee()) { fnref(o, f); if (isa<CXXMethodDecl>(f)) o["meth"] = 1; }
      o["a"] = args(x->arguments()); o["t"] = type(x->getType()); return o;
    }
    if (auto* x = dyn_cast<UserDefinedLiteral>(e)) { O o = mk("call", L); if (auto* f = x->getDirectCallee()) fnref(o, f); o["a"] = args(x->arguments()); o["t"] = type(x->getType()); return o; }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      O o = mk("call", L); o["t"] = type(x->getType());
      const Expr* obj = x->getImplicitObjectArgument();
      if (auto* m = x->getMethodDecl()) { 
        if (isa<CXXConversionDecl>(m)) { O c = mk("conv", L); c["t"] = type(x->getType()); fnref(c, m); c["e"] = ex(obj); return c; }
        fnref(o, m); if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { if (me->hasQualifier()) o["qual"] = 1; if (me->isArrow()) o["arrow"] = 1; } if (auto* rd = obj ? obj->getType()->isPointerType() ? obj->getType()->getPointeeType()->getAsCXXRecordDecl() : obj->getType()->getAsCXXRecordDecl() : nullptr) o["oc"] = qn(rd); }
      else o["fe"] = ex(x->getCallee());
      o["o"] = obj ? ex(obj) : V(nullptr); o["a"] = args(x->arguments()); return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      O o = mk("call", L); o["t"] = type(x->getType());
      if (auto* f = x->getDirectCallee()) { fnref(o, f); if (f->isNoReturn()) o["noret"] = 1; }
      else o["fe"] = ex(x->getCallee());
      o["a"] = args(x->arguments()); return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      auto* cd = x->getConstructor();
      if (x->getNumArgs() == 1 && (cd->isCopyOrMoveConstructor())) { // copy/move of a value
        O o = mk("copy", L); o["t"] = type(x->getType()); if (cd->isMoveConstructor()) o["mv"] = 1; o["e"] = ex(x->getArg(0)); return o; }
      O o = mk("ctor", L); o["t"] = type(x->getType()); o["c"] = qn(cd->getParent()); fnref(o, cd); o["a"] = args(x->arguments()); if (x->isListInitialization()) o["list"] = 1; return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { O o = mk("ctor", L); o["t"] = type(x->getType()); o["c"] = qn(x->getConstructor()->getParent()); fnref(o, x->getConstructor()); o["a"] = A(); return o; }
    if (auto* x = dyn_cast<CXXTemporaryObjectExpr>(e)) { (void)x; }
    if (auto* x = dyn_cast<CXXFunctionalCastExpr>(e)) { if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion) return ex0(x->getSubExpr()); O o = mk("cast", L); o["t"] = type(x->getType()); o["e"] = ex(x->getSubExpr()); return o; }
    if (auto* x = dyn_cast<CastExpr>(e)) { if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion) return ex0(x->getSubExpr()); O o = mk("cast", L); if (isa<CXXReinterpretCastExpr>(e)) o["re"] = 1; o["t"] = type(x->getType()); o["e"] = ex(x->getSubExpr()); return o; }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      if (x->isAssignmentOp()) { O o = mk("assign", L); o["op"] = x->getOpcodeStr().str(); o["x"] = ex(x->getLHS()); o["y"] = ex(x->getRHS()); return o; }
      O o = mk("bin", L); o["op"] = x->getOpcodeStr().str(); o["x"] = ex(x->getLHS()); o["y"] = ex(x->getRHS()); o["t"] = type(x->getType()); constInt(x, o); return o;
    }
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return ex0(x->getSemanticForm());
    if (auto* x = dyn_cast<UnaryOperator>(e)) { O o = mk("un", L); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = 1; o["e"] = ex(x->getSubExpr()); o["t"] = type(x->getType()); constInt(x, o); return o; }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { O o = mk("idx", L); o["b"] = ex(x->getBase()); o["i"] = ex(x->getIdx()); o["t"] = type(x->getType()); return o; }
    if (auto* x = dyn_cast<BinaryConditionalOperator>(e)) { O o = mk("cond", L); o["c"] = ex(x->getCommon()); o["x"] = ex(x->getCommon()); o["y"] = ex(x->getFalseExpr()); return o; }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) { O o = mk("cond", L); o["c"] = ex(x->getCond()); o["x"] = ex(x->getTrueExpr()); o["y"] = ex(x->getFalseExpr()); o["t"] = type(x->getType()); return o; }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      O o = mk("lambda", L); o["file"] = rel(fileOf(L)); A caps; unsigned i = 0;
      for (auto c = x->capture_begin(); c != x->capture_end(); ++c, ++i) { O k; if (c->capturesThis()) k["this"] = 1; else if (c->capturesVariable()) { auto* v = c->getCapturedVar(); k["id"] = declId(v); k["n"] = v->getNameAsString(); k["ref"] = c->getCaptureKind() == LCK_ByRef ? 1 : 0; if (auto* vd = dyn_cast<VarDecl>(v)) if (vd->isInitCapture() && vd->getInit()) k["init"] = ex(vd->getInit()); } caps.push_back(std::move(k)); }
      o["caps"] = std::move(caps); if (x->getCaptureDefault() == LCD_ByRef) o["def"] = "&"; if (x->getCaptureDefault() == LCD_ByCopy) o["def"] = "=";
      const CXXMethodDecl* op = x->getCallOperator(); const Stmt* body = x->getBody();
      // Generic lambda: use an instantiation if there is one.
      if (x->isGenericLambda()) { if (auto* ft = x->getDependentCallOperator()) for (auto* sp : ft->specializations()) { if (sp->getBody()) { op = cast<CXXMethodDecl>(sp); body = sp->getBody(); break; } } }
      A ps; for (auto* p : op->parameters()) { O q; q["n"] = p->getNameAsString(); q["id"] = declId(p); q["t"] = type(p->getType()); ps.push_back(std::move(q)); }
      o["ps"] = std::move(ps); o["u"] = usr(op); o["body"] = st(body); return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) { const InitListExpr* s = x; if (x->getSemanticForm()) s = x->getSemanticForm(); O o = mk("init", L); o["t"] = type(e->getType()); 
      if (auto* rd = e->getType()->getAsCXXRecordDecl()) { A n; for (auto& b : rd->bases()) { (void)b; n.push_back(""); } for (auto* f : rd->fields()) { if (f->isUnnamedBitfield()) continue; n.push_back(f->getNameAsString()); } o["fn"] = std::move(n); o["c"] = qn(rd); }
      o["a"] = args(s->inits()); return o; }
    if (auto* x = dyn_cast<CXXParenListInitExpr>(e)) { O o = mk("init", L); o["t"] = type(e->getType()); A a; for (auto* i : const_cast<CXXParenListInitExpr*>(x)->getInitExprs()) a.push_back(ex(i)); o["a"] = std::move(a); return o; }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) { O o = mk("new", L); o["t"] = type(x->getAllocatedType()); if (x->getArraySize()) o["n"] = ex(*x->getArraySize()); if (x->getInitializer()) o["e"] = ex(x->getInitializer()); return o; }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { O o = mk("delete", L); o["e"] = ex(x->getArgument()); return o; }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) { O o = mk("throw", L); o["e"] = x->getSubExpr() ? ex(x->getSubExpr()) : V(nullptr); if (x->getSubExpr()) o["t"] = type(x->getSubExpr()->getType()); return o; }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { O o = mk("sizeof", L); o["st"] = type(x->getTypeOfArgument()); constInt(x, o); return o; }
    if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) { O o = mk("int", L); o["cv"] = 0; o["t"] = type(x->getType()); return o; }
    if (isa<ImplicitValueInitExpr>(e)) { O o = mk("zero", L); o["t"] = type(e->getType()); return o; }
    if (auto* x = dyn_cast<CXXNoexceptExpr>(e)) { O o = mk("bool", L); o["cv"] = x->getValue() ? 1 : 0; return o; }
    if (auto* x = dyn_cast<TypeTraitExpr>(e)) { O o = mk("bool", L); if (!x->isValueDependent()) o["cv"] = x->getValue() ? 1 : 0; return o; }
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { (void)x; return mk("typeid", L); }
    if (auto* x = dyn_cast<SizeOfPackExpr>(e)) { O o = mk("int", L); constInt(x, o); return o; }
    if (auto* x = dyn_cast<CXXFoldExpr>(e)) { O o = mk("unk", L); A a; if (x->getPattern()) a.push_back(ex(x->getPattern())); o["a"] = std::move(a); return o; }
    if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) { O o = mk("dmem", L); o["n"] = x->getMember().getAsString(); if (!x->isImplicitAccess()) o["b"] = ex(x->getBase()); return o; }
    if (auto* x = dyn_cast<OverloadExpr>(e)) { O o = mk("dfn", L); o["n"] = x->getName().getAsString(); if (auto* m = dyn_cast<UnresolvedMemberExpr>(x)) if (!m->isImplicitAccess()) o["b"] = ex(m->getBase()); return o; }
    if (auto* x = dyn_cast<DependentScopeDeclRefExpr>(e)) { O o = mk("dfn", L); o["n"] = x->getDeclName().getAsString(); return o; }
    if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e)) { O o = mk("ctor", L); o["t"] = type(x->getTypeAsWritten()); o["c"] = x->getTypeAsWritten().getAsString(PP); A a; for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(ex(x->getArg(i))); o["a"] = std::move(a); return o; }
    if (auto* x = dyn_cast<StmtExpr>(e)) { O o = mk("stmtexpr", L); o["s"] = st(x->getSubStmt()); return o; }
    { O o = mk("unk", L); o["ek"] = e->getStmtClassName(); A a; for (auto* c : e->children()) if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(ex(ce)); o["a"] = std::move(a); return o; }
  }
  V varDecl(const VarDecl* v) {
    O o = mk("decl", v->getLocation()); o["n"] = v->getNameAsString(); o["id"] = declId(v); o["t"] = type(v->getType());
    if (v->isStaticLocal()) { o["static"] = 1; o["g"] = "static:" + qn(v) + "#" + std::to_string(line(v->getLocation())); }
    if (v->hasInit() && v->getInit()) o["e"] = ex(v->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) { A b; for (auto* bd : dd->bindings()) { O q; q["n"] = bd->getNameAsString(); q["id"] = declId(bd); if (auto* be = bd->getBinding()) { q["t"] = type(be->getType()); if (auto* me = dyn_cast<MemberExpr>(be->IgnoreParenImpCasts())) q["f"] = me->getMemberDecl()->getNameAsString(); } b.push_back(std::move(q)); } o["bind"] = std::move(b); }
    return o;
  }
  V st(const Stmt* s) {
    if (!s) return nullptr;
    SourceLocation L = s->getBeginLoc();
    if (auto* x = dyn_cast<CompoundStmt>(s)) { O o = mk("block", L); A a; for (auto* c : x->body()) a.push_back(st(c)); o["s"] = std::move(a); o["el"] = line(x->getRBracLoc()); return o; }
    if (auto* x = dyn_cast<DeclStmt>(s)) { A a; for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v)); if (a.size() == 1) return std::move(a[0]); O o = mk("decls", L); o["s"] = std::move(a); return o; }
    if (auto* x = dyn_cast<IfStmt>(s)) { O o = mk("if", L); if (x->getInit()) o["init"] = st(x->getInit()); if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable()); o["c"] = ex(x->getCond()); o["x"] = st(x->getThen()); o["y"] = st(x->getElse()); if (x->isConstexpr()) o["ce"] = 1; return o; }
    if (auto* x = dyn_cast<WhileStmt>(s)) { O o = mk("while", L); if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable()); o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
    if (auto* x = dyn_cast<DoStmt>(s)) { O o = mk("do", L); o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
    if (auto* x = dyn_cast<ForStmt>(s)) { O o = mk("for", L); o["i"] = st(x->getInit()); if (x->getCond()) o["c"] = ex(x->getCond()); if (x->getInc()) o["n"] = ex(x->getInc()); o["b"] = st(x->getBody()); return o; }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) { O o = mk("rfor", L); if (x->getInit()) o["init"] = st(x->getInit()); O vd; auto* v = x->getLoopVariable(); vd["n"] = v->getNameAsString(); vd["id"] = declId(v); vd["t"] = type(v->getType()); if (auto* dd = dyn_cast<DecompositionDecl>(v)) { A b; for (auto* bd : dd->bindings()) { O q; q["n"] = bd->getNameAsString(); q["id"] = declId(bd); if (auto* be = bd->getBinding()) { q["t"] = type(be->getType()); if (auto* me = dyn_cast<MemberExpr>(be->IgnoreParenImpCasts())) q["f"] = me->getMemberDecl()->getNameAsString(); } b.push_back(std::move(q)); } vd["bind"] = std::move(b); } o["v"] = std::move(vd); o["r"] = ex(x->getRangeInit()); o["b"] = st(x->getBody()); return o; }
    if (auto* x = dyn_cast<SwitchStmt>(s)) { O o = mk("switch", L); if (x->getInit()) o["init"] = st(x->getInit()); if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable()); o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
    if (auto* x = dyn_cast<CaseStmt>(s)) { O o = mk("case", L); o["v"] = ex(x->getLHS()); if (x->getRHS()) o["v2"] = ex(x->getRHS()); o["s"] = st(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { O o = mk("default", L); o["s"] = st(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { O o = mk("ret", L); if (x->getRetValue()) o["e"] = ex(x->getRetValue()); return o; }
    if (isa<BreakStmt>(s)) return mk("break", L);
    if (isa<ContinueStmt>(s)) return mk("continue", L);
    if (auto* x = dyn_cast<GotoStmt>(s)) { O o = mk("goto", L); o["n"] = x->getLabel()->getNameAsString(); return o; }
    if (auto* x = dyn_cast<LabelStmt>(s)) { O o = mk("label", L); o["n"] = x->getDecl()->getNameAsString(); o["s"] = st(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) { O o = mk("try", L); o["b"] = st(x->getTryBlock()); A hs; for (unsigned i = 0; i < x->getNumHandlers(); ++i) { auto* h = x->getHandler(i); O q = mk("catch", h->getBeginLoc()); if (h->getExceptionDecl()) { q["id"] = declId(h->getExceptionDecl()); q["n"] = h->getExceptionDecl()->getNameAsString(); q["t"] = type(h->getCaughtType()); } q["b"] = st(h->getHandlerBlock()); hs.push_back(std::move(q)); } o["h"] = std::move(hs); return o; }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
    if (isa<NullStmt>(s)) return mk("null", L);
    if (auto* x = dyn_cast<OMPExecutableDirective>(s)) { O o = mk("omp", L); o["s"] = x->hasAssociatedStmt() ? st(x->getAssociatedStmt()) : V(nullptr); return o; }
    if (auto* x = dyn_cast<CapturedStmt>(s)) return st(x->getCapturedStmt());
    if (auto* x = dyn_cast<Expr>(s)) { O o = mk("expr", L); o["e"] = ex(x); return o; }
    O o = mk("unkst", L); o["sk"] = s->getStmtClassName(); return o;
  }
  O func(const FunctionDecl* f) {
    O o; o["f"] = qn(f); o["u"] = usr(f); o["file"] = rel(fileOf(f->getLocation())); o["line"] = line(f->getLocation()); o["eline"] = line(f->getEndLoc()); o["rt"] = type(f->getReturnType());
    if (f->isTemplateInstantiation()) o["inst"] = 1;
    if (f->isExternC()) o["externc"] = 1;
    if (auto* pt = f->getType()->getAs<FunctionProtoType>()) if (pt->getExceptionSpecType() == EST_BasicNoexcept || pt->getExceptionSpecType() == EST_NoexceptTrue) o["noexc"] = 1;
    A ps; for (auto* p : f->parameters()) { O q; q["n"] = p->getNameAsString(); q["id"] = declId(p); q["t"] = type(p->getType()); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() && p->getDefaultArg()) q["dflt"] = ex(p->getDefaultArg()); ps.push_back(std::move(q)); } o["ps"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = qn(m->getParent()); if (m->isVirtual()) o["virt"] = 1; if (m->isStatic()) o["static"] = 1; if (m->isConst()) o["constm"] = 1; A ov; for (auto* b : m->overridden_methods()) ov.push_back(usr(b)); if (!ov.empty()) o["ov"] = std::move(ov); o["acc"] = m->getAccess() == AS_public ? "pub" : m->getAccess() == AS_protected ? "prot" : "priv"; }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) { o["ctor"] = 1; A in; for (auto* i : c->inits()) { O q; q["l"] = line(i->getSourceLocation()); if (i->isAnyMemberInitializer()) q["m"] = i->getAnyMember()->getNameAsString(); else if (i->isBaseInitializer()) { q["base"] = type(QualType(i->getBaseClass(), 0)); } else if (i->isDelegatingInitializer()) q["deleg"] = 1; if (i->isWritten()) q["w"] = 1; q["e"] = ex(i->getInit()); in.push_back(std::move(q)); } o["inits"] = std::move(in); }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = 1;
    o["body"] = st(f->getBody()); return o;
  }
  O cls(const CXXRecordDecl* r) {
    O o; o["c"] = qn(r); o["u"] = usr(r); o["file"] = rel(fileOf(r->getLocation())); o["line"] = line(r->getLocation()); A bs; for (auto& b : r->bases()) bs.push_back(type(b.getType())); o["bases"] = std::move(bs);
    A fs; for (auto* f : r->fields()) { O q; q["n"] = f->getNameAsString(); q["t"] = type(f->getType()); q["l"] = line(f->getLocation()); q["acc"] = f->getAccess() == AS_public ? "pub" : f->getAccess() == AS_protected ? "prot" : "priv"; if (f->hasInClassInitializer() && f->getInClassInitializer()) q["e"] = ex(f->getInClassInitializer()); if (f->isMutable()) q["mut"] = 1; fs.push_back(std::move(q)); } o["fields"] = std::move(fs);
    A ms; for (auto* m : r->methods()) { O q; q["n"] = m->getNameAsString(); q["u"] = usr(m); if (m->isPureVirtual()) q["pure"] = 1; if (m->isVirtual()) q["virt"] = 1; if (m->isDeleted()) q["del"] = 1; if (m->isImplicit()) q["impl"] = 1; if (m->isDefaulted()) q["dflt"] = 1; if (isa<CXXDestructorDecl>(m)) q["dtor"] = 1; A ov; for (auto* b : m->overridden_methods()) ov.push_back(usr(b)); if (!ov.empty()) q["ov"] = std::move(ov); ms.push_back(std::move(q)); } o["methods"] = std::move(ms); return o; }
  O enm(const EnumDecl* d) { O o; o["e"] = qn(d); o["file"] = rel(fileOf(d->getLocation())); A v; for (auto* e : d->enumerators()) { O q; q["n"] = e->getNameAsString(); q["q"] = qn(e); q["v"] = i64(e->getInitVal()); v.push_back(std::move(q)); } o["v"] = std::move(v); return o; }
};
struct Vis : RecursiveASTVisitor<Vis> {
  X& x; A fns, classes, enums, globals; std::set<const Decl*> seen;
  explicit Vis(X& a) : x(a) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  void top(Decl* d) {  // only declarations located in the repository (and generated enums) are walked
    if (auto* ns = dyn_cast<NamespaceDecl>(d)) { if (x.inRepo(ns->getLocation()) ) { TraverseDecl(d); return; } std::string f = x.fileOf(ns->getBeginLoc()); if (x.inRepo(ns->getBeginLoc())) { TraverseDecl(d); return; } if (f.find(".pb.h") != std::string::npos) for (auto* c : ns->decls()) { if (isa<NamespaceDecl>(c)) top(c); else if (auto* e = dyn_cast<EnumDecl>(c)) VisitEnumDecl(e); } return; }
    if (auto* ls = dyn_cast<LinkageSpecDecl>(d)) { for (auto* c : ls->decls()) top(c); return; }
    if (x.inRepo(d->getLocation()) || x.inRepo(d->getBeginLoc())) TraverseDecl(d);
  }
  bool keep(const Decl* d) { return x.inRepo(d->getLocation()); }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition() || !f->hasBody() || f->isDefaulted()) return true; if (!keep(f)) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (f->isDependentContext()) { return true; }
    if (!seen.insert(f).second) return true; fns.push_back(x.func(f)); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) { if (!r->isThisDeclarationADefinition() || r->isLambda() || r->isDependentContext()) return true; std::string f = x.fileOf(r->getLocation()); bool pb = f.find(".pb.h") != std::string::npos; if (!keep(r)) { if (!pb) return true; return true; } if (seen.insert(r).second) classes.push_back(x.cls(r)); return true; }
  bool VisitEnumDecl(EnumDecl* d) { if (!d->isThisDeclarationADefinition()) return true; std::string f = x.fileOf(d->getLocation()); if (!keep(d) && f.find(".pb.h") == std::string::npos) return true; enums.push_back(x.enm(d)); return true; }
  bool VisitVarDecl(VarDecl* v) { if (!v->hasGlobalStorage() || v->isStaticLocal() || !keep(v) || isa<ParmVarDecl>(v) || v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly || v->getType()->isDependentType()) return true; if (v->getDeclContext()->isDependentContext()) return true; O o; o["g"] = x.qn(v); o["t"] = x.type(v->getType()); o["file"] = x.rel(x.fileOf(v->getLocation())); o["line"] = x.line(v->getLocation()); if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1; if (v->hasInit() && !v->getInit()->isValueDependent()) o["e"] = x.ex(v->getInit()); globals.push_back(std::move(o)); return true; }
};
struct Cons : ASTConsumer {
  std::string in; std::vector<Decl*> tops; explicit Cons(std::string f) : in(std::move(f)) {}
  bool HandleTopLevelDecl(DeclGroupRef g) override { for (auto* d : g) tops.push_back(d); return true; }
  void HandleTranslationUnit(ASTContext& C) override {
    X x(C); Vis v(x); const std::vector<Decl*> ts = tops; for (auto* d : ts) v.top(d);  // a copy: lazily read declarations may be added meanwhile
    O o; o["tu"] = x.rel(in); o["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors(); o["fns"] = std::move(v.fns); o["classes"] = std::move(v.classes); o["enums"] = std::move(v.enums); o["globals"] = std::move(v.globals); o["types"] = std::move(x.types);
    std::error_code ec; llvm::raw_fd_ostream os(gOut, ec); os << V(std::move(o)); os << "\n"; }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef f) override { ci.getDiagnostics().setSuppressSystemWarnings(true); return std::make_unique<Cons>(f.str()); } };
int main(int argc, char** argv) {
  // psi-extract REPO OUT FILE -- flags...
  gRepo = argv[1]; if (gRepo.back() != '/') gRepo += '/'; gOut = argv[2]; std::string file = argv[3];
  std::vector<std::string> flags; for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool t(db, {file});
  return t.run(tooling::newFrontendActionFactory<Act>().get()) == 2 ? 2 : 0;
}
