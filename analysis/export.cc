// Exports the type-checked AST of every function defined under a set of path
// prefixes as compact JSON.  It resolves callees, template instantiations,
// member references and lambda bodies, and decides nothing itself: the rules
// that read the result are in ./*.py.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string g_prefix;  // only definitions under this path are exported

namespace {

class Exporter {
 public:
  explicit Exporter(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pol(c.getLangOpts()) {
    pol.SuppressTagKeyword = true;
    pol.Bool = true;
    pol.FullyQualifiedName = true;
    pol.SuppressUnwrittenScope = false;
  }

  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pol;
  json::Array decls, types, fns, classes;
  std::map<const Decl*, int> declIds, varIds, lamIds;
  std::map<const void*, int> typeIds;
  std::set<const Decl*> doneFns, doneClasses;

  std::string file(SourceLocation l) {
    PresumedLoc p = sm.getPresumedLoc(sm.getExpansionLoc(l));
    return p.isValid() ? p.getFilename() : "";
  }
  int line(SourceLocation l) {
    PresumedLoc p = sm.getPresumedLoc(sm.getExpansionLoc(l));
    return p.isValid() ? (int)p.getLine() : 0;
  }
  bool inScope(SourceLocation l) {
    std::string f = file(l);
    return f.rfind(g_prefix, 0) == 0;
  }
  std::string usr(const Decl* d) {
    llvm::SmallString<128> b;
    index::generateUSRForDecl(d, b);
    return std::string(b);
  }

  int type(QualType q) {
    QualType c = q.getCanonicalType();
    const void* k = c.getAsOpaquePtr();
    auto it = typeIds.find(k);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[k] = id;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = c.getAsString(pol);
    QualType b = c;
    if (c->isLValueReferenceType()) o["r"] = "&";
    if (c->isRValueReferenceType()) o["r"] = "&&";
    if (c->isReferenceType()) b = c->getPointeeType();
    if (b->isPointerType()) {
      o["p"] = 1;
      b = b->getPointeeType();
    }
    if (b.isConstQualified()) o["c"] = 1;
    if (c.isConstQualified()) o["tc"] = 1;
    if (b->isBooleanType()) o["b"] = "bool";
    else if (b->isIntegerType() || b->isEnumeralType())
      o["b"] = b->isUnsignedIntegerOrEnumerationType() ? "uint" : "int";
    else if (b->isFloatingType()) o["b"] = "float";
    if (const auto* r = b->getAsCXXRecordDecl()) {
      o["cls"] = r->getQualifiedNameAsString();
      if (r->isLambda()) o["lam"] = lambdaId(r);
      if (const auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
        json::Array a;
        for (const auto& arg : s->getTemplateArgs().asArray()) {
          if (arg.getKind() == TemplateArgument::Type) a.push_back(type(arg.getAsType()));
          else if (arg.getKind() == TemplateArgument::Integral) a.push_back(-1);
        }
        o["args"] = std::move(a);
      }
    }
    types[id] = std::move(o);
    return id;
  }

  int var(const ValueDecl* v) {
    const Decl* c = v->getCanonicalDecl();
    auto it = varIds.find(c);
    if (it != varIds.end()) return it->second;
    int id = (int)varIds.size() + 1;
    varIds[c] = id;
    return id;
  }

  int lambdaId(const CXXRecordDecl* r) {
    const Decl* c = r->getCanonicalDecl();
    auto it = lamIds.find(c);
    if (it != lamIds.end()) return it->second;
    int id = (int)lamIds.size();
    lamIds[c] = id;
    return id;
  }

  static std::string recName(const CXXRecordDecl* r) { return r->getQualifiedNameAsString(); }

  int decl(const FunctionDecl* f) {
    const FunctionDecl* c = f->getCanonicalDecl();
    auto it = declIds.find(c);
    if (it != declIds.end()) return it->second;
    int id = (int)decls.size();
    declIds[c] = id;
    decls.push_back(nullptr);
    json::Object o;
    o["qn"] = c->getQualifiedNameAsString();
    o["name"] = c->getNameAsString();
    o["usr"] = usr(c);
    if (const FunctionDecl* p = c->getTemplateInstantiationPattern()) o["pat"] = usr(p);
    const FunctionDecl* def = nullptr;
    c->isDefined(def);
    SourceLocation loc = def ? def->getLocation() : c->getLocation();
    std::string fl = file(loc);
    o["file"] = fl;
    o["line"] = line(loc);
    o["ret"] = type(c->getReturnType());
    json::Array ps;
    for (const ParmVarDecl* p : c->parameters()) ps.push_back(type(p->getType()));
    o["pt"] = std::move(ps);
    if (c->isVariadic()) o["variadic"] = 1;
    if (c->isDeleted()) o["deleted"] = 1;
    if (c->isDefaulted()) o["defaulted"] = 1;
    if (c->isImplicit()) o["implicit"] = 1;
    if (c->isNoReturn()) o["noreturn"] = 1;
    if (c->isOverloadedOperator()) o["op"] = getOperatorSpelling(c->getOverloadedOperator());
    o["access"] = (int)c->getAccess();
    if (const auto* m = dyn_cast<CXXMethodDecl>(c)) {
      o["cls"] = recName(m->getParent());
      o["ct"] = type(ctx.getRecordType(m->getParent()));
      if (m->isStatic()) o["static"] = 1;
      if (m->isConst()) o["const"] = 1;
      if (m->isVirtual()) o["virtual"] = 1;
      if (m->getParent()->isLambda()) o["lam"] = lambdaId(m->getParent());
      if (m->getRefQualifier() == RQ_LValue) o["ref"] = "&";
      if (m->getRefQualifier() == RQ_RValue) o["ref"] = "&&";
      if (const auto* k = dyn_cast<CXXConstructorDecl>(m)) {
        o["kind"] = k->isCopyConstructor()      ? "copy"
                    : k->isMoveConstructor()    ? "move"
                    : k->isDefaultConstructor() ? "default"
                                                : "ctor";
      } else if (isa<CXXDestructorDecl>(m)) {
        o["kind"] = "dtor";
      } else if (isa<CXXConversionDecl>(m)) {
        o["kind"] = "conv";
      } else if (m->isCopyAssignmentOperator()) {
        o["kind"] = "copy=";
      } else if (m->isMoveAssignmentOperator()) {
        o["kind"] = "move=";
      }
    }
    if (fl.rfind(g_prefix, 0) == 0) o["repo"] = 1;
    decls[id] = std::move(o);
    return id;
  }

  // ---- expressions ----
  json::Value args(const CallExpr* c, unsigned from = 0) {
    json::Array a;
    for (unsigned i = from; i < c->getNumArgs(); i++) a.push_back(expr(c->getArg(i)));
    return a;
  }

  json::Object mk(const char* k, const Expr* e) {
    json::Object o;
    o["k"] = k;
    o["l"] = line(e->getExprLoc());
    return o;
  }

  json::Value lambda(const LambdaExpr* l) {
    json::Object o = mk("lambda", l);
    json::Array caps;
    auto init = l->capture_init_begin();
    for (const LambdaCapture& c : l->captures()) {
      json::Object x;
      if (c.capturesThis()) x["this"] = 1;
      if (c.capturesVariable()) {
        x["id"] = var(c.getCapturedVar());
        x["name"] = c.getCapturedVar()->getNameAsString();
        x["t"] = type(c.getCapturedVar()->getType());
        if (c.getCapturedVar()->isInitCapture()) {
          if (const auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (vd->getInit()) x["init"] = expr(vd->getInit());
        }
      }
      x["ref"] = c.getCaptureKind() == LCK_ByRef;
      caps.push_back(std::move(x));
      ++init;
    }
    o["caps"] = std::move(caps);
    if (l->isMutable()) o["mutable"] = 1;
    o["lam"] = lambdaId(l->getLambdaClass());
    o["t"] = type(l->getType());
    const CXXMethodDecl* m = l->getCallOperator();
    if (m->getParent()->isGenericLambda() || m->isDependentContext()) {
      // Generic lambdas: export every instantiated specialisation.
      json::Array specs;
      if (auto* ft = l->getLambdaClass()->getDependentLambdaCallOperator()) {
        for (auto* s : ft->specializations()) specs.push_back(function(s));
      }
      o["specs"] = std::move(specs);
    } else {
      o["fn"] = function(m);
    }
    return o;
  }

  json::Value expr(const Expr* e) {
    if (e == nullptr) return nullptr;
    // Transparent wrappers.
    if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<FullExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
      switch (x->getCastKind()) {
        case CK_IntegralCast:
        case CK_IntegralToBoolean:
        case CK_PointerToBoolean:
        case CK_FloatingToBoolean:
        case CK_IntegralToFloating:
        case CK_FloatingToIntegral:
        case CK_NullToPointer: {
          json::Object o = mk("cast", e);
          o["ck"] = x->getCastKindName();
          o["t"] = type(x->getType());
          o["e"] = expr(x->getSubExpr());
          return o;
        }
        default:
          return expr(x->getSubExpr());
      }
    }
    if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
      json::Object o = mk("cast", e);
      o["ck"] = x->getCastKindName();
      o["x"] = 1;
      if (isa<CXXDynamicCastExpr>(x)) o["dyn"] = 1;
      if (isa<CXXConstCastExpr>(x)) o["ccast"] = 1;
      if (isa<CXXReinterpretCastExpr>(x)) o["rcast"] = 1;
      o["t"] = type(x->getTypeAsWritten());
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      json::Object o = mk("ref", e);
      const ValueDecl* d = x->getDecl();
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fnref";
        o["fn"] = decl(f);
        return o;
      }
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "enum";
        o["name"] = ec->getQualifiedNameAsString();
        return o;
      }
      if (auto* b = dyn_cast<BindingDecl>(d)) {
        o["id"] = var(b);
        o["name"] = b->getNameAsString();
        o["t"] = type(b->getType());
        return o;
      }
      o["id"] = var(d);
      o["name"] = d->getNameAsString();
      o["t"] = type(d->getType());
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->hasGlobalStorage()) {
          o["glob"] = v->getQualifiedNameAsString();
          if (v->getType().isConstQualified() && v->getAnyInitializer() && inScope(v->getLocation()))
            o["init"] = expr(v->getAnyInitializer());
        }
      }
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      if (auto* f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        json::Object o = mk("field", e);
        o["name"] = f->getNameAsString();
        o["cls"] = recName(cast<CXXRecordDecl>(f->getParent()));
        o["t"] = type(f->getType());
        if (x->isArrow()) o["arrow"] = 1;
        o["b"] = expr(x->getBase());
        return o;
      }
      if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        json::Object o = mk("ref", e);
        o["id"] = var(v);
        o["name"] = v->getNameAsString();
        o["glob"] = v->getQualifiedNameAsString();
        o["t"] = type(v->getType());
        if (v->getType().isConstQualified() && v->getAnyInitializer() && inScope(v->getLocation()))
          o["init"] = expr(v->getAnyInitializer());
        return o;
      }
      json::Object o = mk("other", e);
      o["n"] = "MemberExpr";
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      json::Object o = mk("call", e);
      if (auto* m = x->getMethodDecl()) o["fn"] = decl(m);
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        o["obj"] = expr(me->getBase());
        if (me->isArrow()) o["arrow"] = 1;
        if (me->hasQualifier()) o["qual"] = 1;
      } else {
        o["obj"] = expr(x->getImplicitObjectArgument());
      }
      o["a"] = args(x);
      o["t"] = type(x->getType());
      o["lv"] = x->isGLValue();
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      json::Object o = mk("call", e);
      const FunctionDecl* f = x->getDirectCallee();
      if (f) o["fn"] = decl(f);
      o["op"] = getOperatorSpelling(x->getOperator());
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
        o["obj"] = expr(x->getArg(0));
        o["a"] = args(x, 1);
      } else {
        o["a"] = args(x);
      }
      o["t"] = type(x->getType());
      o["lv"] = x->isGLValue();
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      json::Object o = mk("call", e);
      if (const FunctionDecl* f = x->getDirectCallee()) o["fn"] = decl(f);
      else o["callee"] = expr(x->getCallee());
      o["a"] = args(x);
      o["t"] = type(x->getType());
      o["lv"] = x->isGLValue();
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      json::Object o = mk("construct", e);
      o["fn"] = decl(x->getConstructor());
      o["a"] = json::Array();
      o["t"] = type(x->getType());
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      json::Object o = mk("construct", e);
      o["fn"] = decl(x->getConstructor());
      json::Array a;
      for (const Expr* arg : x->arguments()) a.push_back(expr(arg));
      o["a"] = std::move(a);
      o["t"] = type(x->getType());
      if (x->isListInitialization()) o["list"] = 1;
      if (x->isStdInitListInitialization()) o["sil"] = 1;
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr* s = x->isSemanticForm() ? x : x->getSemanticForm();
      if (s == nullptr) s = x;
      json::Object o = mk("init", e);
      json::Array a;
      for (const Expr* i : s->inits()) a.push_back(expr(i));
      o["a"] = std::move(a);
      o["t"] = type(x->getType());
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) return lambda(x);
    if (isa<CXXThisExpr>(e)) return mk("this", e);
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      json::Object o = mk("int", e);
      llvm::SmallString<16> s;
      x->getValue().toString(s, 10, true);
      o["v"] = (int64_t)x->getValue().getLimitedValue();
      return o;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      json::Object o = mk("bool", e);
      o["v"] = x->getValue();
      return o;
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      json::Object o = mk("str", e);
      o["v"] = x->getString().str();
      return o;
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      json::Object o = mk("chr", e);
      o["v"] = (int64_t)x->getValue();
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      json::Object o = mk("flt", e);
      o["v"] = x->getValueAsApproximateDouble();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return mk("null", e);
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      json::Object o = mk("bin", e);
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      o["t"] = type(x->getType());
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      json::Object o = mk("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = 1;
      o["a"] = expr(x->getSubExpr());
      o["t"] = type(x->getType());
      return o;
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      json::Object o = mk("cond", e);
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      o["t"] = type(x->getType());
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      json::Object o = mk("index", e);
      o["a"] = expr(x->getBase());
      o["b"] = expr(x->getIdx());
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      json::Object o = mk("new", e);
      o["t"] = type(x->getAllocatedType());
      o["e"] = x->getInitializer() ? expr(x->getInitializer()) : json::Value(nullptr);
      if (x->isArray()) o["arr"] = 1;
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      json::Object o = mk("delete", e);
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      json::Object o = mk("throw", e);
      if (x->getSubExpr()) {
        o["e"] = expr(x->getSubExpr());
        o["t"] = type(x->getSubExpr()->getType());
      }
      return o;
    }
    if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) {
      json::Object o = mk("zero", e);
      o["t"] = type(x->getType());
      return o;
    }
    if (auto* x = dyn_cast<ImplicitValueInitExpr>(e)) {
      json::Object o = mk("zero", e);
      o["t"] = type(x->getType());
      return o;
    }
    json::Object o = mk("other", e);
    o["n"] = e->getStmtClassName();
    json::Array a;
    for (const Stmt* c : e->children())
      if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
    o["a"] = std::move(a);
    return o;
  }

  // ---- statements ----
  json::Value varDecl(const VarDecl* v) {
    json::Object o;
    o["id"] = var(v);
    o["name"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["l"] = line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = 1;
    if (v->getInit()) o["init"] = expr(v->getInit());
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      for (const BindingDecl* b : d->bindings()) {
        json::Object x;
        x["id"] = var(b);
        x["name"] = b->getNameAsString();
        x["t"] = type(b->getType());
        if (b->getHoldingVar() && b->getHoldingVar()->getInit())
          x["e"] = expr(b->getHoldingVar()->getInit());
        else
          x["e"] = expr(b->getBinding());
        bs.push_back(std::move(x));
      }
      o["bind"] = std::move(bs);
    }
    return o;
  }

  json::Value stmt(const Stmt* s) {
    if (s == nullptr) return nullptr;
    json::Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["s"] = "block";
      json::Array b;
      for (const Stmt* c : x->body()) b.push_back(stmt(c));
      o["b"] = std::move(b);
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["s"] = "decl";
      json::Array v;
      for (const Decl* d : x->decls())
        if (auto* vd = dyn_cast<VarDecl>(d)) v.push_back(varDecl(vd));
      o["v"] = std::move(v);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      o["s"] = "if";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
      if (x->isConstexpr()) {
        // Keep only the live branch of a resolved `if constexpr`.
        Expr::EvalResult r;
        if (!x->getCond()->isValueDependent() && x->getCond()->EvaluateAsRValue(r, ctx)) {
          bool v = r.Val.getInt().getBoolValue();
          return v ? stmt(x->getThen()) : (x->getElse() ? stmt(x->getElse()) : json::Value(nullptr));
        }
      }
      o["c"] = expr(x->getCond());
      o["t"] = stmt(x->getThen());
      o["e"] = stmt(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["s"] = "for";
      o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      if (x->getInc()) o["inc"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["s"] = "while";
      if (x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      o["s"] = "do";
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["s"] = "rfor";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      json::Object v;
      const VarDecl* lv = x->getLoopVariable();
      v["id"] = var(lv);
      v["name"] = lv->getNameAsString();
      v["t"] = type(lv->getType());
      v["l"] = line(lv->getLocation());
      if (auto* d = dyn_cast<DecompositionDecl>(lv)) {
        json::Array bs;
        int i = 0;
        for (const BindingDecl* b : d->bindings()) {
          json::Object y;
          y["id"] = var(b);
          y["name"] = b->getNameAsString();
          y["t"] = type(b->getType());
          y["i"] = i++;
          if (b->getHoldingVar() && b->getHoldingVar()->getInit())
            y["e"] = expr(b->getHoldingVar()->getInit());
          else
            y["e"] = expr(b->getBinding());
          bs.push_back(std::move(y));
        }
        v["bind"] = std::move(bs);
      }
      // The initialiser of the loop variable dereferences __begin; a copy or a
      // conversion around it is visible through the variable's type.
      if (const auto* be = dyn_cast_or_null<DeclStmt>(x->getBeginStmt())) {
        if (const auto* bv = dyn_cast<VarDecl>(be->getSingleDecl())) {
          const Expr* bi = bv->getInit() ? bv->getInit()->IgnoreImplicit() : nullptr;
          if (const auto* mc = dyn_cast_or_null<CXXMemberCallExpr>(bi))
            if (mc->getMethodDecl()) o["begin"] = decl(mc->getMethodDecl());
          o["itt"] = type(bv->getType());
        }
      }
      if (const auto* ie = dyn_cast_or_null<CXXOperatorCallExpr>(
              x->getInc() ? x->getInc()->IgnoreImplicit() : nullptr))
        if (ie->getDirectCallee()) o["incfn"] = decl(ie->getDirectCallee());
      o["var"] = std::move(v);
      o["r"] = expr(x->getRangeInit());
      o["rt"] = type(x->getRangeInit()->getType());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["s"] = "return";
      o["e"] = expr(x->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) {
      o["s"] = "break";
      return o;
    }
    if (isa<ContinueStmt>(s)) {
      o["s"] = "continue";
      return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["s"] = "switch";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      if (x->isAllEnumCasesCovered()) o["all"] = 1;
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["s"] = "case";
      o["e"] = expr(x->getLHS());
      o["b"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["s"] = "default";
      o["b"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["s"] = "try";
      o["b"] = stmt(x->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        const CXXCatchStmt* h = x->getHandler(i);
        json::Object y;
        y["l"] = line(h->getBeginLoc());
        if (h->getExceptionDecl()) {
          y["t"] = type(h->getCaughtType());
          y["id"] = var(h->getExceptionDecl());
        }
        y["b"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(y));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (isa<NullStmt>(s)) {
      o["s"] = "null";
      return o;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) return stmt(x->getSubStmt());
    if (auto* e = dyn_cast<Expr>(s)) {
      o["s"] = "expr";
      o["e"] = expr(e);
      return o;
    }
    o["s"] = "other";
    o["n"] = s->getStmtClassName();
    return o;
  }

  json::Value function(const FunctionDecl* f) {
    json::Object o;
    o["d"] = decl(f);
    o["l"] = line(f->getLocation());
    o["file"] = file(f->getLocation());
    json::Array ps;
    for (const ParmVarDecl* p : f->parameters()) {
      json::Object x;
      x["id"] = var(p);
      x["name"] = p->getNameAsString();
      x["t"] = type(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
        x["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(x));
    }
    o["p"] = std::move(ps);
    if (const auto* k = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array is;
      for (const CXXCtorInitializer* i : k->inits()) {
        json::Object x;
        x["w"] = i->isWritten();
        x["l"] = line(i->getSourceLocation());
        if (i->isAnyMemberInitializer()) {
          x["field"] = i->getAnyMember()->getNameAsString();
          x["t"] = type(i->getAnyMember()->getType());
        }
        if (i->isBaseInitializer()) x["base"] = type(QualType(i->getBaseClass(), 0));
        if (i->isDelegatingInitializer()) x["deleg"] = 1;
        x["e"] = expr(i->getInit());
        is.push_back(std::move(x));
      }
      o["inits"] = std::move(is);
    }
    o["b"] = stmt(f->getBody());
    return o;
  }

  void addFunction(const FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody()) return;
    if (f->isDependentContext()) return;
    if (f->getDescribedFunctionTemplate()) return;
    if (!inScope(f->getLocation())) return;
    if (const auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return;  // exported with the lambda
    if (!doneFns.insert(f->getCanonicalDecl()).second) return;
    fns.push_back(function(f));
  }

  static const char* special(bool user, bool deleted, bool has) {
    return deleted ? "deleted" : user ? "user" : has ? "implicit" : "none";
  }

  void addClass(const CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return;
    // An explicit instantiation is located at the line that asks for it.
    const CXXRecordDecl* at = r->getTemplateInstantiationPattern();
    if (!at) at = r;
    if (!inScope(at->getLocation())) return;
    if (!doneClasses.insert(r->getCanonicalDecl()).second) return;
    json::Object o;
    o["qn"] = recName(r);
    o["t"] = type(ctx.getRecordType(r));
    o["file"] = file(at->getLocation());
    o["l"] = line(at->getLocation());
    json::Array fs;
    for (const FieldDecl* f : r->fields()) {
      json::Object x;
      x["name"] = f->getNameAsString();
      x["t"] = type(f->getType());
      x["l"] = line(f->getLocation());
      x["access"] = (int)f->getAccess();
      if (f->isMutable()) x["mutable"] = 1;
      if (f->hasInClassInitializer() && f->getInClassInitializer()) x["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(x));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    for (const auto& b : r->bases()) bs.push_back(type(b.getType()));
    o["bases"] = std::move(bs);
    json::Array ms;
    for (const CXXMethodDecl* m : r->methods()) ms.push_back(decl(m));
    o["methods"] = std::move(ms);
    json::Array fr;
    for (const FriendDecl* fd : r->friends())
      if (auto* ff = dyn_cast_or_null<FunctionDecl>(fd->getFriendDecl()))
        if (!ff->isDependentContext()) fr.push_back(decl(ff));
    o["friends"] = std::move(fr);
    json::Object sp;
    sp["dtor"] = r->hasUserDeclaredDestructor();
    sp["copy"] = r->hasUserDeclaredCopyConstructor();
    sp["move"] = r->hasUserDeclaredMoveConstructor();
    sp["copy="] = r->hasUserDeclaredCopyAssignment();
    sp["move="] = r->hasUserDeclaredMoveAssignment();
    o["special"] = std::move(sp);
    classes.push_back(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Exporter& e) : ex(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    ex.addFunction(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    ex.addClass(r);
    return true;
  }
  Exporter& ex;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    if (c.getDiagnostics().hasUncompilableErrorOccurred()) return;
    Exporter ex(c);
    Visitor v(ex);
    v.TraverseDecl(c.getTranslationUnitDecl());
    json::Object o;
    o["decls"] = std::move(ex.decls);
    o["types"] = std::move(ex.types);
    o["fns"] = std::move(ex.fns);
    o["classes"] = std::move(ex.classes);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

// usage: export PREFIX SOURCE -- FLAGS...
int main(int argc, const char** argv) {
  if (argc < 4) return 2;
  g_prefix = argv[1];
  std::string src = argv[2];
  std::vector<std::string> flags(argv + 4, argv + argc);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
