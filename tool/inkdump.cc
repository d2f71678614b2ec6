// inkdump: exports the type-checked program (one translation unit) as JSON for
// the value-flow engine.  It decides nothing; it only serialises what clang
// resolved: function bodies (including template instantiations), records,
// enums, global variables, types, overload resolution, implicit conversions and
// compile-time constants.
#include <map>
#include <set>
#include <string>
#include <vector>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> gRoots;
static std::string gOut;

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), MC(c.createMangleContext()) {}

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  ASTContext &C;
  SourceManager &SM;
  std::unique_ptr<MangleContext> MC;
  Object funcs, recs, enums, globals;
  Array types;
  std::map<const void *, int> typeIds;
  std::map<const Decl *, int> declIds;
  std::set<std::string> recDone;
  std::vector<const FunctionDecl *> work;
  std::set<const FunctionDecl *> queued;
  std::string tuFile;

  std::string fileOf(SourceLocation l) {
    if (l.isInvalid()) return "";
    l = SM.getExpansionLoc(l);
    auto f = SM.getFilename(l);
    return f.str();
  }
  int lineOf(SourceLocation l) {
    if (l.isInvalid()) return 0;
    return SM.getExpansionLineNumber(l);
  }
  bool inRoots(SourceLocation l) {
    std::string f = fileOf(l);
    for (auto &r : gRoots)
      if (f.rfind(r, 0) == 0) return true;
    return false;
  }

  int declId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int n = declIds.size();
    declIds[d] = n;
    return n;
  }

  std::string recKey(const CXXRecordDecl *r) {
    if (auto *def = r->getDefinition()) r = def;
    QualType t = C.getRecordType(r);
    PrintingPolicy pp(C.getLangOpts());
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    std::string n;
    if (r->isLambda()) {
      n = "lambda@" + fileOf(r->getLocation()) + ":" + std::to_string(lineOf(r->getLocation())) + ":" +
          std::to_string(SM.getExpansionColumnNumber(r->getLocation()));
      // distinguish lambdas in different instantiations
      if (auto *f = dyn_cast_or_null<FunctionDecl>(r->getDeclContext())) n += "@" + funcKey(f);
      return n;
    }
    n = QualType(C.getCanonicalType(t)).getAsString(pp);
    if (!r->isExternallyVisible() && n.find("(anonymous") != std::string::npos) n = tuFile + "::" + n;
    return n;
  }

  std::string funcKey(const FunctionDecl *f) {
    if (auto *d = f->getDefinition()) f = d;
    std::string s;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->getParent()->isLambda()) {
        s = recKey(m->getParent()) + "::" + m->getNameAsString();
        std::string mm;
        llvm::raw_string_ostream os(mm);
        if (m->isTemplateInstantiation()) os << QualType(C.getCanonicalType(m->getType())).getAsString();
        return s + os.str();
      }
    }
    llvm::raw_string_ostream os(s);
    GlobalDecl gd;
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) gd = GlobalDecl(c, Ctor_Complete);
    else if (auto *d = dyn_cast<CXXDestructorDecl>(f)) gd = GlobalDecl(d, Dtor_Complete);
    else gd = GlobalDecl(f);
    if (MC->shouldMangleDeclName(f)) MC->mangleName(gd, os);
    else os << f->getQualifiedNameAsString();
    os.flush();
    if (!f->isExternallyVisible()) s = tuFile + "::" + s;
    return s;
  }

  int typeId(QualType q) {
    QualType c = C.getCanonicalType(q);
    const void *p = c.getAsOpaquePtr();
    auto it = typeIds.find(p);
    if (it != typeIds.end()) return it->second;
    int id = types.size();
    typeIds[p] = id;
    types.push_back(nullptr);
    Object o;
    if (c.isConstQualified()) o["c"] = true;
    PrintingPolicy pp(C.getLangOpts());
    pp.SuppressTagKeyword = true;
    const Type *t = c.getTypePtr();
    if (t->isBooleanType()) o["k"] = "bool";
    else if (auto *e = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["n"] = e->getDecl()->getQualifiedNameAsString();
      noteEnum(e->getDecl());
    } else if (t->isIntegerType()) {
      o["k"] = "int";
      o["u"] = t->isUnsignedIntegerType();
      o["b"] = (int64_t)C.getTypeSize(c);
    } else if (t->isRealFloatingType()) {
      o["k"] = "flt";
      o["b"] = (int64_t)C.getTypeSize(c);
    } else if (t->isVoidType()) o["k"] = "void";
    else if (t->isReferenceType()) {
      o["k"] = "ref";
      o["rv"] = t->isRValueReferenceType();
      o["e"] = typeId(t->getPointeeType());
    } else if (t->isPointerType()) {
      o["k"] = "ptr";
      o["e"] = typeId(t->getPointeeType());
    } else if (t->isNullPtrType()) o["k"] = "null";
    else if (auto *a = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "arr";
      o["n"] = (int64_t)a->getSize().getZExtValue();
      o["e"] = typeId(a->getElementType());
    } else if (auto *r = t->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      std::string k = recKey(r);
      o["n"] = k;
      noteRec(r, k);
    } else if (t->isFunctionType()) o["k"] = "fn";
    else o["k"] = "other";
    o["s"] = c.getAsString(pp);
    types[id] = std::move(o);
    return id;
  }

  void noteEnum(const EnumDecl *e) {
    std::string n = e->getQualifiedNameAsString();
    if (enums.get(n)) return;
    Object o;
    if (auto *d = e->getDefinition())
      for (auto *c : d->enumerators()) o[c->getNameAsString()] = (int64_t)c->getInitVal().getExtValue();
    enums[n] = std::move(o);
  }

  void noteRec(const CXXRecordDecl *r, const std::string &k) {
    auto *d = r->getDefinition();
    if (!d) return;
    if (!recDone.insert(k).second) return;
    Object o;
    bool own = inRoots(d->getLocation());
    if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
      o["tmpl"] = s->getSpecializedTemplate()->getQualifiedNameAsString();
      Array ta;
      for (auto &a : s->getTemplateArgs().asArray()) addTArg(a, ta);
      o["targs"] = std::move(ta);
    }
    o["qn"] = d->getQualifiedNameAsString();
    o["own"] = own;
    o["file"] = fileOf(d->getLocation());
    o["ln"] = lineOf(d->getLocation());
    if (d->isLambda()) o["lambda"] = true;
    if (own || d->isLambda()) {
      Array bases;
      for (auto &b : d->bases())
        if (auto *br = b.getType()->getAsCXXRecordDecl()) {
          bases.push_back(typeId(b.getType()));
        }
      o["bases"] = std::move(bases);
      Array fs;
      for (auto *f : d->fields()) {
        Object fo;
        fo["n"] = f->getNameAsString();
        fo["t"] = typeId(f->getType());
        if (f->isMutable()) fo["mut"] = true;
        fo["ln"] = lineOf(f->getLocation());
        if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
      o["poly"] = d->isPolymorphic();
      o["abstract"] = d->isAbstract();
      o["union"] = d->isUnion();
      Array ms;
      for (auto *m : d->methods()) {
        Object mo;
        mo["n"] = m->getNameAsString();
        mo["key"] = funcKey(m);
        mo["virt"] = m->isVirtual();
        Array ov;
        for (auto *om : m->overridden_methods()) ov.push_back(funcKey(om));
        mo["over"] = std::move(ov);
        mo["acc"] = (int)m->getAccess();
        ms.push_back(std::move(mo));
      }
      o["methods"] = std::move(ms);
    }
    recs[k] = std::move(o);
  }
  void addTArg(const TemplateArgument &a, Array &ta) {
    if (a.getKind() == TemplateArgument::Type) ta.push_back(typeId(a.getAsType()));
    else if (a.getKind() == TemplateArgument::Integral) {
      Object io;
      io["v"] = (int64_t)a.getAsIntegral().getExtValue();
      ta.push_back(std::move(io));
    } else if (a.getKind() == TemplateArgument::Pack) {
      for (auto &x : a.pack_elements()) addTArg(x, ta);
    } else ta.push_back(nullptr);
  }

  // ------------------------------------------------------------- constants
  static Value dbl(const llvm::APFloat &f) {
    if (f.isNaN()) return "nan";
    if (f.isInfinity()) return f.isNegative() ? "-inf" : "inf";
    llvm::APFloat g = f;
    bool lose;
    g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
    char buf[64];
    snprintf(buf, sizeof buf, "%a", g.convertToDouble());
    return std::string(buf);
  }

  void constVal(const Expr *e, Object &o) {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    QualType t = e->getType();
    if (!(t->isBooleanType() || t->isIntegralOrEnumerationType() || t->isRealFloatingType())) return;
    if (e->isLValue()) return;
    Expr::EvalResult r;
    if (!e->EvaluateAsRValue(r, C) || r.HasSideEffects) return;
    if (r.Val.isInt()) o["cv"] = (int64_t)r.Val.getInt().getExtValue();
    else if (r.Val.isFloat()) o["cv"] = dbl(r.Val.getFloat());
  }

  // ------------------------------------------------------------- callee
  Object callee(const FunctionDecl *f) {
    Object o;
    o["key"] = funcKey(f);
    o["qn"] = f->getQualifiedNameAsString();
    o["n"] = f->getNameAsString();
    o["own"] = inRoots(f->getLocation());
    const FunctionDecl *def = f->getDefinition();
    if (def) {
      enqueue(def);
    } else if (f->getTemplateInstantiationPattern()) {
      enqueue(f);
    }
    o["ret"] = typeId(f->getReturnType());
    Array ps;
    for (auto *p : f->parameters()) ps.push_back(typeId(p->getType()));
    o["ps"] = std::move(ps);
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &x : ta->asArray()) addTArg(x, a);
      o["targs"] = std::move(a);
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["m"] = true;
      o["st"] = m->isStatic();
      o["const"] = m->isConst();
      o["virt"] = m->isVirtual();
      o["cls"] = typeId(C.getRecordType(m->getParent()));
    }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["copy"] = c->isCopyOrMoveConstructor();
      o["dflt"] = c->isDefaultConstructor();
      o["implicit"] = !c->isUserProvided();
    }
    if (f->isDefaulted()) o["defaulted"] = true;
    return o;
  }

  void enqueue(const FunctionDecl *f) {
    if (!inRoots(f->getLocation())) return;
    if (queued.insert(f->getCanonicalDecl()).second) work.push_back(f);
  }

  // ------------------------------------------------------------- expressions
  Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    Array a;
    for (auto *x : r) a.push_back(expr(x));
    return a;
  }

  Value expr(const Expr *e) {
    if (!e) return nullptr;
    // peel
    while (true) {
      if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) {
        break;
      }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = x->getSemanticForm(); continue; }
      if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) break;
      break;
    }
    Object o;
    o["t"] = typeId(e->getType());
    o["vc"] = e->isPRValue() ? "r" : (e->isXValue() ? "x" : "l");
    o["ln"] = lineOf(e->getExprLoc());
    constVal(e, o);
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      K("Mat");
      o["e"] = expr(x->getSubExpr());
    } else if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      K("Lit");
      o["cv"] = (int64_t)x->getValue().getLimitedValue();
    } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      K("Lit");
      o["cv"] = dbl(x->getValue());
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      K("Lit");
      o["cv"] = (int64_t)x->getValue();
    } else if (isa<CharacterLiteral>(e)) {
      K("Lit");
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      K("Null");
    } else if (isa<StringLiteral>(e) || isa<PredefinedExpr>(e)) {
      K("Str");
    } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      if (auto *b = dyn_cast<BindingDecl>(d)) {
        if (b->getHoldingVar()) {
          K("Ref");
          o["d"] = declId(b->getHoldingVar());
          o["n"] = b->getNameAsString();
        } else return expr(b->getBinding());
      } else if (auto *v = dyn_cast<VarDecl>(d)) {
        K("Ref");
        o["d"] = declId(v);
        o["n"] = v->getNameAsString();
        if (v->hasGlobalStorage()) {
          o["g"] = gkey(v);
          noteGlobal(v);
        }
        if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
        K("FnRef");
        o["f"] = callee(f);
      } else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        K("Lit");
        o["cv"] = (int64_t)ec->getInitVal().getExtValue();
      } else {
        K("Unk");
        o["why"] = "declref";
      }
    } else if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        K("Mem");
        o["b"] = expr(x->getBase());
        o["f"] = f->getNameAsString();
        o["arrow"] = x->isArrow();
        o["ft"] = typeId(f->getType());
        o["pc"] = typeId(C.getRecordType(f->getParent()));
      } else if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        K("Ref");
        o["d"] = declId(v);
        o["n"] = v->getNameAsString();
        o["g"] = gkey(v);
        noteGlobal(v);
      } else {
        K("Unk");
        o["why"] = "member";
      }
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto *m = x->getMethodDecl();
      if (!m) {
        K("Unk");
        o["why"] = "memptr";
      } else {
        K("MCall");
        o["f"] = callee(m);
        o["args"] = exprs(x->arguments());
        auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
        o["arrow"] = me ? me->isArrow() : false;
        o["qual"] = me ? me->hasQualifier() : false;
        o["o"] = me ? expr(me->getBase()) : Value(nullptr);
      }
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto *f = x->getDirectCallee();
      if (!f) {
        K("Unk");
        o["why"] = "opcall";
      } else {
        o["f"] = callee(f);
        o["op"] = getOperatorSpelling(x->getOperator());
        auto *m = dyn_cast<CXXMethodDecl>(f);
        if (m && !m->isStatic()) {
          K("MCall");
          o["o"] = expr(x->getArg(0));
          o["arrow"] = false;
          Array a;
          for (unsigned i = 1; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
          o["args"] = std::move(a);
        } else {
          K("Call");
          o["args"] = exprs(x->arguments());
        }
      }
    } else if (auto *x = dyn_cast<CallExpr>(e)) {
      auto *f = x->getDirectCallee();
      if (!f) {
        K("ICall");
        o["ce"] = expr(x->getCallee());
        o["args"] = exprs(x->arguments());
      } else {
        K("Call");
        o["f"] = callee(f);
        o["args"] = exprs(x->arguments());
      }
    } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      K("Ctor");
      o["f"] = callee(x->getConstructor());
      Array a;
      for (auto *y : x->arguments()) a.push_back(expr(y));
      o["args"] = std::move(a);
      o["list"] = x->isListInitialization();
      o["zi"] = x->requiresZeroInitialization();
      o["sil"] = x->isStdInitListInitialization();
    } else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      K("Unk");
      o["why"] = "inhctor";
    } else if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (auto *s = x->getSemanticForm()) x = s;
      K("Init");
      Array a;
      QualType t = x->getType();
      Array names;
      if (auto *r = t->getAsCXXRecordDecl()) {
        for (auto &b : r->bases()) { (void)b; names.push_back("#base"); }
        for (auto *f : r->fields()) names.push_back(f->getNameAsString());
      }
      for (unsigned i = 0; i < x->getNumInits(); i++) a.push_back(expr(x->getInit(i)));
      o["args"] = std::move(a);
      o["names"] = std::move(names);
      if (x->hasArrayFiller()) o["fill"] = expr(x->getArrayFiller());
    } else if (auto *x = dyn_cast<CXXParenListInitExpr>(e)) {
      K("Init");
      Array a, names;
      for (auto *i : const_cast<CXXParenListInitExpr *>(x)->getInitExprs()) a.push_back(expr(i));
      if (auto *r = x->getType()->getAsCXXRecordDecl())
        for (auto *f : r->fields()) names.push_back(f->getNameAsString());
      o["args"] = std::move(a);
      o["names"] = std::move(names);
    } else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      K("SIL");
      const Expr *s = x->getSubExpr();
      o["e"] = expr(s);
    } else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) {
      return expr(x->getExpr());
    } else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
      return expr(x->getExpr());
    } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
      K("Un");
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
    } else if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      K("CAsg");
      std::string op = x->getOpcodeStr().str();
      o["op"] = op.substr(0, op.size() - 1);
      o["l"] = expr(x->getLHS());
      o["r"] = expr(x->getRHS());
      o["ct"] = typeId(x->getComputationResultType());
    } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
      if (x->isAssignmentOp()) K("Asg");
      else if (x->getOpcode() == BO_Comma) K("Comma");
      else K("Bin");
      o["op"] = x->getOpcodeStr().str();
      o["l"] = expr(x->getLHS());
      o["r"] = expr(x->getRHS());
    } else if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      K("Cond");
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
    } else if (auto *x = dyn_cast<CastExpr>(e)) {
      K("Cast");
      o["ck"] = x->getCastKindName();
      o["e"] = expr(x->getSubExpr());
    } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      K("Lambda");
      auto *r = x->getLambdaClass();
      o["cls"] = recKey(r);
      Array caps;
      auto fi = r->field_begin();
      auto ci = x->capture_init_begin();
      for (auto &c : x->captures()) {
        Object co;
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        if (c.capturesThis()) co["this"] = c.getCaptureKind() == LCK_This ? "ptr" : "copy";
        else if (c.capturesVariable()) {
          co["d"] = declId(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getName().str();
        }
        co["init"] = expr(*ci);
        ++ci;
        if (fi != r->field_end()) ++fi;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      if (auto *m = r->getLambdaCallOperator()) {
        if (!m->getDescribedFunctionTemplate()) {
          o["call"] = funcKey(m);
          if (queued.insert(m->getCanonicalDecl()).second) work.push_back(m);
        }
      }
    } else if (isa<CXXThisExpr>(e)) {
      K("This");
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      K("Zero");
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      K("Sub");
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
    } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      K("New");
      o["at"] = typeId(x->getAllocatedType());
      o["init"] = x->getInitializer() ? expr(x->getInitializer()) : Value(nullptr);
      o["array"] = x->isArray();
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      K("Del");
      o["e"] = expr(x->getArgument());
    } else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
      return expr(x->getSourceExpr());
    } else if (isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e) ||
               isa<SizeOfPackExpr>(e) || isa<ConceptSpecializationExpr>(e) || isa<RequiresExpr>(e)) {
      K("Lit");
    } else {
      K("Unk");
      o["why"] = e->getStmtClassName();
    }
    return o;
  }

  std::string gkey(const VarDecl *v) {
    std::string n = v->getQualifiedNameAsString();
    if (v->isStaticLocal()) {
      if (auto *f = dyn_cast<FunctionDecl>(v->getDeclContext())) n = funcKey(f) + "::" + n;
    }
    if (!v->isExternallyVisible()) n = tuFile + "::" + n;
    return n;
  }
  void noteGlobal(const VarDecl *v0) {
    std::string k = gkey(v0);
    if (globals.get(k)) return;
    const VarDecl *v = v0->getDefinition(C);
    if (!v) v = v0;
    Object o;
    o["n"] = v->getQualifiedNameAsString();
    o["t"] = typeId(v->getType());
    o["own"] = inRoots(v->getLocation());
    o["file"] = fileOf(v->getLocation());
    o["ln"] = lineOf(v->getLocation());
    o["const"] = v->getType().isConstQualified();
    o["constexpr"] = v->isConstexpr();
    o["static_local"] = v->isStaticLocal();
    o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
    globals[k] = nullptr;
    const VarDecl *iv = nullptr;
    if (auto *init = v->getAnyInitializer(iv)) {
      if (!init->isValueDependent() && inRoots(v->getLocation())) o["init"] = expr(init);
      if (iv && !iv->getType()->isDependentType() && v->getType().isConstQualified())
        if (auto *ev = iv->evaluateValue()) {
          if (ev->isInt()) o["cv"] = (int64_t)ev->getInt().getExtValue();
          else if (ev->isFloat()) o["cv"] = dbl(ev->getFloat());
        }
    }
    globals[k] = std::move(o);
  }

  // ------------------------------------------------------------- statements
  Value varDecl(const VarDecl *v) {
    Object o;
    o["d"] = declId(v);
    o["n"] = v->getNameAsString();
    o["t"] = typeId(v->getType());
    o["ln"] = lineOf(v->getLocation());
    if (v->isStaticLocal()) {
      o["static"] = gkey(v);
      noteGlobal(v);
    }
    if (v->hasGlobalStorage() && !v->isStaticLocal()) o["g"] = gkey(v);
    if (v->getInit()) o["init"] = expr(v->getInit());
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      Array hs;
      for (auto *b : dd->bindings())
        if (auto *h = b->getHoldingVar()) hs.push_back(varDecl(h));
      if (!hs.empty()) o["holding"] = std::move(hs);
    }
    return o;
  }

  Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) {
      Object o;
      o["k"] = "Expr";
      o["e"] = expr(e);
      return o;
    }
    Object o;
    o["ln"] = lineOf(s->getBeginLoc());
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      K("Block");
      Array a;
      for (auto *c : x->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
    } else if (auto *x = dyn_cast<DeclStmt>(s)) {
      K("Decl");
      Array a;
      for (auto *d : x->decls()) {
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      }
      o["v"] = std::move(a);
    } else if (auto *x = dyn_cast<IfStmt>(s)) {
      if (x->isConstexpr()) {
        // discarded branches are absent in instantiations
        Expr::EvalResult r;
        const Expr *c = x->getCond();
        if (c && !c->isValueDependent() && c->EvaluateAsConstantExpr(r, C) && r.Val.isInt()) {
          bool b = r.Val.getInt().getBoolValue();
          const Stmt *t = b ? x->getThen() : x->getElse();
          if (!t) {
            K("Null");
            return o;
          }
          if (!x->getInit()) return stmt(t);
        }
      }
      K("If");
      o["init"] = stmt(x->getInit());
      o["cv"] = x->getConditionVariable() ? varDecl(x->getConditionVariable()) : Value(nullptr);
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      o["e"] = stmt(x->getElse());
    } else if (auto *x = dyn_cast<ForStmt>(s)) {
      K("For");
      o["init"] = stmt(x->getInit());
      o["cv"] = x->getConditionVariable() ? varDecl(x->getConditionVariable()) : Value(nullptr);
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<WhileStmt>(s)) {
      K("While");
      o["cv"] = x->getConditionVariable() ? varDecl(x->getConditionVariable()) : Value(nullptr);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(s)) {
      K("Do");
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      K("Range");
      o["init"] = stmt(x->getInit());
      o["range"] = stmt(x->getRangeStmt());
      o["rinit"] = expr(x->getRangeInit());
      o["begin"] = stmt(x->getBeginStmt());
      o["end"] = stmt(x->getEndStmt());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["lv"] = stmt(x->getLoopVarStmt());
      o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<SwitchStmt>(s)) {
      K("Switch");
      o["init"] = stmt(x->getInit());
      o["cv"] = x->getConditionVariable() ? varDecl(x->getConditionVariable()) : Value(nullptr);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<CaseStmt>(s)) {
      K("Case");
      o["v"] = expr(x->getLHS());
      if (x->getRHS()) o["v2"] = expr(x->getRHS());
      o["s"] = stmt(x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
      K("Default");
      o["s"] = stmt(x->getSubStmt());
    } else if (isa<BreakStmt>(s)) K("Break");
    else if (isa<ContinueStmt>(s)) K("Continue");
    else if (isa<NullStmt>(s)) K("Null");
    else if (auto *x = dyn_cast<ReturnStmt>(s)) {
      K("Return");
      o["e"] = expr(x->getRetValue());
    } else if (auto *x = dyn_cast<AttributedStmt>(s)) {
      return stmt(x->getSubStmt());
    } else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      K("Unk");
      o["why"] = "try";
    } else {
      K("Unk");
      o["why"] = s->getStmtClassName();
    }
    return o;
  }

  // ------------------------------------------------------------- functions
  void doFunc(const FunctionDecl *f) {
    if (auto *d = f->getDefinition()) f = d;
    if (f->isDependentContext()) return;
    std::string k = funcKey(f);
    if (funcs.get(k)) return;
    Object o;
    o["qn"] = f->getQualifiedNameAsString();
    o["n"] = f->getNameAsString();
    o["file"] = fileOf(f->getLocation());
    o["ln"] = lineOf(f->getLocation());
    o["ret"] = typeId(f->getReturnType());
    o["ext"] = f->isExternallyVisible();
    o["pinst"] = f->isTemplateInstantiation();
    Array ps;
    for (auto *p : f->parameters()) {
      Object po;
      po["d"] = declId(p);
      po["n"] = p->getNameAsString();
      po["t"] = typeId(p->getType());
      ps.push_back(std::move(po));
    }
    o["ps"] = std::move(ps);
    funcs[k] = nullptr;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = recKey(m->getParent());
      o["st"] = m->isStatic();
      o["const"] = m->isConst();
      o["virt"] = m->isVirtual();
      if (m->getAccess() != AS_public) o["acc"] = "nonpublic";
    }
    if (f->isDefaulted() && !f->isUserProvided()) o["defaulted"] = true;
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      o["copy"] = c->isCopyOrMoveConstructor();
      Array in;
      for (auto *i : c->inits()) {
        Object io;
        if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = typeId(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = expr(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    if (f->getBody()) o["body"] = stmt(f->getBody());
    funcs[k] = std::move(o);
  }

  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->isThisDeclarationADefinition() && !f->isDefaulted()) return true;
    if (f->isDependentContext()) return true;
    if (!inRoots(f->getLocation())) return true;
    if (!f->doesThisDeclarationHaveABody()) return true;
    enqueue(f);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->hasGlobalStorage() && inRoots(v->getLocation()) && !v->getDeclContext()->isDependentContext() &&
        !v->getType()->isDependentType())
      noteGlobal(v);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isThisDeclarationADefinition() && inRoots(r->getLocation()) && !r->isDependentContext())
      typeId(C.getRecordType(r));
    return true;
  }

  void run() {
    tuFile = SM.getFileEntryRefForID(SM.getMainFileID())->getName().str();
    TraverseDecl(C.getTranslationUnitDecl());
    while (!work.empty()) {
      auto *f = work.back();
      work.pop_back();
      doFunc(f);
    }
    Object top;
    top["tu"] = tuFile;
    top["funcs"] = std::move(funcs);
    top["recs"] = std::move(recs);
    top["enums"] = std::move(enums);
    top["globals"] = std::move(globals);
    top["types"] = std::move(types);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << Value(std::move(top)) << "\n";
  }
};

class Cons : public ASTConsumer {
 public:
  CompilerInstance &CI;
  Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &c) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Exporter(c).run();
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Cons>(CI);
  }
};

// usage: inkdump OUT.json SRC ROOT[,ROOT...] -- flags
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  gOut = argv[1];
  std::string src = argv[2], roots = argv[3];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t q = roots.find(',', p);
    if (q == std::string::npos) q = roots.size();
    gRoots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
