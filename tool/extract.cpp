// Fact extractor: parses translation units of the repository with clang and
// dumps the resolved (type-checked, template-instantiated) program as compact
// JSON: functions with typed statement trees, classes, enums, variables.
//
// usage: extract OUT.json REPO_PREFIX FILE... -- CLANG-FLAGS...
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>

using namespace clang;
namespace json = llvm::json;

static std::string g_prefix;
static json::Array g_functions, g_classes, g_enums, g_vars, g_tus;
static std::set<std::string> g_seen_fn, g_seen_cls, g_seen_enum, g_seen_var;

namespace {

int64_t i64(const llvm::APSInt& v) {
  if (v.isRepresentableByInt64()) return v.getExtValue();
  return static_cast<int64_t>(v.getLimitedValue());
}


class Dumper {
 public:
  explicit Dumper(ASTContext &ctx)
      : ctx_(ctx), sm_(ctx.getSourceManager()), pol_(ctx.getLangOpts()) {
    pol_.SuppressTagKeyword = true;
    pol_.FullyQualifiedName = true;
    pol_.PrintCanonicalTypes = true;
    pol_.Bool = true;
    pol_.AnonymousTagLocations = true;
    pol_.SuppressUnwrittenScope = true;
  }

  std::string file(SourceLocation loc) {
    loc = sm_.getFileLoc(loc);
    PresumedLoc p = sm_.getPresumedLoc(loc, false);
    return p.isValid() ? p.getFilename() : "";
  }
  int line(SourceLocation loc) {
    loc = sm_.getFileLoc(loc);
    PresumedLoc p = sm_.getPresumedLoc(loc, false);
    return p.isValid() ? p.getLine() : 0;
  }
  bool inRepo(const Decl *d) {
    std::string f = file(d->getLocation());
    return f.rfind(g_prefix, 0) == 0 && f.find("/_build/") == std::string::npos;
  }
  std::string usr(const Decl *d) {
    llvm::SmallString<128> buf;
    if (index::generateUSRForDecl(d, buf))
      return "?" + id(d);
    std::string r = std::string(buf.str());
    // Template specialisations of member functions of local classes / lambdas
    // may collide; disambiguate with the type.
    if (auto *fd = dyn_cast<FunctionDecl>(d)) {
      if (auto *md = dyn_cast<CXXMethodDecl>(fd))
        if (md->getParent()->isLambda() || md->getParent()->isLocalClass()) {
          r += "@" + std::to_string(line(md->getParent()->getLocation())) + ":" +
               std::to_string(sm_.getPresumedColumnNumber(
                   sm_.getFileLoc(md->getParent()->getLocation())));
          // enclosing function
          const DeclContext *dc = md->getParent()->getDeclContext();
          while (dc && !dc->isFunctionOrMethod()) dc = dc->getParent();
          if (dc)
            if (auto *pf = dyn_cast<FunctionDecl>(dc)) r += "<" + usr(pf) + ">";
        }
    }
    return r;
  }
  // Identity of a variable, stable across translation units.
  std::string id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids_.find(d);
    if (it != ids_.end()) return it->second;
    SourceLocation loc = sm_.getFileLoc(d->getLocation());
    PresumedLoc p = sm_.getPresumedLoc(loc, false);
    std::string n;
    if (auto *nd = dyn_cast<NamedDecl>(d)) n = nd->getNameAsString();
    if (p.isValid())
      n += "@" + std::to_string(p.getLine()) + ":" + std::to_string(p.getColumn());
    else
      n += "@#" + std::to_string(++next_id_);
    // The parameters expanded from one pack share their location.
    if (auto *pd = dyn_cast<ParmVarDecl>(d)) {
      if (auto *fd = dyn_cast_or_null<FunctionDecl>(pd->getDeclContext())) {
        for (auto *other : fd->parameters())
          if (other != pd && other->getLocation() == pd->getLocation()) {
            n += "#" + std::to_string(pd->getFunctionScopeIndex());
            break;
          }
      }
    }
    ids_[d] = n;
    return n;
  }
  std::string type(QualType t) {
    if (t.isNull()) return "";
    auto key = t.getCanonicalType();
    auto it = types_.find(key.getAsOpaquePtr());
    if (it != types_.end()) return it->second;
    std::string s = key.getAsString(pol_);
    // A local class prints without the function it is in; two of them may share their name.
    QualType core = key;
    while (true) {
      if (core->isReferenceType() || core->isPointerType()) core = core->getPointeeType();
      else break;
    }
    if (auto *rd = core->getAsCXXRecordDecl(); rd && !rd->isLambda() &&
        !isa<ClassTemplateSpecializationDecl>(rd) && rd->getParentFunctionOrMethod()) {
      std::string n = core.getUnqualifiedType().getAsString(pol_), q = qname(rd);
      size_t at = s.find(n);
      if (at != std::string::npos && q != n) s.replace(at, n.size(), q);
    }
    types_[key.getAsOpaquePtr()] = s;
    return s;
  }
  std::string qname(const NamedDecl *d) {
    // A class directly in a function is named as its members name it.
    if (auto *rd = dyn_cast<CXXRecordDecl>(d);
        rd && rd->getIdentifier() && rd->getDeclContext()->isFunctionOrMethod()) {
      for (auto *m : rd->decls()) {
        auto *in = dyn_cast<CXXRecordDecl>(m);
        if (!in || !in->isInjectedClassName()) continue;
        std::string s = qname(in);
        return s.substr(0, s.size() - rd->getName().size() - 2);
      }
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *fd = dyn_cast<FunctionDecl>(d)) {
      fd->getNameForDiagnostic(os, pol_, true);
    } else {
      d->getNameForDiagnostic(os, pol_, true);
    }
    os.flush();
    return s;
  }

  void enqueue(const FunctionDecl *fd) {
    if (!fd) return;
    const FunctionDecl *def = nullptr;
    if (!fd->hasBody(def) || !def) {
      def = nullptr;
      // a declaration only (pure virtual, extern)
      return;
    }
    if (def->isDependentContext()) return;
    if (!inRepo(def)) return;
    if (queued_.insert(def).second) queue_.push_back(def);
  }

  void drain() {
    while (!queue_.empty()) {
      const FunctionDecl *fd = queue_.front();
      queue_.pop_front();
      dumpFunction(fd);
    }
  }

  void dumpFunction(const FunctionDecl *fd) {
    std::string u = usr(fd);
    if (!g_seen_fn.insert(u).second) return;
    json::Object o;
    o["usr"] = u;
    o["qn"] = qname(fd);
    o["name"] = fd->getNameAsString();
    o["file"] = file(fd->getLocation());
    o["line"] = line(fd->getLocation());
    o["end"] = line(fd->getEndLoc());
    o["ret"] = type(fd->getReturnType());
    if (fd->isImplicit()) o["implicit"] = true;
    if (fd->isDefaulted()) o["defaulted"] = true;
    if (auto *fpt = fd->getType()->getAs<FunctionProtoType>()) {
      if (fpt->getExceptionSpecType() != EST_Unevaluated &&
          fpt->getExceptionSpecType() != EST_Uninstantiated &&
          fpt->isNothrow())
        o["nx"] = true;
    }
    json::Array ps;
    for (auto *p : fd->parameters()) {
      json::Object po{{"name", p->getNameAsString()},
                      {"id", id(p)},
                      {"t", type(p->getType())}};
      if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() &&
          !p->hasUninstantiatedDefaultArg() && p->getDefaultArg())
        po["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto *pat = fd->getTemplateInstantiationPattern()) {
      o["pat"] = usr(pat);
    }
    if (auto *args = fd->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &a : args->asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        a.print(pol_, os, true);
        ta.push_back(os.str());
      }
      o["targs"] = std::move(ta);
    }
    std::string kind = "func";
    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
      kind = "method";
      o["cls"] = qname(md->getParent());
      o["clsusr"] = usr(md->getParent());
      if (md->isVirtual()) o["virt"] = true;
      if (md->isStatic()) o["static"] = true;
      if (md->isConst()) o["const"] = true;
      json::Array ov;
      for (auto *m : md->overridden_methods()) ov.push_back(usr(m));
      if (!ov.empty()) o["over"] = std::move(ov);
      o["access"] = (int)md->getAccess();
      if (md->getParent()->isLambda()) kind = "lambda";
      if (md->getParent()->isLocalClass()) o["local"] = true;
    }
    if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
      kind = "ctor";
      json::Array inits;
      for (auto *i : cd->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) {
          io["field"] = i->getAnyMember()->getNameAsString();
        } else if (i->isBaseInitializer()) {
          io["base"] = type(QualType(i->getBaseClass(), 0));
        } else if (i->isDelegatingInitializer()) {
          io["deleg"] = true;
        }
        if (i->isWritten()) io["written"] = true;
        io["l"] = line(i->getSourceLocation());
        if (i->getInit()) io["e"] = expr(i->getInit());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
      if (cd->isCopyOrMoveConstructor()) o["copymove"] = true;
    } else if (isa<CXXDestructorDecl>(fd)) {
      kind = "dtor";
    } else if (isa<CXXConversionDecl>(fd)) {
      kind = "conv";
    }
    o["kind"] = kind;
    // enclosing function for local classes and lambdas
    for (const DeclContext *dc = fd->getParent(); dc; dc = dc->getParent()) {
      if (auto *pf = dyn_cast<FunctionDecl>(dc)) {
        o["encl"] = usr(pf);
        break;
      }
    }
    if (fd->hasAttr<NoReturnAttr>() || fd->isNoReturn()) o["noreturn"] = true;
    o["static_storage"] = fd->getStorageClass() == SC_Static;
    o["anon"] = fd->isInAnonymousNamespace();
    if (const Stmt *b = fd->getBody()) o["body"] = stmt(b);
    g_functions.push_back(std::move(o));
  }

  void dumpClass(const CXXRecordDecl *rd) {
    rd = rd->getDefinition();
    if (!rd || rd->isDependentContext()) return;
    if (!inRepo(rd)) return;
    std::string u = usr(rd);
    if (rd->isLocalClass() || rd->isLambda())
      u += "@" + std::to_string(line(rd->getLocation()));
    if (!g_seen_cls.insert(u).second) return;
    json::Object o;
    o["usr"] = u;
    o["qn"] = qname(rd);
    o["t"] = type(ctx_.getRecordType(rd));
    o["file"] = file(rd->getLocation());
    o["line"] = line(rd->getLocation());
    if (rd->isLambda()) o["lambda"] = true;
    if (rd->isLocalClass()) o["local"] = true;
    if (rd->isAbstract()) o["abstract"] = true;
    json::Array bases;
    for (auto &b : rd->bases()) {
      json::Object bo{{"t", type(b.getType())},
                      {"acc", (int)b.getAccessSpecifier()}};
      if (auto *br = b.getType()->getAsCXXRecordDecl())
        if (br->getDefinition()) dumpClass(br);
      bases.push_back(std::move(bo));
    }
    o["bases"] = std::move(bases);
    json::Array fields;
    for (auto *f : rd->fields()) {
      json::Object fo{{"name", f->getNameAsString()},
                      {"t", type(f->getType())},
                      {"l", line(f->getLocation())},
                      {"acc", (int)f->getAccess()}};
      if (f->isMutable()) fo["mutable"] = true;
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = expr(f->getInClassInitializer());
      fields.push_back(std::move(fo));
    }
    o["fields"] = std::move(fields);
    json::Array methods;
    for (auto *d : rd->decls()) {
      if (auto *m = dyn_cast<CXXMethodDecl>(d)) {
        if (m->isImplicit() && !isa<CXXDestructorDecl>(m) && !isa<CXXConstructorDecl>(m)) continue;
        json::Object mo{{"usr", usr(m)},
                        {"name", m->getNameAsString()},
                        {"acc", (int)m->getAccess()},
                        {"l", line(m->getLocation())}};
        if (m->isVirtual()) mo["virt"] = true;
        if (m->isPureVirtual()) mo["pure"] = true;
        if (m->isDeleted()) mo["del"] = true;
        if (m->isImplicit()) mo["implicit"] = true;
        if (m->isConst()) mo["const"] = true;
        json::Array ov;
        for (auto *x : m->overridden_methods()) ov.push_back(usr(x));
        if (!ov.empty()) mo["over"] = std::move(ov);
        methods.push_back(std::move(mo));
        enqueue(m);
      } else if (auto *v = dyn_cast<VarDecl>(d)) {
        dumpVar(v);
      } else if (auto *n = dyn_cast<CXXRecordDecl>(d)) {
        if (!n->isImplicit()) dumpClass(n);
      } else if (auto *e = dyn_cast<EnumDecl>(d)) {
        dumpEnum(e);
      } else if (auto *ft = dyn_cast<FunctionTemplateDecl>(d)) {
        for (auto *s : ft->specializations()) enqueue(s);
      }
    }
    o["methods"] = std::move(methods);
    g_classes.push_back(std::move(o));
  }

  void dumpEnum(const EnumDecl *ed) {
    ed = ed->getDefinition();
    if (!ed || !inRepo(ed)) return;
    std::string u = usr(ed);
    if (!g_seen_enum.insert(u).second) return;
    json::Object o{{"usr", u},
                   {"qn", qname(ed)},
                   {"t", type(ctx_.getEnumType(ed))},
                   {"file", file(ed->getLocation())},
                   {"line", line(ed->getLocation())}};
    json::Array es;
    for (auto *e : ed->enumerators())
      es.push_back(json::Object{{"name", e->getNameAsString()},
                                {"v", i64(e->getInitVal())}});
    o["enumerators"] = std::move(es);
    g_enums.push_back(std::move(o));
  }

  void dumpVar(const VarDecl *vd) {
    const VarDecl *def = vd->getDefinition();
    if (!def) def = vd->getInitializingDeclaration();
    if (!def) {
      if (vd->hasInit()) def = vd; else return;
    }
    if (!inRepo(def) || def->isLocalVarDecl() || isa<ParmVarDecl>(def)) return;
    if (def->getType()->isDependentType() ||
        def->getDeclContext()->isDependentContext())
      return;
    std::string u = usr(def);
    if (!g_seen_var.insert(u).second) return;
    json::Object o{{"usr", u},
                   {"qn", qname(def)},
                   {"id", id(def)},
                   {"t", type(def->getType())},
                   {"file", file(def->getLocation())},
                   {"line", line(def->getLocation())},
                   {"const", def->getType().isConstQualified()}};
    if (def->getInit()) o["init"] = expr(def->getInit());
    g_vars.push_back(std::move(o));
  }

 private:
  json::Object node(const char *k, const Stmt *s) {
    json::Object o;
    o["k"] = k;
    SourceLocation b = s->getBeginLoc();
    o["l"] = line(b);
    if (b.isMacroID()) {
      SourceLocation l = b;
      std::string outer;
      while (l.isMacroID()) {
        if (!sm_.isMacroArgExpansion(l))
          outer = Lexer::getImmediateMacroName(l, sm_, ctx_.getLangOpts()).str();
        l = sm_.getImmediateMacroCallerLoc(l);
      }
      if (!outer.empty()) o["m"] = outer;
    }
    return o;
  }

  json::Value vardecl(const VarDecl *v) {
    json::Object o{{"name", v->getNameAsString()},
                   {"id", id(v)},
                   {"t", type(v->getType())},
                   {"l", line(v->getLocation())}};
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = expr(v->getInit());
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      for (auto *b : dd->bindings()) {
        json::Object bo{{"name", b->getNameAsString()}, {"id", id(b)}};
        if (auto *be = b->getBinding()) bo["e"] = expr(be);
        bs.push_back(std::move(bo));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

 public:
  json::Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) return expr(e);
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        auto o = node("Compound", s);
        json::Array c;
        for (auto *x : cast<CompoundStmt>(s)->body()) c.push_back(stmt(x));
        o["c"] = std::move(c);
        return o;
      }
      case Stmt::IfStmtClass: {
        auto *i = cast<IfStmt>(s);
        auto o = node("If", s);
        if (i->isConstexpr()) {
          o["constexpr"] = true;
          // keep only the taken branch
          Expr::EvalResult r;
          if (i->getCond() && !i->getCond()->isValueDependent() &&
              i->getCond()->EvaluateAsRValue(r, ctx_) && r.Val.isInt()) {
            bool v = r.Val.getInt().getBoolValue();
            const Stmt *taken = v ? i->getThen() : i->getElse();
            if (taken) return stmt(taken);
            return node("Null", s);
          }
        }
        if (i->getInit()) o["init"] = stmt(i->getInit());
        if (i->getConditionVariable())
          o["var"] = vardecl(i->getConditionVariable());
        o["cond"] = expr(i->getCond());
        o["then"] = stmt(i->getThen());
        if (i->getElse()) o["else"] = stmt(i->getElse());
        return o;
      }
      case Stmt::ForStmtClass: {
        auto *f = cast<ForStmt>(s);
        auto o = node("For", s);
        if (f->getInit()) o["init"] = stmt(f->getInit());
        if (f->getCond()) o["cond"] = expr(f->getCond());
        if (f->getInc()) o["inc"] = expr(f->getInc());
        o["body"] = stmt(f->getBody());
        return o;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto *f = cast<CXXForRangeStmt>(s);
        auto o = node("RangeFor", s);
        if (f->getInit()) o["init"] = stmt(f->getInit());
        o["var"] = vardecl(f->getLoopVariable());
        o["range"] = expr(f->getRangeInit());
        o["body"] = stmt(f->getBody());
        return o;
      }
      case Stmt::WhileStmtClass: {
        auto *f = cast<WhileStmt>(s);
        auto o = node("While", s);
        if (f->getConditionVariable())
          o["var"] = vardecl(f->getConditionVariable());
        o["cond"] = expr(f->getCond());
        o["body"] = stmt(f->getBody());
        return o;
      }
      case Stmt::DoStmtClass: {
        auto *f = cast<DoStmt>(s);
        auto o = node("Do", s);
        o["cond"] = expr(f->getCond());
        o["body"] = stmt(f->getBody());
        return o;
      }
      case Stmt::SwitchStmtClass: {
        auto *f = cast<SwitchStmt>(s);
        auto o = node("Switch", s);
        if (f->getInit()) o["init"] = stmt(f->getInit());
        if (f->getConditionVariable())
          o["var"] = vardecl(f->getConditionVariable());
        o["cond"] = expr(f->getCond());
        o["body"] = stmt(f->getBody());
        return o;
      }
      case Stmt::CaseStmtClass: {
        auto *f = cast<CaseStmt>(s);
        auto o = node("Case", s);
        o["v"] = expr(f->getLHS());
        Expr::EvalResult r;
        if (f->getLHS()->EvaluateAsInt(r, ctx_))
          o["cv"] = i64(r.Val.getInt());
        o["sub"] = stmt(f->getSubStmt());
        return o;
      }
      case Stmt::DefaultStmtClass: {
        auto o = node("Default", s);
        o["sub"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
        return o;
      }
      case Stmt::BreakStmtClass: return node("Break", s);
      case Stmt::ContinueStmtClass: return node("Continue", s);
      case Stmt::NullStmtClass: return node("Null", s);
      case Stmt::ReturnStmtClass: {
        auto o = node("Return", s);
        if (auto *v = cast<ReturnStmt>(s)->getRetValue()) o["e"] = expr(v);
        return o;
      }
      case Stmt::DeclStmtClass: {
        auto o = node("Decl", s);
        json::Array vs;
        for (auto *d : cast<DeclStmt>(s)->decls()) {
          if (auto *v = dyn_cast<VarDecl>(d)) vs.push_back(vardecl(v));
          else if (auto *r = dyn_cast<CXXRecordDecl>(d)) {
            dumpClass(r);
          }
        }
        o["vars"] = std::move(vs);
        return o;
      }
      case Stmt::CXXTryStmtClass: {
        auto *t = cast<CXXTryStmt>(s);
        auto o = node("Try", s);
        o["body"] = stmt(t->getTryBlock());
        json::Array cs;
        for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
          auto *h = t->getHandler(i);
          json::Object ho;
          ho["l"] = line(h->getBeginLoc());
          if (h->getExceptionDecl()) {
            ho["t"] = type(h->getCaughtType());
            ho["var"] = vardecl(h->getExceptionDecl());
          }
          ho["body"] = stmt(h->getHandlerBlock());
          cs.push_back(std::move(ho));
        }
        o["catches"] = std::move(cs);
        return o;
      }
      case Stmt::LabelStmtClass: {
        auto o = node("Label", s);
        o["sub"] = stmt(cast<LabelStmt>(s)->getSubStmt());
        return o;
      }
      case Stmt::AttributedStmtClass:
        return stmt(cast<AttributedStmt>(s)->getSubStmt());
      default: {
        auto o = node("OtherStmt", s);
        o["ck"] = s->getStmtClassName();
        json::Array c;
        for (auto *x : s->children())
          if (x) c.push_back(stmt(x));
        o["c"] = std::move(c);
        return o;
      }
    }
  }

  json::Array args(llvm::ArrayRef<const Expr *> a) {
    json::Array r;
    for (auto *x : a) r.push_back(expr(x));
    return r;
  }

  void calleeInfo(json::Object &o, const FunctionDecl *fd) {
    enqueue(fd);
    o["fn"] = usr(fd);
    o["qn"] = qname(fd);
    o["name"] = fd->getNameAsString();
    if (auto *pat = fd->getTemplateInstantiationPattern())
      o["pat"] = usr(pat);
    if (inRepo(fd)) o["repo"] = true;
    if (auto *fpt = fd->getType()->getAs<FunctionProtoType>())
      if (fpt->getExceptionSpecType() != EST_Unevaluated &&
          fpt->getExceptionSpecType() != EST_Uninstantiated &&
          fpt->isNothrow())
        o["nx"] = true;
    if (fd->isNoReturn()) o["noreturn"] = true;
    json::Array pts;
    for (auto *p : fd->parameters()) pts.push_back(type(p->getType()));
    o["pt"] = std::move(pts);
  }

  json::Value expr(const Expr *e) {
    if (!e) return nullptr;
    switch (e->getStmtClass()) {
      case Stmt::ParenExprClass:
        return expr(cast<ParenExpr>(e)->getSubExpr());
      case Stmt::ExprWithCleanupsClass:
        return expr(cast<ExprWithCleanups>(e)->getSubExpr());
      case Stmt::MaterializeTemporaryExprClass:
        return expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
      case Stmt::CXXBindTemporaryExprClass:
        return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
      case Stmt::ConstantExprClass:
        return expr(cast<ConstantExpr>(e)->getSubExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass:
        return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
      case Stmt::CXXDefaultArgExprClass:
        return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
      case Stmt::CXXDefaultInitExprClass:
        return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
      case Stmt::CXXRewrittenBinaryOperatorClass:
        return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
      case Stmt::CXXStdInitializerListExprClass:
        return expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
      case Stmt::ImplicitCastExprClass: {
        auto *c = cast<ImplicitCastExpr>(e);
        switch (c->getCastKind()) {
          case CK_LValueToRValue:
          case CK_NoOp:
          case CK_FunctionToPointerDecay:
          case CK_ArrayToPointerDecay:
          case CK_ConstructorConversion:
          case CK_UserDefinedConversion:
          case CK_UncheckedDerivedToBase:
          case CK_DerivedToBase:
          case CK_BuiltinFnToFnPtr:
            return expr(c->getSubExpr());
          default: break;
        }
        auto o = node("Cast", e);
        o["ck"] = c->getCastKindName();
        o["t"] = type(e->getType());
        o["imp"] = true;
        o["e"] = expr(c->getSubExpr());
        return o;
      }
      default: break;
    }
    if (auto *c = dyn_cast<ExplicitCastExpr>(e)) {
      auto o = node("Cast", e);
      o["ck"] = c->getCastKindName();
      o["t"] = type(e->getType());
      if (isa<CXXConstCastExpr>(e)) o["style"] = "const";
      else if (isa<CXXStaticCastExpr>(e)) o["style"] = "static";
      else if (isa<CXXDynamicCastExpr>(e)) o["style"] = "dynamic";
      else if (isa<CXXReinterpretCastExpr>(e)) o["style"] = "reinterpret";
      else o["style"] = "c";
      o["e"] = expr(c->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      auto o = node("Int", e);
      o["v"] = (int64_t)x->getValue().getLimitedValue();
      o["t"] = type(e->getType());
      return o;
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      auto o = node("Float", e);
      o["v"] = x->getValueAsApproximateDouble();
      o["t"] = type(e->getType());
      return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      auto o = node("Str", e);
      o["v"] = x->isOrdinary() ? json::fixUTF8(x->getString()) : std::string("<wide>");
      return o;
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      auto o = node("Char", e);
      o["v"] = (int64_t)x->getValue();
      return o;
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      auto o = node("Bool", e);
      o["v"] = x->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return node("Nullptr", e);
    if (isa<CXXThisExpr>(e)) {
      auto o = node("This", e);
      o["t"] = type(e->getType());
      return o;
    }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto o = node("Ref", e);
      const ValueDecl *d = x->getDecl();
      o["name"] = d->getNameAsString();
      o["t"] = type(e->getType());
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum";
        o["qn"] = qname(ec);
        o["cv"] = i64(ec->getInitVal());
      } else if (auto *fd = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "func";
        calleeInfo(o, fd);
      } else if (isa<ParmVarDecl>(d)) {
        o["dk"] = "param";
        o["id"] = id(d);
      } else if (auto *vd = dyn_cast<VarDecl>(d)) {
        o["id"] = id(vd);
        if (vd->isLocalVarDecl() ) {
          o["dk"] = vd->isStaticLocal() ? "slocal" : "local";
        } else {
          o["dk"] = "global";
          o["qn"] = qname(vd);
          o["usr"] = usr(vd);
          dumpVar(vd);
        }
        constval(o, e);
      } else if (isa<BindingDecl>(d)) {
        o["dk"] = "binding";
        o["id"] = id(d);
      } else {
        o["dk"] = d->getDeclKindName();
      }
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto *md = x->getMemberDecl();
      auto o = node("Member", e);
      o["name"] = md->getNameAsString();
      o["t"] = type(e->getType());
      if (auto *fd = dyn_cast<FunctionDecl>(md)) {
        o["dk"] = "method";
        calleeInfo(o, fd);
      } else if (isa<FieldDecl>(md)) {
        o["dk"] = "field";
        o["cls"] = qname(cast<FieldDecl>(md)->getParent());
      } else if (auto *vd = dyn_cast<VarDecl>(md)) {
        o["dk"] = "global";
        o["qn"] = qname(vd);
        o["usr"] = usr(vd);
        dumpVar(vd);
        constval(o, e);
      } else if (auto *ec = dyn_cast<EnumConstantDecl>(md)) {
        o["dk"] = "enum";
        o["qn"] = qname(ec);
        o["cv"] = i64(ec->getInitVal());
      }
      if (x->isArrow()) o["arrow"] = true;
      o["e"] = expr(x->getBase());
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto o = node("Call", e);
      o["t"] = type(e->getType());
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *fd = x->getDirectCallee()) {
        calleeInfo(o, fd);
        if (auto *md = dyn_cast<CXXMethodDecl>(fd); md && !md->isStatic()) {
          o["o"] = expr(x->getArg(0));
          json::Array a;
          for (unsigned i = 1; i < x->getNumArgs(); ++i)
            a.push_back(expr(x->getArg(i)));
          o["a"] = std::move(a);
          return o;
        }
      } else {
        o["callee"] = expr(x->getCallee());
      }
      json::Array a;
      for (auto *y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto o = node("Call", e);
      o["t"] = type(e->getType());
      if (auto *md = x->getMethodDecl()) {
        calleeInfo(o, md);
        bool virt = md->isVirtual();
        if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
          if (me->hasQualifier()) virt = false;
          if (me->isArrow()) o["arrow"] = true;
        }
        if (virt && !md->hasAttr<FinalAttr>()) o["virt"] = true;
        o["o"] = expr(x->getImplicitObjectArgument());
      } else {
        o["callee"] = expr(x->getCallee());
      }
      json::Array a;
      for (auto *y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      auto o = node("Call", e);
      o["t"] = type(e->getType());
      if (auto *fd = x->getDirectCallee()) {
        calleeInfo(o, fd);
        // methods called through function-call syntax (static)
      } else {
        o["callee"] = expr(x->getCallee());
      }
      json::Array a;
      for (auto *y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      // elide trivial copies of temporaries
      if (x->isElidable() && x->getNumArgs() >= 1)
        return expr(x->getArg(0));
      auto o = node("Construct", e);
      o["t"] = type(e->getType());
      calleeInfo(o, x->getConstructor());
      if (x->isListInitialization()) o["list"] = true;
      if (isa<CXXTemporaryObjectExpr>(e)) o["temp"] = true;
      if (x->getConstructor()->isCopyOrMoveConstructor()) {
        o["copy"] = x->getConstructor()->isMoveConstructor() ? "move" : "copy";
      }
      json::Array a;
      for (auto *y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      auto o = node("Construct", e);
      o["t"] = type(e->getType());
      calleeInfo(o, x->getConstructor());
      o["inherited"] = true;
      o["a"] = json::Array();
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      auto o = node("New", e);
      o["t"] = type(x->getAllocatedType());
      if (x->getInitializer()) o["e"] = expr(x->getInitializer());
      json::Array pl;
      for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i)
        pl.push_back(expr(x->getPlacementArg(i)));
      if (!pl.empty()) o["placement"] = std::move(pl);
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      auto o = node("Delete", e);
      o["e"] = expr(x->getArgument());
      o["t"] = type(x->getDestroyedType());
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      auto o = node("Un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
      if (x->isPostfix()) o["post"] = true;
      o["t"] = type(e->getType());
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      auto o = node(x->isAssignmentOp() ? "Assign" : "Bin", e);
      o["op"] = x->getOpcodeStr();
      o["t"] = type(e->getType());
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      if (auto *ca = dyn_cast<CompoundAssignOperator>(e))
        o["ct"] = type(ca->getComputationResultType());
      return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      auto o = node("Cond", e);
      o["t"] = type(e->getType());
      o["cond"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      auto o = node("Index", e);
      o["t"] = type(e->getType());
      o["a"] = expr(x->getBase());
      o["b"] = expr(x->getIdx());
      return o;
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      auto o = node("Lambda", e);
      const CXXMethodDecl *op = x->getCallOperator();
      json::Array fns;
      if (auto *ft = op->getDescribedFunctionTemplate()) {
        o["generic"] = true;
        for (auto *s : ft->specializations()) {
          enqueue(s);
          fns.push_back(usr(s));
        }
      } else {
        enqueue(op);
        fns.push_back(usr(op));
      }
      o["fns"] = std::move(fns);
      o["t"] = type(e->getType());
      json::Array caps;
      auto ii = x->capture_init_begin();
      for (auto &c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        if (c.capturesVariable()) {
          co["name"] = c.getCapturedVar()->getNameAsString();
          co["id"] = id(c.getCapturedVar());
          if (x->isInitCapture(&c)) {
            co["init"] = true;
            if (auto *cv = dyn_cast<VarDecl>(c.getCapturedVar()))
              if (cv->getInit()) co["e"] = expr(cv->getInit());
          }
        }
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        ++ii;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      auto o = node("InitList", e);
      o["t"] = type(e->getType());
      const InitListExpr *sem = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!sem) sem = x;
      if (sem->isTransparent() && sem->getNumInits() == 1)
        return expr(sem->getInit(0));
      json::Array a;
      for (auto *y : sem->inits()) a.push_back(expr(y));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      auto o = node("Throw", e);
      if (x->getSubExpr()) {
        o["e"] = expr(x->getSubExpr());
        o["t"] = type(x->getSubExpr()->getType());
      }
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      auto o = node("ValueInit", e);
      o["t"] = type(e->getType());
      return o;
    }
    if (isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e) ||
        isa<SizeOfPackExpr>(e) || isa<CXXNoexceptExpr>(e)) {
      auto o = node("Const", e);
      o["t"] = type(e->getType());
      constval(o, e);
      return o;
    }
    if (auto *x = dyn_cast<CXXTypeidExpr>(e)) {
      auto o = node("Typeid", e);
      if (!x->isTypeOperand()) o["e"] = expr(x->getExprOperand());
      return o;
    }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) {
      auto o = node("Str", e);
      o["v"] = "__func__";
      return o;
    }
    if (auto *x = dyn_cast<BinaryConditionalOperator>(e)) {
      auto o = node("Elvis", e);
      o["a"] = expr(x->getCommon());
      o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
      if (x->getSourceExpr()) return expr(x->getSourceExpr());
    }
    if (auto *x = dyn_cast<StmtExpr>(e)) {
      auto o = node("StmtExpr", e);
      o["c"] = json::Array{stmt(x->getSubStmt())};
      return o;
    }
    auto o = node("Other", e);
    o["ck"] = e->getStmtClassName();
    o["t"] = type(e->getType());
    json::Array c;
    for (auto *x : e->children())
      if (x) c.push_back(stmt(x));
    o["c"] = std::move(c);
    return o;
  }

 private:
  void constval(json::Object &o, const Expr *e) {
    if (e->isValueDependent()) return;
    QualType t = e->getType();
    if (!t->isIntegralOrEnumerationType() && !t->isRealFloatingType()) return;
    if (!t.isConstQualified() && isa<DeclRefExpr>(e)) return;
    Expr::EvalResult r;
    if (!e->EvaluateAsRValue(r, ctx_) || r.HasSideEffects) return;
    if (r.Val.isInt()) o["cv"] = i64(r.Val.getInt());
    else if (r.Val.isFloat()) o["cv"] = r.Val.getFloat().convertToDouble();
  }

  ASTContext &ctx_;
  SourceManager &sm_;
  PrintingPolicy pol_;
  std::unordered_map<const Decl *, std::string> ids_;
  static int next_id_;
  std::unordered_map<const void *, std::string> types_;
  std::deque<const FunctionDecl *> queue_;
  std::unordered_set<const FunctionDecl *> queued_;
};
int Dumper::next_id_ = 0;

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Dumper &d) : d_(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *fd) {
    if (!fd->isDependentContext() && fd->doesThisDeclarationHaveABody() &&
        d_.inRepo(fd))
      d_.enqueue(fd);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *rd) {
    if (rd->isThisDeclarationADefinition() && !rd->isDependentContext() &&
        !rd->isLambda() && d_.inRepo(rd))
      d_.dumpClass(rd);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ed) {
    d_.dumpEnum(ed);
    return true;
  }
  bool VisitVarDecl(VarDecl *vd) {
    if (!vd->isLocalVarDecl() && !isa<ParmVarDecl>(vd) && d_.inRepo(vd))
      d_.dumpVar(vd);
    return true;
  }
  bool TraverseDecl(Decl *d) {
    // Prune system headers early.
    if (d && isa<NamedDecl>(d) && !isa<NamespaceDecl>(d) &&
        !isa<TranslationUnitDecl>(d) && !d->isImplicit() &&
        isa<TranslationUnitDecl, NamespaceDecl>(d->getDeclContext()) &&
        !d_.inRepo(d))
      return true;
    return RecursiveASTVisitor::TraverseDecl(d);
  }

 private:
  Dumper &d_;
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(std::string f) : file_(std::move(f)) {}
  void HandleTranslationUnit(ASTContext &ctx) override {
    unsigned errs = ctx.getDiagnostics().getClient()->getNumErrors();
    g_tus.push_back(json::Object{{"file", file_}, {"errors", (int64_t)errs}});
    if (errs) return;
    Dumper d(ctx);
    Visitor v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    d.drain();
  }
  std::string file_;
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 llvm::StringRef f) override {
    return std::make_unique<Consumer>(f.str());
  }
};

}  // namespace

int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  std::string out = argv[1];
  g_prefix = argv[2];
  std::vector<std::string> files, flags;
  bool after = false;
  for (int i = 3; i < argc; ++i) {
    std::string a = argv[i];
    if (!after && a == "--") { after = true; continue; }
    (after ? flags : files).push_back(a);
  }
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, files);
  int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
  json::Object root{{"functions", std::move(g_functions)},
                    {"classes", std::move(g_classes)},
                    {"enums", std::move(g_enums)},
                    {"vars", std::move(g_vars)},
                    {"tus", std::move(g_tus)}};
  std::error_code ec;
  llvm::raw_fd_ostream os(out, ec);
  if (ec) return 3;
  os << json::Value(std::move(root));
  os.close();
  return rc ? 4 : 0;
}
