// Fact extractor: prints, as JSON, the resolved program (functions with their
// control flow graphs over expression nodes, records, enums, variables) of one
// translation unit. Only entities whose file lies below the given root are
// emitted.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static std::string g_out;

namespace {

struct Ex
{
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  json::Array functions, records, enums, globals;
  std::set<const FunctionDecl*> done;
  std::set<const Decl*> doneDecl;

  Ex(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string fileOf(SourceLocation l)
  {
    l = SM.getExpansionLoc(l);
    return SM.getFilename(l).str();
  }
  unsigned lineOf(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  unsigned colOf(SourceLocation l) { return SM.getExpansionColumnNumber(l); }
  bool inRoot(SourceLocation l)
  {
    std::string f = fileOf(l);
    return f.rfind(g_root, 0) == 0;
  }

  // qualified name without template arguments
  std::string qname(const NamedDecl* d)
  {
    std::vector<std::string> parts;
    std::string n;
    {
      llvm::raw_string_ostream os(n);
      if (auto* c = dyn_cast<CXXConstructorDecl>(d))
        os << c->getParent()->getName();
      else if (auto* c = dyn_cast<CXXDestructorDecl>(d))
        os << "~" << c->getParent()->getName();
      else if (isa<CXXConversionDecl>(d))
        os << "operator cast";
      else
        d->printName(os, PP);
    }
    parts.push_back(n);
    const DeclContext* dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit())
    {
      if (auto* ns = dyn_cast<NamespaceDecl>(dc))
      {
        if (ns->isInline() || ns->isAnonymousNamespace())
        {
          dc = dc->getParent();
          continue;
        }
        parts.push_back(ns->getNameAsString());
      }
      else if (auto* rd = dyn_cast<CXXRecordDecl>(dc))
      {
        if (rd->isLambda())
          parts.push_back("lambda@" + std::to_string(lineOf(rd->getBeginLoc()))
                          + "." + std::to_string(colOf(rd->getBeginLoc())));
        else
          parts.push_back(rd->getNameAsString());
      }
      else if (auto* td = dyn_cast<TagDecl>(dc))
        parts.push_back(td->getNameAsString());
      else if (auto* fd = dyn_cast<FunctionDecl>(dc))
        parts.push_back(fd->getNameAsString());
      dc = dc->getParent();
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it)
    {
      if (!r.empty()) r += "::";
      r += *it;
    }
    return r;
  }
  std::string ty(QualType t)
  {
    if (t.isNull()) return "";
    return t.getCanonicalType().getAsString(PP);
  }
  std::string fid(const FunctionDecl* f)
  {
    std::string r = qname(f) + "(";
    bool first = true;
    for (auto* p : f->parameters())
    {
      if (!first) r += ",";
      first = false;
      r += ty(p->getType());
    }
    r += ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->isConst()) r += "const";
    return r;
  }
  std::string varId(const ValueDecl* v)
  {
    SourceLocation l = v->getLocation();
    std::string f = fileOf(l);
    if (f.rfind(g_root, 0) == 0) f = f.substr(g_root.size());
    // the name keeps apart variables declared at one place (e.g. __range)
    return v->getNameAsString() + "@" + f + ":" + std::to_string(lineOf(l))
           + ":" + std::to_string(colOf(l));
  }

  static const Expr* strip(const Expr* e)
  {
    while (e)
    {
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXFunctionalCastExpr>(e))
      {
        // T(x) with a constructor: the constructor expression is below
        if (isa<CXXConstructExpr>(strip(x->getSubExpr()))
            || isa<CXXTemporaryObjectExpr>(strip(x->getSubExpr())))
        { e = x->getSubExpr(); continue; }
      }
      if (auto* x = dyn_cast<CXXConstructExpr>(e))
      {
        if (x->getConstructor()->isCopyOrMoveConstructor() && x->getNumArgs() >= 1)
        { e = x->getArg(0); continue; }
        if (x->getNumArgs() == 1 && x->isListInitialization() && x->isStdInitListInitialization())
        {
          // keep: construct from initializer list
        }
      }
      break;
    }
    return e;
  }

  // ---- per function state
  std::map<const Stmt*, int> ids;
  json::Array* nodes = nullptr;

  std::string macroOf(SourceLocation l)
  {
    std::string name;
    while (l.isMacroID())
    {
      name = Lexer::getImmediateMacroName(l, SM, C.getLangOpts()).str();
      SourceLocation e = SM.getImmediateMacroCallerLoc(l);
      // for macro arguments, the caller location is the spelling location, go
      // to the expansion instead
      if (SM.isMacroArgExpansion(l))
        e = SM.getImmediateExpansionRange(l).getBegin();
      if (e == l) break;
      l = e;
    }
    return name;
  }
  // all macros the location lies in the expansion of, outermost last;
  // 'arg' is set if it was written as an argument of the outermost one
  std::string macroInfo(SourceLocation l, bool& arg)
  {
    arg = false;
    std::string name;
    while (l.isMacroID())
    {
      bool isArg = SM.isMacroArgExpansion(l);
      name = Lexer::getImmediateMacroName(l, SM, C.getLangOpts()).str();
      arg = isArg;
      if (isArg)
      {
        // continue with the location of the macro's use
        l = SM.getImmediateExpansionRange(l).getBegin();
      }
      else
        l = SM.getImmediateExpansionRange(l).getBegin();
    }
    return name;
  }

  int node(const Expr* e0)
  {
    if (!e0) return -1;
    const Expr* e = strip(e0);
    auto it = ids.find(e);
    if (it != ids.end()) return it->second;
    json::Object o;
    SourceLocation l = e->getExprLoc();
    if (l.isInvalid()) l = e->getBeginLoc();
    bool marg = false;
    if (e->getBeginLoc().isMacroID())
    {
      std::string m = macroInfo(e->getBeginLoc(), marg);
      if (!m.empty()) o["m"] = m;
    }
    o["l"] = (int64_t)lineOf(l);
    std::string k = "other";
    auto list = [&](auto range) {
      json::Array a;
      for (auto* x : range) a.push_back(node(x));
      return a;
    };
    // constants
    if (auto* x = dyn_cast<IntegerLiteral>(e))
    {
      k = "int";
      o["v"] = x->getValue().getLimitedValue() <= INT64_MAX
                   ? (int64_t)x->getValue().getLimitedValue()
                   : (int64_t)-1;
    }
    else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { k = "bool"; o["v"] = x->getValue(); }
    else if (auto* x = dyn_cast<CharacterLiteral>(e)) { k = "int"; o["v"] = (int64_t)x->getValue(); o["chr"] = true; }
    else if (auto* x = dyn_cast<clang::StringLiteral>(e))
    { k = "str"; std::string s = x->getBytes().str(); o["v"] = json::isUTF8(s) ? s : json::fixUTF8(s); }
    else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) k = "null";
    else if (auto* x = dyn_cast<FloatingLiteral>(e)) { k = "float"; o["v"] = x->getValueAsApproximateDouble(); }
    else if (isa<PredefinedExpr>(e)) { k = "str"; o["v"] = "__func__"; }
    else if (isa<CXXThisExpr>(e)) { k = "this"; o["ty"] = ty(e->getType()); }
    else if (auto* x = dyn_cast<DeclRefExpr>(e))
    {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d))
      {
        k = "enum";
        o["n"] = ec->getNameAsString();
        o["v"] = (int64_t)ec->getInitVal().getExtValue();
        o["ty"] = ty(e->getType());
      }
      else if (auto* fd = dyn_cast<FunctionDecl>(d))
      { k = "fref"; o["f"] = fid(fd); o["n"] = qname(fd); }
      else if (auto* vd = dyn_cast<VarDecl>(d))
      {
        if (vd->isLocalVarDeclOrParm() && !vd->isStaticLocal())
        { k = "var"; o["n"] = varId(vd); }
        else if (vd->isLocalVarDecl())
        { k = "var"; o["n"] = varId(vd); o["static"] = true; }
        else
        { k = "gvar"; o["n"] = qname(vd);
          if (vd->isStaticDataMember() || vd->hasGlobalStorage()) o["g"] = true; }
        o["ty"] = ty(e->getType());
      }
      else if (auto* bd = dyn_cast<BindingDecl>(d))
      {
        k = "binding"; o["n"] = varId(bd); o["ty"] = ty(e->getType());
        if (auto* dd = dyn_cast_or_null<DecompositionDecl>(bd->getDecomposedDecl()))
        {
          std::string t = dd->getType().getNonReferenceType().getUnqualifiedType().getCanonicalType().getAsString();
          if (auto* rd = dd->getType().getNonReferenceType()->getAsCXXRecordDecl())
            t = rd->getQualifiedNameAsString();
          int ix = 0;
          for (auto* b : dd->bindings()) { if (b == bd) break; ix++; }
          if (t == "std::pair") { o["base"] = varId(dd); o["ix"] = ix; }
        }
        if (auto* b = bd->getBinding()) { int bn = node(b); o["of"] = bn; }
      }
      else
      { k = "gvar"; o["n"] = qname(d); o["ty"] = ty(e->getType()); }
    }
    else if (auto* x = dyn_cast<MemberExpr>(e))
    {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* fd = dyn_cast<FunctionDecl>(d))
      { k = "mfref"; o["f"] = fid(fd); o["n"] = qname(fd); o["b"] = node(x->getBase()); }
      else if (isa<VarDecl>(d))
      { k = "gvar"; o["n"] = qname(d); o["ty"] = ty(e->getType()); }
      else
      { k = "mem"; o["n"] = qname(d); o["b"] = node(x->getBase()); o["ty"] = ty(e->getType());
        if (x->isArrow()) o["arrow"] = true; }
    }
    else if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
    { k = "idx"; o["b"] = node(x->getBase()); o["i"] = node(x->getIdx()); o["ty"] = ty(e->getType()); }
    else if (auto* x = dyn_cast<CallExpr>(e))
    {
      k = "call";
      o["ty"] = ty(e->getType());
      const FunctionDecl* fd = x->getDirectCallee();
      json::Array args;
      if (auto* oc = dyn_cast<CXXOperatorCallExpr>(x))
      {
        o["op"] = getOperatorSpelling(oc->getOperator());
        unsigned i0 = 0;
        bool member = fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic();
        if (member && x->getNumArgs() > 0)
        { o["obj"] = node(x->getArg(0)); i0 = 1; }
        for (unsigned i = i0; i < x->getNumArgs(); i++) args.push_back(node(x->getArg(i)));
      }
      else
      {
        if (auto* mc = dyn_cast<CXXMemberCallExpr>(x))
        {
          if (const Expr* ob = mc->getImplicitObjectArgument())
          {
            o["obj"] = node(ob);
            if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens()))
            {
              if (me->isArrow()) o["arrow"] = true;
              // a qualified call is not virtual
              if (auto* md = mc->getMethodDecl())
                if (md->isVirtual() && !me->hasQualifier()) o["virt"] = true;
            }
          }
        }
        unsigned i = 0;
        json::Array defs;
        for (auto* a : x->arguments())
        {
          if (isa<CXXDefaultArgExpr>(a)) defs.push_back((int64_t)i);
          args.push_back(node(a));
          i++;
        }
        if (!defs.empty()) o["defargs"] = std::move(defs);
      }
      o["a"] = std::move(args);
      if (fd)
      {
        o["f"] = fid(fd);
        o["n"] = qname(fd);
        if (fd->isNoReturn() || fd->hasAttr<NoReturnAttr>() || fd->hasAttr<CXX11NoReturnAttr>()) o["nr"] = true;
        if (auto* md = dyn_cast<CXXMethodDecl>(fd))
          if (md->isConst()) o["const"] = true;
        if (!inRoot(fd->getLocation()))
        {
          json::Array pr;  // by-reference (non-const) parameters of external callees
          for (unsigned i = 0; i < fd->getNumParams(); i++)
          {
            QualType t = fd->getParamDecl(i)->getType();
            if ((t->isReferenceType() || t->isPointerType())
                && !t->getPointeeType().isConstQualified() && !t->isRValueReferenceType())
            {
              // a pointer that is passed by value remains the same pointer
              if (t->isPointerType() && i < x->getNumArgs()
                  && x->getArg(i)->IgnoreImpCasts()->getType()->isPointerType())
                continue;
              pr.push_back((int64_t)i);
            }
          }
          if (!pr.empty()) o["mutref"] = std::move(pr);
        }
      }
      else
        o["fx"] = node(x->getCallee());
    }
    else if (auto* x = dyn_cast<CXXConstructExpr>(e))
    {
      k = "ctor";
      const CXXConstructorDecl* cd = x->getConstructor();
      o["f"] = fid(cd);
      o["n"] = qname(cd);
      o["cls"] = qname(cd->getParent());
      o["ty"] = ty(e->getType());
      json::Array args;
      for (auto* a : x->arguments()) args.push_back(node(a));
      o["a"] = std::move(args);
      if (auto* dd = cd->getParent()->getDestructor())
        if (dd->isNoReturn()) o["nrdtor"] = true;
      if (x->requiresZeroInitialization()) o["zero"] = true;
      if (x->isStdInitListInitialization()) o["il"] = true;
    }
    else if (auto* x = dyn_cast<CXXNewExpr>(e))
    {
      k = "new";
      o["ty"] = ty(x->getAllocatedType());
      if (auto* ce = x->getConstructExpr()) o["c"] = node(ce);
      else if (x->getInitializer()) o["c"] = node(x->getInitializer());
    }
    else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { k = "delete"; o["b"] = node(x->getArgument()); }
    else if (auto* x = dyn_cast<BinaryOperator>(e))
    {
      if (x->isAssignmentOp()) { k = "assign"; }
      else k = "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = node(x->getLHS());
      o["b"] = node(x->getRHS());
      o["ty"] = ty(e->getType());
    }
    else if (auto* x = dyn_cast<UnaryOperator>(e))
    {
      k = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["a"] = node(x->getSubExpr());
      o["ty"] = ty(e->getType());
    }
    else if (auto* x = dyn_cast<AbstractConditionalOperator>(e))
    {
      k = "cond";
      o["c"] = node(x->getCond());
      o["a"] = node(x->getTrueExpr());
      o["b"] = node(x->getFalseExpr());
    }
    else if (auto* x = dyn_cast<ExplicitCastExpr>(e))
    {
      k = "cast"; o["a"] = node(x->getSubExpr()); o["ty"] = ty(x->getType());
      if (x->isPRValue() && x->getType()->isRecordType()) o["rv"] = true;
    }
    else if (auto* x = dyn_cast<InitListExpr>(e))
    {
      k = "init";
      const InitListExpr* s = x->getSemanticForm() ? x->getSemanticForm() : x;
      json::Array a;
      for (unsigned i = 0; i < s->getNumInits(); i++) a.push_back(node(s->getInit(i)));
      o["a"] = std::move(a);
      o["ty"] = ty(e->getType());
    }
    else if (auto* x = dyn_cast<LambdaExpr>(e))
    {
      k = "lambda";
      o["f"] = fid(x->getCallOperator());
      json::Array caps;
      for (auto& c : x->captures())
      {
        if (c.capturesVariable())
        {
          json::Object co;
          co["v"] = varId(c.getCapturedVar());
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          caps.push_back(std::move(co));
        }
      }
      o["caps"] = std::move(caps);
    }
    else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e))
    { k = "zero"; o["ty"] = ty(e->getType()); }
    else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
    {
      k = "other";
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, C)) { k = "int"; o["v"] = (int64_t)r.Val.getInt().getLimitedValue(INT64_MAX); }
    }
    else if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { k = "other"; (void)x; }
    if (k == "other") o["cls"] = e->getStmtClassName();
    o["k"] = k;
    // constant folding for gvars that are constant expressions
    if (k == "gvar" || k == "un" || k == "cast")
    {
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType()
          && e->EvaluateAsInt(r, C) && !r.HasSideEffects)
        o["cv"] = (int64_t)r.Val.getInt().getLimitedValue(INT64_MAX) == INT64_MAX
                      ? (int64_t)INT64_MAX
                      : (int64_t)r.Val.getInt().getExtValue();
    }
    int id = (int)nodes->size();
    o["i"] = o.find("i") != o.end() ? std::move(o["i"]) : json::Value(nullptr);
    nodes->push_back(std::move(o));
    ids[e] = id;
    return id;
  }

  json::Object varInfo(const VarDecl* v)
  {
    json::Object o;
    o["n"] = varId(v);
    o["name"] = v->getNameAsString();
    o["ty"] = ty(v->getType());
    QualType t = v->getType();
    if (t->isReferenceType())
    {
      o["ref"] = true;
      if (t->getPointeeType().isConstQualified()) o["cref"] = true;
    }
    if (v->isStaticLocal()) o["static"] = true;
    return o;
  }

  json::Value stmtOf(const Stmt* s)
  {
    // a CFG element that is a statement
    if (auto* ds = dyn_cast<DeclStmt>(s))
    {
      json::Object o;
      o["k"] = "decl";
      o["l"] = (int64_t)lineOf(ds->getBeginLoc());
      json::Array vs;
      for (auto* d : ds->decls())
        if (auto* vd = dyn_cast<VarDecl>(d))
        {
          json::Object vi = varInfo(vd);
          if (vd->getInit()) vi["init"] = node(vd->getInit());
          if (auto* dd = dyn_cast<DecompositionDecl>(vd))
          {
            json::Array bs;
            for (auto* b : dd->bindings()) bs.push_back(varId(b));
            vi["bindings"] = std::move(bs);
          }
          vs.push_back(std::move(vi));
        }
      o["vars"] = std::move(vs);
      return std::move(o);
    }
    if (auto* rs = dyn_cast<ReturnStmt>(s))
    {
      json::Object o;
      o["k"] = "ret";
      o["l"] = (int64_t)lineOf(rs->getBeginLoc());
      if (rs->getRetValue()) o["v"] = node(rs->getRetValue());
      return std::move(o);
    }
    if (auto* e = dyn_cast<Expr>(s))
    {
      if (strip(e) != e) return nullptr;  // a wrapper
      return node(e);
    }
    return nullptr;
  }

  void function(const FunctionDecl* f)
  {
    if (!f->doesThisDeclarationHaveABody()) return;
    if (f->isDependentContext()) return;
    if (!inRoot(f->getLocation())) return;
    if (!done.insert(f).second) return;
    json::Object o;
    o["id"] = fid(f);
    o["name"] = qname(f);
    std::string file = fileOf(f->getLocation());
    o["file"] = file.substr(g_root.size());
    o["line"] = (int64_t)lineOf(f->getLocation());
    o["endline"] = (int64_t)lineOf(f->getEndLoc());
    o["ret"] = ty(f->getReturnType());
    if (f->isImplicit() || f->isDefaulted()) o["implicit"] = true;
    if (f->isNoReturn()) o["noreturn"] = true;
    if (auto* md = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = qname(md->getParent());
      if (md->isConst()) o["const"] = true;
      if (md->isStatic()) o["static"] = true;
      if (md->isVirtual()) o["virtual"] = true;
      json::Array ov;
      for (auto* om : md->overridden_methods()) ov.push_back(fid(om));
      if (!ov.empty()) o["overrides"] = std::move(ov);
      if (isa<CXXConstructorDecl>(f)) o["ctor"] = true;
      if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    }
    json::Array params;
    for (auto* p : f->parameters()) params.push_back(varInfo(p));
    o["params"] = std::move(params);
    ids.clear();
    json::Array nds;
    nodes = &nds;
    CFG::BuildOptions bo;
    bo.setAllAlwaysAdd();
    bo.AddInitializers = true;
    bo.PruneTriviallyFalseEdges = true;
    bo.AddCXXDefaultInitExprInCtors = true;
    bo.AddCXXDefaultInitExprInAggregates = true;
    std::unique_ptr<CFG> cfg = CFG::buildCFG(f, f->getBody(), &C, bo);
    if (!cfg)
    {
      o["nocfg"] = true;
      o["nodes"] = std::move(nds);
      functions.push_back(std::move(o));
      return;
    }
    o["entry"] = (int64_t)cfg->getEntry().getBlockID();
    o["exit"] = (int64_t)cfg->getExit().getBlockID();
    json::Array blocks;
    for (const CFGBlock* b : *cfg)
    {
      json::Object bb;
      bb["id"] = (int64_t)b->getBlockID();
      json::Array el;
      for (const CFGElement& ce : *b)
      {
        if (auto cs = ce.getAs<CFGStmt>())
        {
          json::Value v = stmtOf(cs->getStmt());
          if (v.kind() != json::Value::Null) el.push_back(std::move(v));
        }
        else if (auto ci = ce.getAs<CFGInitializer>())
        {
          const CXXCtorInitializer* in = ci->getInitializer();
          json::Object io;
          io["k"] = "initm";
          io["l"] = (int64_t)lineOf(in->getSourceLocation());
          if (in->isAnyMemberInitializer()) io["n"] = qname(in->getAnyMember());
          else io["base"] = true;
          if (in->getInit()) io["v"] = node(in->getInit());
          el.push_back(std::move(io));
        }
      }
      bb["el"] = std::move(el);
      if (b->hasNoReturnElement()) bb["noret"] = true;
      json::Array su;
      for (auto& s : b->succs())
      {
        if (s.getReachableBlock()) su.push_back((int64_t)s.getReachableBlock()->getBlockID());
        else su.push_back(nullptr);
      }
      bb["s"] = std::move(su);
      if (const Stmt* t = b->getTerminatorStmt())
      {
        json::Object to;
        to["k"] = t->getStmtClassName();
        to["l"] = (int64_t)lineOf(t->getBeginLoc());
        if (auto* sw = dyn_cast<SwitchStmt>(t)) to["c"] = node(sw->getCond());
        else if (const Expr* lc = b->getLastCondition()) to["c"] = node(lc);
        if (auto* bo = dyn_cast<BinaryOperator>(t)) to["op"] = bo->getOpcodeStr().str();
        bool marg = false;
        if (t->getBeginLoc().isMacroID()) to["m"] = macroInfo(t->getBeginLoc(), marg);
        if (b->getTerminator().isTemporaryDtorsBranch()) to["tmp"] = true;
        bb["t"] = std::move(to);
      }
      if (const Stmt* lab = b->getLabel())
      {
        json::Object lo;
        if (auto* cs = dyn_cast<CaseStmt>(lab))
        {
          lo["k"] = "case";
          lo["v"] = node(cs->getLHS());
          if (cs->getRHS()) lo["hi"] = node(cs->getRHS());
        }
        else if (isa<DefaultStmt>(lab)) lo["k"] = "default";
        else lo["k"] = "label";
        lo["l"] = (int64_t)lineOf(lab->getBeginLoc());
        bb["lab"] = std::move(lo);
      }
      if (const Stmt* lt = b->getLoopTarget())
      {
        bb["loop"] = (int64_t)lineOf(lt->getBeginLoc());
        bb["loopk"] = lt->getStmtClassName();
      }
      blocks.push_back(std::move(bb));
    }
    o["blocks"] = std::move(blocks);
    // loops (syntactic), for the recognition of complete traversals
    json::Array loops;
    collectLoops(f->getBody(), loops);
    o["loops"] = std::move(loops);
    o["nodes"] = std::move(nds);
    functions.push_back(std::move(o));
  }

  void collectLoops(const Stmt* s, json::Array& out)
  {
    if (!s) return;
    if (isa<LambdaExpr>(s)) return;
    json::Object o;
    bool is = true;
    if (auto* r = dyn_cast<CXXForRangeStmt>(s))
    {
      o["k"] = "range";
      o["range"] = node(r->getRangeInit());
      o["var"] = varId(r->getLoopVariable());
      // all expressions of the loop header
    }
    else if (auto* r = dyn_cast<ForStmt>(s))
    {
      o["k"] = "for";
      if (r->getCond()) o["c"] = node(r->getCond());
      if (r->getInc()) o["inc"] = node(r->getInc());
    }
    else if (auto* r = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; o["c"] = node(r->getCond()); }
    else if (auto* r = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = node(r->getCond()); }
    else is = false;
    if (is)
    {
      o["l"] = (int64_t)lineOf(s->getBeginLoc());
      o["e"] = (int64_t)lineOf(s->getEndLoc());
      out.push_back(std::move(o));
    }
    for (const Stmt* c : s->children()) collectLoops(c, out);
  }

  void record(const CXXRecordDecl* r)
  {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext()) return;
    if (!inRoot(r->getLocation()) || r->isLambda()) return;
    if (!doneDecl.insert(r).second) return;
    json::Object o;
    o["name"] = qname(r);
    o["file"] = fileOf(r->getLocation()).substr(g_root.size());
    o["line"] = (int64_t)lineOf(r->getLocation());
    json::Array fs;
    for (auto* f : r->fields())
    {
      json::Object fo;
      fo["n"] = qname(f);
      fo["ty"] = ty(f->getType());
      fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
      if (f->hasInClassInitializer()) fo["init"] = true;
      if (f->isMutable()) fo["mutable"] = true;
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    for (auto& b : r->bases())
      if (auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(qname(br));
    o["bases"] = std::move(bs);
    json::Array ms;
    for (auto* m : r->methods())
    {
      json::Object mo;
      mo["id"] = fid(m);
      mo["n"] = qname(m);
      mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      if (m->isVirtual()) mo["virtual"] = true;
      if (m->isDeleted()) mo["deleted"] = true;
      if (m->isImplicit()) mo["implicit"] = true;
      if (m->isConst()) mo["const"] = true;
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    json::Array fr;
    for (auto* f : r->friends())
    {
      if (auto* t = f->getFriendType()) fr.push_back(ty(t->getType()));
      else if (auto* d = f->getFriendDecl()) fr.push_back(qname(d));
    }
    o["friends"] = std::move(fr);
    records.push_back(std::move(o));
  }
  void enumd(const EnumDecl* e)
  {
    if (!e->isCompleteDefinition() || !inRoot(e->getLocation())) return;
    if (!doneDecl.insert(e).second) return;
    json::Object o;
    o["name"] = qname(e);
    json::Array v;
    for (auto* c : e->enumerators())
    {
      json::Object co;
      co["n"] = c->getNameAsString();
      co["v"] = (int64_t)c->getInitVal().getExtValue();
      v.push_back(std::move(co));
    }
    o["values"] = std::move(v);
    enums.push_back(std::move(o));
  }
  void global(const VarDecl* v)
  {
    if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) return;
    if (!inRoot(v->getLocation()) || v->getDeclContext()->isDependentContext()) return;
    if (!doneDecl.insert(v).second) return;
    json::Object o;
    o["n"] = v->isStaticLocal() ? varId(v) : qname(v);
    o["ty"] = ty(v->getType());
    o["const"] = v->getType().isConstQualified();
    o["file"] = fileOf(v->getLocation()).substr(g_root.size());
    o["line"] = (int64_t)lineOf(v->getLocation());
    if (v->getInit() && !v->getInit()->isValueDependent())
    {
      json::Array nds;
      ids.clear();
      nodes = &nds;
      int r = node(v->getInit());
      o["init"] = r;
      o["nodes"] = std::move(nds);
    }
    globals.push_back(std::move(o));
  }
};

struct Visitor : public RecursiveASTVisitor<Visitor>
{
  Ex& X;
  std::vector<const FunctionDecl*> fns;
  std::vector<const CXXRecordDecl*> recs;
  std::vector<const EnumDecl*> ens;
  std::vector<const VarDecl*> vars;
  Visitor(Ex& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) { fns.push_back(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) { recs.push_back(r); return true; }
  bool VisitEnumDecl(EnumDecl* e) { ens.push_back(e); return true; }
  bool VisitVarDecl(VarDecl* v) { vars.push_back(v); return true; }
  bool VisitLambdaExpr(LambdaExpr* l) { fns.push_back(l->getCallOperator()); return true; }
};

struct Consumer : public ASTConsumer
{
  void HandleTranslationUnit(ASTContext& C) override
  {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Ex X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    for (auto* f : V.fns) X.function(f);
    for (auto* r : V.recs) X.record(r);
    for (auto* e : V.ens) X.enumd(e);
    for (auto* v : V.vars) X.global(v);
    json::Object o;
    o["functions"] = std::move(X.functions);
    o["records"] = std::move(X.records);
    o["enums"] = std::move(X.enums);
    o["globals"] = std::move(X.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(o));
  }
};
struct Action : public ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

// extract ROOT OUT FILE -- FLAGS...
int main(int argc, char** argv)
{
  if (argc < 5) return 2;
  g_root = argv[1];
  if (g_root.back() != '/') g_root += '/';
  g_out = argv[2];
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {std::string(argv[3])});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
