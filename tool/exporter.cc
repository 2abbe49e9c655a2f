//
// ryujin source exporter: parses a translation unit with the build's flags
// and writes the resolved, fully instantiated program (function bodies,
// class layouts, enumerations, specialisations) as JSON lines.
//
// Only entities spelled under --root are written.
//
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprOpenMP.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtOpenMP.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;

static std::string ROOT;
static std::vector<std::string> MACROS;

namespace
{
  std::string jstr(llvm::StringRef s)
  {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += (char)c;
      } else if (c == '\n')
        r += "\\n";
      else if (c < 0x20) {
        char b[8];
        snprintf(b, 8, "\\u%04x", c);
        r += b;
      } else if (c >= 0x80) {
        char b[8];
        snprintf(b, 8, "\\u%04x", c);
        r += b;
      } else
        r += (char)c;
    }
    return r + "\"";
  }

  class Dumper
  {
  public:
    Dumper(ASTContext &ctx, llvm::raw_ostream &os)
        : C(ctx)
        , O(os)
        , PP(ctx.getPrintingPolicy())
    {
      PP.SuppressTagKeyword = true;
      PP.Bool = true;
      PP.SuppressUnwrittenScope = true;
      PP.SuppressInlineNamespace = true;
      PP.FullyQualifiedName = true;
      PP.PrintCanonicalTypes = true;
      PP.TerseOutput = true;
    }
    ASTContext &C;
    llvm::raw_ostream &O;
    PrintingPolicy PP;
    std::map<const Decl *, unsigned> ids;
    std::map<const void *, std::string> type_cache;

    unsigned id(const Decl *d)
    {
      d = d->getCanonicalDecl();
      auto it = ids.find(d);
      if (it != ids.end())
        return it->second;
      unsigned n = ids.size() + 1;
      ids[d] = n;
      return n;
    }

    std::string type(QualType t)
    {
      if (t.isNull())
        return "?";
      t = t.getCanonicalType();
      auto key = t.getAsOpaquePtr();
      auto it = type_cache.find(key);
      if (it != type_cache.end())
        return it->second;
      std::string s = t.getAsString(PP);
      type_cache[key] = s;
      return s;
    }

    std::string qname(const NamedDecl *d)
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      d->printNestedNameSpecifier(os, PP);
      os << nameNoQual(d);
      return os.str();
    }
    std::string nameNoQual(const NamedDecl *d)
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      if (auto *cts = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
        os << d->getName();
        printTemplateArgumentList(
            os, cts->getTemplateArgs().asArray(), PP);
      } else if (auto *ctor = dyn_cast<CXXConstructorDecl>(d))
        os << ctor->getParent()->getName();
      else
        os << d->getDeclName();
      return os.str();
    }
    // qualified name with template args and parameter types
    std::string fkey(const FunctionDecl *f)
    {
      std::string s = qname(f);
      if (auto *ta = f->getTemplateSpecializationArgs()) {
        llvm::raw_string_ostream os(s);
        printTemplateArgumentList(os, ta->asArray(), PP);
        os.flush();
      }
      s += "(";
      bool first = true;
      for (auto *p : f->parameters()) {
        if (!first)
          s += ", ";
        first = false;
        s += type(p->getType());
      }
      s += ")";
      if (auto *m = dyn_cast<CXXMethodDecl>(f))
        if (m->isConst())
          s += " const";
      return s;
    }

    // source position "file:line"
    std::pair<std::string, unsigned> pos(SourceLocation l)
    {
      auto &SM = C.getSourceManager();
      l = SM.getExpansionLoc(l);
      PresumedLoc p = SM.getPresumedLoc(l);
      if (p.isInvalid())
        return {"", 0};
      return {p.getFilename(), p.getLine()};
    }
    unsigned line(SourceLocation l)
    {
      return pos(l).second;
    }
    bool inRoot(SourceLocation l)
    {
      auto p = pos(l);
      return llvm::StringRef(p.first).starts_with(ROOT) ||
             llvm::StringRef(p.first).ends_with("/tu/probe.h") ||
             C.getSourceManager().isInMainFile(
                 C.getSourceManager().getExpansionLoc(l));
    }

    std::string cur_file;
    void L(SourceLocation l)
    {
      auto p = pos(l);
      O << ",\"l\":" << p.second;
      if (p.first != cur_file)
        O << ",\"f\":" << jstr(p.first);
    }

    // try to fold a constant
    bool constant(const Expr *e)
    {
      if (e->isValueDependent() || e->isTypeDependent() ||
          e->isInstantiationDependent())
        return false;
      if (!e->isPRValue() && !isa<DeclRefExpr>(e) && !isa<MemberExpr>(e))
        return false;
      QualType t = e->getType().getCanonicalType().getUnqualifiedType();
      if (!(t->isIntegralOrEnumerationType() || t->isRealFloatingType()))
        return false;
      Expr::EvalResult r;
      if (!e->EvaluateAsRValue(r, C, true) || r.HasSideEffects)
        return false;
      if (r.Val.isInt()) {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        O << "{\"k\":\"num\",\"v\":" << jstr(s) << ",\"t\":" << jstr(type(t));
        if (auto *et = t->getAs<EnumType>()) {
          for (auto *ec : et->getDecl()->enumerators())
            if (ec->getInitVal() == r.Val.getInt()) {
              O << ",\"enum\":" << jstr(ec->getNameAsString());
              break;
            }
        }
        if (t->isBooleanType())
          O << ",\"bool\":1";
        // keep the name of a named constant
        if (auto *dr = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts()))
          O << ",\"n\":" << jstr(dr->getDecl()->getNameAsString());
        O << ",\"l\":" << line(e->getBeginLoc()) << "}";
        return true;
      }
      if (r.Val.isFloat()) {
        auto f = r.Val.getFloat();
        llvm::SmallString<32> s;
        f.toString(s, 0, 0);
        O << "{\"k\":\"num\",\"v\":" << jstr(s) << ",\"t\":" << jstr(type(t));
        if (auto *dr = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts()))
          O << ",\"n\":" << jstr(dr->getDecl()->getNameAsString());
        O << ",\"l\":" << line(e->getBeginLoc()) << "}";
        return true;
      }
      return false;
    }

    void declref(const ValueDecl *d)
    {
      O << "\"id\":" << id(d) << ",\"n\":" << jstr(d->getNameAsString());
      if (auto *v = dyn_cast<VarDecl>(d)) {
        if (isa<ParmVarDecl>(v))
          O << ",\"vk\":\"parm\"";
        else if (v->isStaticDataMember())
          O << ",\"vk\":\"smem\",\"q\":" << jstr(qname(v));
        else if (v->hasGlobalStorage())
          O << ",\"vk\":\"glob\",\"q\":" << jstr(qname(v));
        else
          O << ",\"vk\":\"loc\"";
      } else if (isa<BindingDecl>(d))
        O << ",\"vk\":\"bind\"";
      else if (auto *f = dyn_cast<FunctionDecl>(d)) {
        O << ",\"vk\":\"func\",\"q\":" << jstr(qname(f))
          << ",\"key\":" << jstr(fkey(f));
      } else if (isa<EnumConstantDecl>(d))
        O << ",\"vk\":\"enum\",\"q\":" << jstr(qname(d));
      else if (isa<FieldDecl>(d))
        O << ",\"vk\":\"field\",\"q\":" << jstr(qname(d));
      else
        O << ",\"vk\":\"other\"";
    }

    template <typename R>
    void list(const char *name, R &&range)
    {
      O << ",\"" << name << "\":[";
      bool first = true;
      for (auto *e : range) {
        if (!first)
          O << ",";
        first = false;
        expr(e);
      }
      O << "]";
    }

    const Expr *strip(const Expr *e)
    {
      for (;;) {
        if (auto *x = dyn_cast<ParenExpr>(e))
          e = x->getSubExpr();
        else if (auto *x = dyn_cast<ExprWithCleanups>(e))
          e = x->getSubExpr();
        else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e))
          e = x->getSubExpr();
        else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e))
          e = x->getSubExpr();
        else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
          e = x->getReplacement();
        else if (auto *x = dyn_cast<ConstantExpr>(e))
          e = x->getSubExpr();
        else if (auto *x = dyn_cast<ImplicitCastExpr>(e))
          e = x->getSubExpr();
        else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e))
          e = x->getExpr();
        else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e))
          e = x->getExpr();
        else if (auto *x = dyn_cast<FullExpr>(e))
          e = x->getSubExpr();
        else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e))
          e = x->getSubExpr();
        else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e))
          e = x->getSemanticForm();
        else
          return e;
      }
    }

    int depth = 0;
    void expr(const Expr *e0)
    {
      if (!e0) {
        O << "null";
        return;
      }
      if (constant(e0))
        return;
      const Expr *e = strip(e0);
      if (e != e0 && constant(e))
        return;
      SourceLocation loc = e->getExprLoc();
      auto head = [&](const char *k) {
        O << "{\"k\":\"" << k << "\"";
        L(loc);
        O << ",\"t\":" << jstr(type(e->getType()));
      };

      if (auto *x = dyn_cast<DeclRefExpr>(e)) {
        head("ref");
        O << ",";
        declref(x->getDecl());
        O << "}";
      } else if (auto *x = dyn_cast<MemberExpr>(e)) {
        auto *m = x->getMemberDecl();
        if (auto *v = dyn_cast<VarDecl>(m)) {
          head("ref");
          O << ",";
          declref(v);
          O << "}";
        } else {
          head("mem");
          O << ",\"n\":" << jstr(m->getNameAsString())
            << ",\"id\":" << id(m);
          if (auto *f = dyn_cast<FunctionDecl>(m))
            O << ",\"key\":" << jstr(fkey(f));
          if (auto *fd = dyn_cast<FieldDecl>(m))
            O << ",\"cls\":" << jstr(qname(fd->getParent()));
          if (x->isArrow())
            O << ",\"arrow\":1";
          O << ",\"b\":";
          expr(x->getBase());
          O << "}";
        }
      } else if (isa<CXXThisExpr>(e)) {
        head("this");
        O << "}";
      } else if (auto *x = dyn_cast<StringLiteral>(e)) {
        head("str");
        O << ",\"v\":";
        if (x->getCharByteWidth() == 1)
          O << jstr(x->getString());
        else
          O << "\"\"";
        O << "}";
      } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
        head("opcall");
        O << ",\"op\":" << jstr(getOperatorSpelling(x->getOperator()));
        if (auto *f = x->getDirectCallee())
          callee(f);
        list("a", x->arguments());
        O << "}";
      } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
        head("mcall");
        if (auto *f = x->getMethodDecl())
          callee(f);
        O << ",\"b\":";
        if (auto *o = x->getImplicitObjectArgument())
          expr(o);
        else
          expr(x->getCallee());
        list("a", x->arguments());
        O << "}";
      } else if (auto *x = dyn_cast<CallExpr>(e)) {
        head("call");
        if (auto *f = x->getDirectCallee())
          callee(f);
        else {
          O << ",\"fn\":";
          expr(x->getCallee());
        }
        list("a", x->arguments());
        O << "}";
      } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
        auto *cd = x->getConstructor();
        if (x->getNumArgs() == 1 && cd->isCopyOrMoveConstructor()) {
          head("copy");
          if (cd->isMoveConstructor())
            O << ",\"move\":1";
          O << ",\"e\":";
          expr(x->getArg(0));
          O << "}";
        } else {
          head("ctor");
          callee(cd);
          if (x->isListInitialization())
            O << ",\"li\":1";
          list("a", x->arguments());
          O << "}";
        }
      } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
        head("un");
        O << ",\"op\":" << jstr(UnaryOperator::getOpcodeStr(x->getOpcode()))
          << (x->isPostfix() ? ",\"post\":1" : "") << ",\"e\":";
        expr(x->getSubExpr());
        O << "}";
      } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
        if (x->isAssignmentOp()) {
          head("asg");
          O << ",\"op\":"
            << jstr(x->isCompoundAssignmentOp()
                        ? BinaryOperator::getOpcodeStr(
                              BinaryOperator::getOpForCompoundAssignment(
                                  x->getOpcode()))
                        : "");
        } else {
          head("bin");
          O << ",\"op\":" << jstr(x->getOpcodeStr());
        }
        O << ",\"a\":[";
        expr(x->getLHS());
        O << ",";
        expr(x->getRHS());
        O << "]}";
      } else if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) {
        head("cond");
        O << ",\"a\":[";
        expr(x->getCond());
        O << ",";
        expr(x->getTrueExpr());
        O << ",";
        expr(x->getFalseExpr());
        O << "]}";
      } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
        head("idx");
        O << ",\"a\":[";
        expr(x->getBase());
        O << ",";
        expr(x->getIdx());
        O << "]}";
      } else if (auto *x = dyn_cast<InitListExpr>(e)) {
        head("init");
        auto *s = x->isSemanticForm() ? x : x->getSemanticForm();
        if (!s)
          s = x;
        list("a", s->inits());
        O << "}";
      } else if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
        head("cast");
        if (isa<CXXFunctionalCastExpr>(x))
          O << ",\"fc\":1";
        O << ",\"e\":";
        expr(x->getSubExpr());
        O << "}";
      } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
        head("lambda");
        auto *op = x->getCallOperator();
        O << ",\"id\":" << id(op) << ",\"key\":" << jstr(fkey(op));
        O << ",\"cls\":" << id(x->getLambdaClass());
        O << ",\"cap\":[";
        bool first = true;
        for (auto &c : x->captures()) {
          if (!first)
            O << ",";
          first = false;
          if (c.capturesVariable()) {
            O << "{\"id\":" << id(c.getCapturedVar())
              << ",\"n\":" << jstr(c.getCapturedVar()->getNameAsString())
              << ",\"ref\":" << (c.getCaptureKind() == LCK_ByRef ? 1 : 0);
            if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar()))
              if (vd->isInitCapture()) {
                O << ",\"init\":";
                expr(vd->getInit());
              }
            O << "}";
          } else
            O << "{\"n\":\"this\"}";
        }
        O << "]";
        // a generic lambda: emit its pattern and all instantiations
        if (op->getDescribedFunctionTemplate()) {
          O << ",\"inst\":[";
          first = true;
          for (auto *s :
               op->getDescribedFunctionTemplate()->specializations()) {
            if (!s->hasBody())
              continue;
            if (!first)
              O << ",";
            first = false;
            O << "{\"key\":" << jstr(fkey(s));
            params(s);
            O << ",\"body\":";
            stmt(s->getBody());
            O << "}";
          }
          O << "]";
          O << ",\"generic\":1";
        } else {
          params(op);
          O << ",\"body\":";
          stmt(op->getBody());
        }
        O << "}";
      } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
        head("throw");
        O << ",\"e\":";
        expr(x->getSubExpr());
        O << "}";
      } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
        head("new");
        O << ",\"e\":";
        if (x->getInitializer())
          expr(x->getInitializer());
        else
          O << "null";
        O << "}";
      } else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
        head("delete");
        O << ",\"e\":";
        expr(x->getArgument());
        O << "}";
      } else if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e)) {
        head("zero");
        O << "}";
      } else if (auto *x = dyn_cast<ImplicitValueInitExpr>(e)) {
        head("zero");
        O << "}";
      } else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
        head("ctor");
        callee(x->getConstructor());
        O << ",\"a\":[]}";
      } else if (auto *x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
        head("uctor");
        list("a", x->arguments());
        O << "}";
      } else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
        expr(x->getSourceExpr());
      } else if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) {
        expr(x->getCommonExpr());
      } else {
        head("other");
        O << ",\"cls\":" << jstr(e->getStmtClassName());
        O << ",\"a\":[";
        bool first = true;
        for (auto *c : e->children()) {
          if (!c || !isa<Expr>(c))
            continue;
          if (!first)
            O << ",";
          first = false;
          expr(cast<Expr>(c));
        }
        O << "]}";
      }
    }

    void callee(const FunctionDecl *f)
    {
      O << ",\"q\":" << jstr(qname(f)) << ",\"n\":"
        << jstr(nameNoQual(f)) << ",\"key\":" << jstr(fkey(f))
        << ",\"id\":" << id(f);
      if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
        if (m->isConst())
          O << ",\"const\":1";
        if (m->isVirtual())
          O << ",\"virt\":1";
        if (m->isStatic())
          O << ",\"static\":1";
        O << ",\"cls\":" << jstr(qname(m->getParent()));
      }
      if (f->getDefinition() && inRoot(f->getDefinition()->getLocation()))
        O << ",\"own\":1";
      // template arguments of the callee
      if (auto *ta = f->getTemplateSpecializationArgs()) {
        O << ",\"ta\":[";
        bool first = true;
        for (auto &a : ta->asArray()) {
          if (!first)
            O << ",";
          first = false;
          std::string s;
          llvm::raw_string_ostream os(s);
          a.print(PP, os, true);
          O << jstr(os.str());
        }
        O << "]";
      }
      // parameter passing modes: r = non-const reference / pointer
      O << ",\"pm\":\"";
      for (auto *p : f->parameters()) {
        QualType t = p->getType().getCanonicalType();
        char c = 'v';
        if (t->isReferenceType() || t->isPointerType()) {
          QualType pt = t->getPointeeType();
          bool ptr = t->isPointerType();
          c = pt.isConstQualified() ? (ptr ? 'q' : 'c')
                                    : (ptr ? 'p'
                                           : (t->isRValueReferenceType() ? 'm'
                                                                         : 'r'));
        }
        O << c;
      }
      O << "\"";
      if (f->isVariadic())
        O << ",\"variadic\":1";
    }

    void params(const FunctionDecl *f)
    {
      O << ",\"params\":[";
      bool first = true;
      for (auto *p : f->parameters()) {
        if (!first)
          O << ",";
        first = false;
        O << "{\"id\":" << id(p) << ",\"n\":" << jstr(p->getNameAsString())
          << ",\"t\":" << jstr(type(p->getType())) << "}";
      }
      O << "]";
    }

    void var(const VarDecl *v)
    {
      O << "{\"id\":" << id(v) << ",\"n\":" << jstr(v->getNameAsString())
        << ",\"t\":" << jstr(type(v->getType()));
      L(v->getLocation());
      if (v->isStaticLocal())
        O << ",\"static\":1";
      if (v->getTSCSpec() != TSCS_unspecified)
        O << ",\"tls\":1";
      if (auto *d = dyn_cast<DecompositionDecl>(v)) {
        O << ",\"bind\":[";
        bool first = true;
        for (auto *b : d->bindings()) {
          if (!first)
            O << ",";
          first = false;
          O << "{\"id\":" << id(b) << ",\"n\":" << jstr(b->getNameAsString())
            << "}";
        }
        O << "]";
      }
      O << ",\"init\":";
      expr(v->getInit());
      O << "}";
    }

    void stmt(const Stmt *s)
    {
      if (!s) {
        O << "null";
        return;
      }
      SourceLocation loc = s->getBeginLoc();
      auto head = [&](const char *k) {
        O << "{\"k\":\"" << k << "\"";
        L(loc);
      };
      if (auto *x = dyn_cast<Expr>(s)) {
        expr(x);
        return;
      }
      if (auto *x = dyn_cast<CapturedStmt>(s)) {
        stmt(x->getCapturedStmt());
        return;
      }
      if (auto *x = dyn_cast<AttributedStmt>(s)) {
        stmt(x->getSubStmt());
        return;
      }
      if (auto *x = dyn_cast<CompoundStmt>(s)) {
        head("block");
        O << ",\"s\":[";
        bool first = true;
        for (auto *c : x->body()) {
          if (!first)
            O << ",";
          first = false;
          stmt(c);
        }
        O << "]";
        O << ",\"el\":" << line(x->getRBracLoc());
        O << "}";
      } else if (auto *x = dyn_cast<DeclStmt>(s)) {
        head("decl");
        O << ",\"v\":[";
        bool first = true;
        for (auto *d : x->decls())
          if (auto *v = dyn_cast<VarDecl>(d)) {
            if (!first)
              O << ",";
            first = false;
            var(v);
          }
        O << "]}";
      } else if (auto *x = dyn_cast<IfStmt>(s)) {
        head("if");
        if (x->isConstexpr())
          O << ",\"cx\":1";
        if (x->getInit()) {
          O << ",\"init\":";
          stmt(x->getInit());
        }
        if (x->getConditionVariable()) {
          O << ",\"var\":";
          var(x->getConditionVariable());
        }
        O << ",\"c\":";
        expr(x->getCond());
        O << ",\"th\":";
        stmt(x->getThen());
        O << ",\"el\":";
        stmt(x->getElse());
        O << "}";
      } else if (auto *x = dyn_cast<ForStmt>(s)) {
        head("for");
        O << ",\"init\":";
        stmt(x->getInit());
        O << ",\"c\":";
        expr(x->getCond());
        O << ",\"inc\":";
        expr(x->getInc());
        O << ",\"b\":";
        stmt(x->getBody());
        O << "}";
      } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
        if (x->getInit()) {
          head("block");
          O << ",\"s\":[";
          stmt(x->getInit());
          O << ",";
        }
        head("rfor");
        O << ",\"range\":";
        expr(x->getRangeInit());
        O << ",\"var\":";
        var(x->getLoopVariable());
        O << ",\"b\":";
        stmt(x->getBody());
        O << "}";
        if (x->getInit())
          O << "]}";
      } else if (auto *x = dyn_cast<WhileStmt>(s)) {
        head("while");
        O << ",\"c\":";
        expr(x->getCond());
        O << ",\"b\":";
        stmt(x->getBody());
        O << "}";
      } else if (auto *x = dyn_cast<DoStmt>(s)) {
        head("do");
        O << ",\"c\":";
        expr(x->getCond());
        O << ",\"b\":";
        stmt(x->getBody());
        O << "}";
      } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
        head("ret");
        O << ",\"e\":";
        expr(x->getRetValue());
        O << "}";
      } else if (isa<BreakStmt>(s)) {
        head("break");
        O << "}";
      } else if (isa<ContinueStmt>(s)) {
        head("cont");
        O << "}";
      } else if (isa<NullStmt>(s)) {
        head("null");
        O << "}";
      } else if (auto *x = dyn_cast<SwitchStmt>(s)) {
        head("switch");
        O << ",\"c\":";
        expr(x->getCond());
        O << ",\"b\":";
        stmt(x->getBody());
        O << "}";
      } else if (auto *x = dyn_cast<CaseStmt>(s)) {
        head("case");
        O << ",\"v\":";
        expr(x->getLHS());
        O << ",\"b\":";
        stmt(x->getSubStmt());
        O << "}";
      } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
        head("default");
        O << ",\"b\":";
        stmt(x->getSubStmt());
        O << "}";
      } else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
        head("try");
        O << ",\"b\":";
        stmt(x->getTryBlock());
        O << ",\"h\":[";
        for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
          if (i)
            O << ",";
          auto *h = x->getHandler(i);
          O << "{\"t\":"
            << jstr(h->getExceptionDecl() ? type(h->getCaughtType()) : "...");
          if (h->getExceptionDecl())
            O << ",\"id\":" << id(h->getExceptionDecl());
          O << ",\"l\":" << line(h->getBeginLoc()) << ",\"b\":";
          stmt(h->getHandlerBlock());
          O << "}";
        }
        O << "]}";
      } else if (auto *x = dyn_cast<OMPExecutableDirective>(s)) {
        head("omp");
        O << ",\"d\":"
          << jstr(llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()));
        O << ",\"cl\":[";
        bool first = true;
        for (auto *c : x->clauses()) {
          if (!first)
            O << ",";
          first = false;
          O << "{\"n\":" << jstr(llvm::omp::getOpenMPClauseName(
                                c->getClauseKind()));
          if (auto *dc = dyn_cast<OMPDefaultClause>(c))
O << ",\"v\":" << (int)dc->getDefaultKind();
          O << ",\"vars\":[";
          bool f2 = true;
          for (auto *ch : c->children())
            if (auto *dr = dyn_cast_or_null<DeclRefExpr>(ch)) {
              if (!f2)
                O << ",";
              f2 = false;
              O << "{";
              declref(dr->getDecl());
              O << "}";
            }
          O << "]";
          O << "}";
        }
        O << "],\"b\":";
        if (x->hasAssociatedStmt() && x->getAssociatedStmt())
          stmt(x->getAssociatedStmt());
        else
          O << "null";
        O << "}";
      } else {
        head("other");
        O << ",\"cls\":" << jstr(s->getStmtClassName()) << ",\"s\":[";
        bool first = true;
        for (auto *c : s->children()) {
          if (!first)
            O << ",";
          first = false;
          stmt(c);
        }
        O << "]}";
      }
    }

    void function(const FunctionDecl *f)
    {
      auto p = pos(f->getLocation());
      cur_file = p.first;
      O << "{\"k\":\"func\",\"q\":" << jstr(qname(f)) << ",\"n\":"
        << jstr(nameNoQual(f)) << ",\"key\":" << jstr(fkey(f))
        << ",\"file\":" << jstr(p.first) << ",\"l\":" << p.second
        << ",\"id\":" << id(f)
        << ",\"rt\":" << jstr(type(f->getReturnType()));
      if (auto *ta = f->getTemplateSpecializationArgs()) {
        O << ",\"ta\":[";
        bool first = true;
        for (auto &a : ta->asArray()) {
          if (!first)
            O << ",";
          first = false;
          std::string s;
          llvm::raw_string_ostream os(s);
          a.print(PP, os, true);
          O << jstr(os.str());
        }
        O << "]";
      }
      if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
        O << ",\"cls\":" << jstr(qname(m->getParent()));
        if (m->isConst())
          O << ",\"const\":1";
        if (m->isStatic())
          O << ",\"static\":1";
        if (m->isVirtual())
          O << ",\"virt\":1";
        if (m->size_overridden_methods()) {
          O << ",\"ovr\":[";
          bool first = true;
          for (auto *o : m->overridden_methods()) {
            if (!first)
              O << ",";
            first = false;
            O << jstr(fkey(o));
          }
          O << "]";
        }
      }
      if (isa<CXXConstructorDecl>(f))
        O << ",\"ctor\":1";
      if (isa<CXXDestructorDecl>(f))
        O << ",\"dtor\":1";
      O << ",\"acc\":" << (int)f->getAccess();
      params(f);
      if (auto *cd = dyn_cast<CXXConstructorDecl>(f)) {
        O << ",\"inits\":[";
        bool first = true;
        for (auto *i : cd->inits()) {
          if (!first)
            O << ",";
          first = false;
          O << "{";
          if (i->isAnyMemberInitializer()) {
            O << "\"n\":" << jstr(i->getAnyMember()->getNameAsString())
              << ",\"id\":" << id(i->getAnyMember());
          } else if (i->isBaseInitializer())
            O << "\"base\":" << jstr(type(QualType(i->getBaseClass(), 0)));
          else
            O << "\"deleg\":1";
          O << ",\"w\":" << (i->isWritten() ? 1 : 0);
          O << ",\"e\":";
          expr(i->getInit());
          O << "}";
        }
        O << "]";
      }
      O << ",\"body\":";
      stmt(f->getBody());
      O << "}\n";
    }

    void record(const CXXRecordDecl *r)
    {
      auto p = pos(r->getLocation());
      cur_file = p.first;
      O << "{\"k\":\"class\",\"q\":" << jstr(qname(r)) << ",\"n\":"
        << jstr(r->getNameAsString()) << ",\"file\":" << jstr(p.first)
        << ",\"l\":" << p.second << ",\"id\":" << id(r) << ",\"bases\":[";
      bool first = true;
      for (auto &b : r->bases()) {
        if (!first)
          O << ",";
        first = false;
        O << jstr(type(b.getType()));
      }
      O << "],\"fields\":[";
      first = true;
      for (auto *f : r->fields()) {
        if (!first)
          O << ",";
        first = false;
        O << "{\"n\":" << jstr(f->getNameAsString()) << ",\"id\":" << id(f)
          << ",\"t\":" << jstr(type(f->getType()))
          << ",\"l\":" << line(f->getLocation())
          << (f->isMutable() ? ",\"mut\":1" : "") << ",\"acc\":"
          << (int)f->getAccess() << "}";
      }
      O << "],\"methods\":[";
      first = true;
      for (auto *m : r->methods()) {
        if (m->isImplicit())
          continue;
        if (!first)
          O << ",";
        first = false;
        O << "{\"n\":" << jstr(nameNoQual(m)) << ",\"key\":"
          << jstr(fkey(m)) << ",\"pure\":" << (m->isPureVirtual() ? 1 : 0)
          << ",\"virt\":" << (m->isVirtual() ? 1 : 0) << ",\"acc\":"
          << (int)m->getAccess() << "}";
      }
      O << "],\"statics\":[";
      first = true;
      for (auto *d : r->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) {
          if (!first)
            O << ",";
          first = false;
          O << "{\"n\":" << jstr(v->getNameAsString()) << ",\"t\":"
            << jstr(type(v->getType())) << ",\"e\":";
          if (v->getAnyInitializer() &&
              !v->getAnyInitializer()->isValueDependent())
            expr(v->getAnyInitializer());
          else
            O << "null";
          O << "}";
        }
      O << "]}\n";
    }

    void enumeration(const EnumDecl *e)
    {
      auto p = pos(e->getLocation());
      O << "{\"k\":\"enum\",\"q\":" << jstr(qname(e)) << ",\"file\":"
        << jstr(p.first) << ",\"l\":" << p.second << ",\"vals\":[";
      bool first = true;
      for (auto *c : e->enumerators()) {
        if (!first)
          O << ",";
        first = false;
        llvm::SmallString<32> s;
        c->getInitVal().toString(s, 10);
        O << "[" << jstr(c->getNameAsString()) << "," << jstr(s) << "]";
      }
      O << "]}\n";
    }

    void global(const VarDecl *v)
    {
      auto p = pos(v->getLocation());
      cur_file = p.first;
      O << "{\"k\":\"var\",\"q\":" << jstr(qname(v)) << ",\"file\":"
        << jstr(p.first) << ",\"var\":";
      var(v);
      O << "}\n";
    }
  };

  class Visitor : public RecursiveASTVisitor<Visitor>
  {
  public:
    Visitor(ASTContext &c, llvm::raw_ostream &os)
        : D(c, os)
    {
    }
    Dumper D;
    std::set<const void *> seen;
    bool shouldVisitTemplateInstantiations() const
    {
      return true;
    }
    bool shouldVisitImplicitCode() const
    {
      return false;
    }
    bool shouldVisitLambdaBody() const
    {
      return false;
    }

    bool VisitFunctionDecl(FunctionDecl *f)
    {
      if (!f->isThisDeclarationADefinition() || !f->hasBody())
        return true;
      if (f->isDependentContext() || f->isImplicit() || f->isDefaulted())
        return true;
      if (auto *m = dyn_cast<CXXMethodDecl>(f))
        if (m->getParent()->isLambda())
          return true;
      if (!D.inRoot(f->getLocation()))
        return true;
      if (!seen.insert(f).second)
        return true;
      D.function(f);
      return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
      if (!r->isThisDeclarationADefinition() || r->isDependentContext() ||
          r->isLambda())
        return true;
      if (!D.inRoot(r->getLocation()))
        return true;
      if (!seen.insert(r).second)
        return true;
      D.record(r);
      return true;
    }
    bool VisitEnumDecl(EnumDecl *e)
    {
      if (!e->isThisDeclarationADefinition() || !D.inRoot(e->getLocation()) ||
          e->isDependentContext())
        return true;
      if (!seen.insert(e).second)
        return true;
      D.enumeration(e);
      return true;
    }
    bool VisitVarDecl(VarDecl *v)
    {
      if (!v->hasGlobalStorage() || v->isStaticLocal())
        return true;
      if (!v->isThisDeclarationADefinition() ||
          v->getDeclContext()->isDependentContext() ||
          !D.inRoot(v->getLocation()) || !v->getAnyInitializer() ||
          v->getAnyInitializer()->isValueDependent())
        return true;
      if (!seen.insert(v).second)
        return true;
      D.global(v);
      return true;
    }
  };

  class Consumer : public ASTConsumer
  {
  public:
    void HandleTranslationUnit(ASTContext &ctx) override
    {
      if (ctx.getDiagnostics().hasUncompilableErrorOccurred())
        return;
      Visitor v(ctx, llvm::outs());
      v.TraverseDecl(ctx.getTranslationUnitDecl());
      llvm::outs() << "{\"k\":\"end\"}\n";
      llvm::outs().flush();
    }
  };

  class Action : public ASTFrontendAction
  {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                   llvm::StringRef) override
    {
      return std::make_unique<Consumer>();
    }
  };
} // namespace

int main(int argc, const char **argv)
{
  // usage: exporter ROOT file -- flags
  if (argc < 4)
    return 2;
  ROOT = argv[1];
  std::string file = argv[2];
  std::vector<std::string> args;
  args.push_back("clang-tool");
  int i = 3;
  if (std::string(argv[i]) == "--")
    ++i;
  for (; i < argc; ++i)
    args.push_back(argv[i]);
  args.push_back("-fsyntax-only");
  args.push_back(file);
  llvm::IntrusiveRefCntPtr<FileManager> fm(
      new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
  return inv.run() ? 0 : 3;
}
