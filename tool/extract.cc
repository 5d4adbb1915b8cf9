// Fact extractor for hpp-constraints.
//
// A libTooling program that parses one translation unit of /repo with the
// flags of the real build and writes, as JSON, the resolved syntax tree of
// every function body and class that is located under the repository
// (template instantiations included). Bodies of functions that are outside the
// repository are not parsed (their declarations are), which keeps the cost low.
//
// Nothing is executed: the output is only what Sema resolved.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Lex/Preprocessor.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <fstream>
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root;     // repository root, ends with '/'
static std::string Exclude;  // excluded prefix inside root
static std::vector<std::string> Extra;  // extra roots (witness files)
static std::string OutFile;
static bool Failed = false;

namespace {

struct Ctx {
  ASTContext* ast;
  SourceManager* sm;
  PrintingPolicy pp;
  Ctx(ASTContext& c)
      : ast(&c), sm(&c.getSourceManager()), pp(c.getPrintingPolicy()) {
    pp.SuppressTagKeyword = true;
    pp.SuppressInlineNamespace = true;
    pp.Bool = true;
  }
};

bool pathInRepo(llvm::StringRef f) {
  for (auto& e : Extra)
    if (f.starts_with(e)) return true;
  if (!f.starts_with(Root)) return false;
  if (!Exclude.empty() && f.starts_with(Exclude)) return false;
  return true;
}

class Emitter {
 public:
  Ctx& C;
  llvm::json::OStream& J;
  std::map<const Decl*, int> ids;
  int nextId = 0;
  std::set<const Stmt*> emittedLambda;

  Emitter(Ctx& c, llvm::json::OStream& j) : C(c), J(j) {}

  std::string file(SourceLocation l) {
    l = C.sm->getExpansionLoc(l);
    auto fe = C.sm->getFileEntryRefForID(C.sm->getFileID(l));
    if (!fe) return "";
    llvm::StringRef n = fe->getFileEntry().tryGetRealPathName();
    if (n.empty()) n = fe->getName();
    return n.str();
  }
  unsigned line(SourceLocation l) {
    return C.sm->getExpansionLineNumber(l);
  }
  bool inRepo(SourceLocation l) { return pathInRepo(file(l)); }

  // name without template arguments
  std::string qname(const NamedDecl* d) {
    std::string s;
    std::vector<std::string> parts;
    const DeclContext* dc = d->getDeclContext();
    if (auto* m = dyn_cast<CXXMethodDecl>(d)) {
      if (isa<CXXConstructorDecl>(m))
        parts.push_back(m->getParent()->getNameAsString());
      else if (isa<CXXDestructorDecl>(m))
        parts.push_back("~" + m->getParent()->getNameAsString());
      else
        parts.push_back(m->getNameAsString());
    } else
      parts.push_back(d->getNameAsString());
    while (dc && !dc->isTranslationUnit()) {
      if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
        if (ns->isAnonymousNamespace())
          ;
        else if (!ns->isInline())
          parts.push_back(ns->getNameAsString());
      } else if (auto* r = dyn_cast<RecordDecl>(dc)) {
        parts.push_back(r->getNameAsString());
      } else if (auto* f = dyn_cast<FunctionDecl>(dc)) {
        parts.push_back(f->getNameAsString() + "()");
      } else if (auto* e = dyn_cast<EnumDecl>(dc)) {
        if (e->isScoped()) parts.push_back(e->getNameAsString());
      }
      dc = dc->getParent();
    }
    for (size_t i = parts.size(); i-- > 0;) {
      s += parts[i];
      if (i) s += "::";
    }
    return s;
  }
  std::string usr(const Decl* d) {
    llvm::SmallString<128> buf;
    if (index::generateUSRForDecl(d, buf)) return "";
    return buf.str().str();
  }
  std::string ty(QualType t) {
    if (t.isNull()) return "";
    std::string s = t.getAsString(C.pp);
    if (s.size() > 160) s = s.substr(0, 157) + "...";
    return s;
  }
  // Name of the record a type denotes after stripping refs, pointers, cv.
  std::string rec(QualType t) {
    if (t.isNull()) return "";
    t = t.getNonReferenceType();
    while (t->isPointerType()) t = t->getPointeeType();
    if (auto* r = t->getAsCXXRecordDecl()) return qname(r);
    if (t->isBooleanType()) return "bool";
    if (t->isIntegerType()) return "int";
    if (t->isFloatingType()) return "float";
    return "";
  }
  // smart pointer target
  std::string pointee(QualType t) {
    if (t.isNull()) return "";
    t = t.getNonReferenceType();
    if (t->isPointerType()) return rec(t->getPointeeType());
    if (auto* r = t->getAsCXXRecordDecl()) {
      if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
        std::string n = r->getNameAsString();
        if (n == "shared_ptr" || n == "weak_ptr" || n == "unique_ptr" ||
            n == "vector" || n == "list" || n == "set") {
          if (s->getTemplateArgs().size() > 0 &&
              s->getTemplateArgs()[0].getKind() == TemplateArgument::Type) {
            QualType a = s->getTemplateArgs()[0].getAsType();
            std::string r2 = rec(a);
            std::string p2 = pointee(a);
            if (!p2.empty()) return r2 + "<" + p2 + ">";
            return r2;
          }
        }
      }
    }
    return "";
  }
  bool constQual(QualType t) {
    if (t.isNull()) return false;
    t = t.getNonReferenceType();
    if (t->isPointerType()) return t->getPointeeType().isConstQualified();
    return t.isConstQualified();
  }
  // Is t a view on storage owned by somebody else? 0 no, 1 const, 2 mutable
  int viewKind(QualType t) {
    if (t.isNull()) return 0;
    t = t.getNonReferenceType();
    auto* r = t->getAsCXXRecordDecl();
    if (!r) return 0;
    auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r);
    if (!s || s->getTemplateArgs().size() == 0) return 0;
    std::string n = r->getNameAsString();
    const TemplateArgument& a = s->getTemplateArgs()[0];
    if (a.getKind() != TemplateArgument::Type) return 0;
    QualType at = a.getAsType();
    if (n == "Ref" || n == "Map" || n == "Block" || n == "VectorBlock" ||
        n == "Transpose" || n == "MatrixBlockView" || n == "Diagonal" ||
        n == "Reshaped")
      return at.isConstQualified() ? 1 : 2;
    if (n == "LiegroupElementBase" || n == "LiegroupElementConstBase") {
      int k = viewKind(at);
      if (n == "LiegroupElementConstBase" && k) return 1;
      return k;
    }
    return 0;
  }
  const char* passMode(QualType t) {
    if (t->isReferenceType())
      return (t->getPointeeType().isConstQualified() ||
              viewKind(t->getPointeeType()) == 1)
                 ? "c"
                 : "m";
    if (t->isPointerType())
      return t->getPointeeType().isConstQualified() ? "c" : "p";
    int k = viewKind(t);
    if (k == 1) return "c";
    if (k == 2) return "m";
    return "v";
  }
  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int i = nextId++;
    ids[d] = i;
    return i;
  }
  std::string targs(ArrayRef<TemplateArgument> as) {
    std::string s;
    llvm::raw_string_ostream os(s);
    bool first = true;
    for (auto& a : as) {
      if (!first) os << ",";
      first = false;
      if (a.getKind() == TemplateArgument::Pack) {
        os << targs(a.getPackAsArray());
      } else
        a.print(C.pp, os, false);
    }
    os.flush();
    if (s.size() > 120) s = s.substr(0, 117) + "...";
    return s;
  }

  void kind(const char* k, const Stmt* s) {
    J.attribute("k", k);
    J.attribute("l", (int64_t)line(s->getBeginLoc()));
  }

  void exprList(const char* name, const Expr* const* b, const Expr* const* e) {
    J.attributeBegin(name);
    J.arrayBegin();
    for (; b != e; ++b) expr(*b);
    J.arrayEnd();
    J.attributeEnd();
  }
  void sub(const char* name, const Expr* e) {
    if (!e) return;
    J.attributeBegin(name);
    expr(e);
    J.attributeEnd();
  }
  void subs(const char* name, const Stmt* e) {
    if (!e) return;
    J.attributeBegin(name);
    stmt(e);
    J.attributeEnd();
  }

  const Expr* strip(const Expr* e) {
    for (;;) {
      const Expr* o = e;
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<FullExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
      if (e == o) return e;
    }
  }

  void typeAttrs(QualType t) {
    J.attribute("t", ty(t));
    std::string r = rec(t);
    if (!r.empty()) J.attribute("r", r);
    std::string p = pointee(t);
    if (!p.empty()) J.attribute("p", p);
    if (constQual(t)) J.attribute("cq", true);
    if (t->isPointerType()) J.attribute("ptr", true);
    if (t->isReferenceType()) J.attribute("ref", true);
    int vk = viewKind(t);
    if (vk) J.attribute("vw", vk == 1 ? "c" : "m");
  }

  void calleeAttrs(const FunctionDecl* f) {
    J.attribute("f", qname(f));
    J.attribute("u", usr(f));
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) J.attribute("virt", true);
      if (m->isConst()) J.attribute("cm", true);
      if (m->isStatic()) J.attribute("st", true);
    }
    if (f->isNoReturn()) J.attribute("noret", true);
    if (auto* a = f->getTemplateSpecializationArgs())
      J.attribute("ta", targs(a->asArray()));
    // by-reference non const parameters
    J.attributeBegin("pm");
    J.arrayBegin();
    for (auto* p : f->parameters()) {
      QualType t = p->getType();
      const char* m = passMode(t);
      J.value(m);
    }
    J.arrayEnd();
    J.attributeEnd();
  }

  void expr(const Expr* e0) {
    if (!e0) {
      J.objectBegin();
      J.attribute("k", "null");
      J.objectEnd();
      return;
    }
    const Expr* e = strip(e0);
    J.objectBegin();
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        kind("enum", e);
        J.attribute("n", qname(ec));
        J.attribute("v", (int64_t)ec->getInitVal().getExtValue());
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        kind("fn", e);
        calleeAttrs(f);
      } else {
        kind("var", e);
        J.attribute("n", d->getNameAsString());
        J.attribute("i", id(d));
        if (isa<ParmVarDecl>(d)) J.attribute("s", "p");
        else if (auto* v = dyn_cast<VarDecl>(d)) {
          if (v->isStaticDataMember()) {
            J.attribute("s", "sm");
            J.attribute("q", qname(v));
          } else if (v->hasGlobalStorage()) {
            J.attribute("s", v->isStaticLocal() ? "sl" : "g");
            J.attribute("q", qname(v));
          } else
            J.attribute("s", "l");
        } else
          J.attribute("s", "o");
        typeAttrs(d->getType());
        constVal(e0);
      }
    } else if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* f = dyn_cast<FieldDecl>(d)) {
        kind("mem", e);
        J.attribute("n", f->getNameAsString());
        J.attribute("c", qname(cast<NamedDecl>(f->getParent())));
        typeAttrs(f->getType());
        if (f->isMutable()) J.attribute("mut", true);
        sub("b", x->getBase());
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        kind("fn", e);
        calleeAttrs(f);
        sub("b", x->getBase());
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        kind("var", e);
        J.attribute("n", v->getNameAsString());
        J.attribute("i", id(v));
        J.attribute("s", "sm");
        J.attribute("q", qname(v));
        typeAttrs(v->getType());
      } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        kind("enum", e);
        J.attribute("n", qname(ec));
        J.attribute("v", (int64_t)ec->getInitVal().getExtValue());
      } else {
        kind("other", e);
        J.attribute("cls", "Member");
      }
    } else if (isa<CXXThisExpr>(e)) {
      kind("this", e);
    } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      kind("call", e);
      const FunctionDecl* f = x->getDirectCallee();
      J.attribute("op", getOperatorSpelling(x->getOperator()));
      if (f) calleeAttrs(f);
      unsigned st = 0;
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic() &&
          x->getNumArgs() > 0) {
        sub("o", x->getArg(0));
        st = 1;
      }
      J.attributeBegin("a");
      J.arrayBegin();
      for (unsigned i = st; i < x->getNumArgs(); ++i) expr(x->getArg(i));
      J.arrayEnd();
      J.attributeEnd();
      typeAttrs(f ? f->getReturnType() : e->getType());
    } else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      kind("call", e);
      const CXXMethodDecl* f = x->getMethodDecl();
      if (f) {
        calleeAttrs(f);
        if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
          if (me->hasQualifier()) J.attribute("qual", true);
      }
      const Expr* o = x->getImplicitObjectArgument();
      if (o) {
        sub("o", o);
        QualType ot = strip(o)->getType();
        std::string orc = rec(ot);
        std::string op = pointee(ot);
        J.attribute("or", orc);
      } else
        sub("ce", x->getCallee());
      J.attributeBegin("a");
      J.arrayBegin();
      for (auto* a : x->arguments()) expr(a);
      J.arrayEnd();
      J.attributeEnd();
      typeAttrs(f ? f->getReturnType() : e->getType());
    } else if (auto* x = dyn_cast<CallExpr>(e)) {
      kind("call", e);
      if (const FunctionDecl* f = x->getDirectCallee()) {
        calleeAttrs(f);
        typeAttrs(f->getReturnType());
      } else {
        sub("ce", x->getCallee());
        typeAttrs(e->getType());
      }
      J.attributeBegin("a");
      J.arrayBegin();
      for (auto* a : x->arguments()) expr(a);
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      const CXXConstructorDecl* cd = x->getConstructor();
      kind("ctor", e);
      J.attribute("c", qname(cd->getParent()));
      J.attribute("f", qname(cd));
      J.attribute("u", usr(cd));
      if (cd->isCopyOrMoveConstructor()) J.attribute("copy", true);
      if (x->isElidable()) J.attribute("elid", true);
      if (cd->isExplicit() == false && cd->isConvertingConstructor(true))
        J.attribute("conv", true);
      J.attributeBegin("a");
      J.arrayBegin();
      for (auto* a : x->arguments()) expr(a);
      J.arrayEnd();
      J.attributeEnd();
      typeAttrs(e->getType());
    } else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      kind("ctor", e);
      J.attribute("c", qname(x->getConstructor()->getParent()));
      J.attribute("f", qname(x->getConstructor()));
      J.attribute("a", json::Array());
    } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
      kind("bin", e);
      J.attribute("op", x->getOpcodeStr());
      sub("x", x->getLHS());
      sub("y", x->getRHS());
      constVal(e0);
      J.attribute("t", ty(e->getType()));
    } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
      kind("un", e);
      J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
      if (x->isPostfix()) J.attribute("post", true);
      sub("x", x->getSubExpr());
      constVal(e0);
      J.attribute("t", ty(e->getType()));
    } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      // assert idiom
      const Expr* f = strip(x->getFalseExpr());
      const CallExpr* fc = dyn_cast<CallExpr>(f);
      if (fc && fc->getDirectCallee() && fc->getDirectCallee()->isNoReturn()) {
        kind("assert", e);
        sub("c", x->getCond());
      } else {
        kind("cond", e);
        sub("c", x->getCond());
        sub("x", x->getTrueExpr());
        sub("y", x->getFalseExpr());
      }
    } else if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      kind("lit", e);
      J.attribute("v", (int64_t)x->getValue().getLimitedValue(INT64_MAX));
    } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      kind("lit", e);
      double v = x->getValueAsApproximateDouble();
      llvm::SmallString<32> sv;
      x->getValue().toString(sv);
      J.attribute("v", sv.str());
      (void)v;
    } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      kind("lit", e);
      J.attribute("v", x->getValue());
    } else if (auto* x = dyn_cast<StringLiteral>(e)) {
      kind("str", e);
      std::string s = x->isOrdinary() ? x->getString().str() : "";
      if (!json::isUTF8(s)) s = json::fixUTF8(s);
      J.attribute("v", s);
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      kind("nullptr", e);
    } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      kind("lit", e);
      J.attribute("v", (int64_t)x->getValue());
    } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      kind("sub", e);
      sub("b", x->getBase());
      sub("x", x->getIdx());
    } else if (auto* x = dyn_cast<CXXFunctionalCastExpr>(e)) {
      castNode(x, "func");
    } else if (auto* x = dyn_cast<CXXDynamicCastExpr>(e)) {
      castNode(x, "dynamic");
    } else if (auto* x = dyn_cast<CXXConstCastExpr>(e)) {
      castNode(x, "const");
    } else if (auto* x = dyn_cast<CXXStaticCastExpr>(e)) {
      castNode(x, "static");
    } else if (auto* x = dyn_cast<CXXReinterpretCastExpr>(e)) {
      castNode(x, "reinterpret");
    } else if (auto* x = dyn_cast<CStyleCastExpr>(e)) {
      castNode(x, "c");
    } else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
      kind("defarg", e);
      sub("x", x->getExpr());
    } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      kind("new", e);
      typeAttrs(x->getAllocatedType());
      sub("x", x->getInitializer());
      if (x->isArray()) J.attribute("arr", true);
    } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      kind("delete", e);
      sub("x", x->getArgument());
    } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      kind("throw", e);
      if (x->getSubExpr()) {
        J.attribute("t", ty(x->getSubExpr()->getType()));
        J.attribute("r", rec(x->getSubExpr()->getType()));
        sub("x", x->getSubExpr());
      }
    } else if (auto* x = dyn_cast<InitListExpr>(e)) {
      kind("init", e);
      J.attributeBegin("a");
      J.arrayBegin();
      for (auto* a : x->inits()) expr(a);
      J.arrayEnd();
      J.attributeEnd();
      typeAttrs(e->getType());
    } else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      kind("init", e);
      J.attributeBegin("a");
      J.arrayBegin();
      expr(x->getSubExpr());
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) {
      kind("zero", e);
      typeAttrs(x->getType());
    } else if (isa<ImplicitValueInitExpr>(e)) {
      kind("zero", e);
    } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      kind("lambda", e);
      J.attributeBegin("ps");
      params(x->getCallOperator());
      J.attributeEnd();
      J.attributeBegin("caps");
      J.arrayBegin();
      for (auto& c : x->captures()) {
        J.objectBegin();
        if (c.capturesVariable()) {
          J.attribute("n", c.getCapturedVar()->getNameAsString());
          J.attribute("i", id(c.getCapturedVar()));
        } else if (c.capturesThis())
          J.attribute("n", "this");
        J.attribute("byref", c.getCaptureKind() == LCK_ByRef);
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      subs("body", x->getBody());
    } else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      kind("lit", e);
      J.attribute("v", "sizeof");
      (void)x;
    } else if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
      kind("typeid", e);
      if (!x->isTypeOperand()) sub("x", x->getExprOperand());
      else J.attribute("t", ty(x->getTypeOperandSourceInfo()->getType()));
    } else if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
      kind("dep", e);
      J.attribute("n", x->getMember().getAsString());
      if (!x->isImplicitAccess()) sub("b", x->getBase());
    } else if (auto* x = dyn_cast<UnresolvedMemberExpr>(e)) {
      kind("dep", e);
      J.attribute("n", x->getMemberName().getAsString());
      if (!x->isImplicitAccess()) sub("b", x->getBase());
    } else if (auto* x = dyn_cast<OverloadExpr>(e)) {
      kind("dep", e);
      J.attribute("n", x->getName().getAsString());
    } else if (auto* x = dyn_cast<DependentScopeDeclRefExpr>(e)) {
      kind("dep", e);
      J.attribute("n", x->getDeclName().getAsString());
    } else if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
      kind("dep", e);
      J.attribute("n", "ctor");
      J.attribute("t", ty(x->getTypeAsWritten()));
    } else {
      kind("other", e);
      J.attribute("cls", e->getStmtClassName());
      J.attributeBegin("a");
      J.arrayBegin();
      for (auto* c : e->children())
        if (c) {
          if (auto* ce = dyn_cast<Expr>(c)) expr(ce);
        }
      J.arrayEnd();
      J.attributeEnd();
    }
    J.objectEnd();
  }
  void constVal(const Expr* e) {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    QualType t = e->getType();
    if (t.isNull() || !(t->isIntegralOrEnumerationType())) return;
    Expr::EvalResult r;
    if (e->EvaluateAsRValue(r, *C.ast) && r.Val.isInt() && !r.HasSideEffects) {
      if (t->isBooleanType())
        J.attribute("cv", r.Val.getInt().getBoolValue());
      else
        J.attribute("cv", (int64_t)r.Val.getInt().getExtValue());
    }
  }
  void castNode(const ExplicitCastExpr* x, const char* w) {
    // value-changing casts are kept; the operand is under "x"
    kind("cast", x);
    J.attribute("w", w);
    typeAttrs(x->getTypeAsWritten());
    sub("x", x->getSubExpr());
    constVal(x);
  }

  void varDecl(const VarDecl* v) {
    J.objectBegin();
    J.attribute("k", "vd");
    J.attribute("n", v->getNameAsString());
    J.attribute("i", id(v));
    J.attribute("l", (int64_t)line(v->getLocation()));
    if (v->isStaticLocal()) J.attribute("static", true);
    typeAttrs(v->getType());
    if (v->hasInit()) sub("x", v->getInit());
    J.objectEnd();
  }

  void stmt(const Stmt* s) {
    if (!s) {
      J.objectBegin();
      J.attribute("k", "nop");
      J.objectEnd();
      return;
    }
    if (auto* e = dyn_cast<Expr>(s)) {
      J.objectBegin();
      J.attribute("k", "expr");
      J.attribute("l", (int64_t)line(s->getBeginLoc()));
      J.attributeBegin("x");
      expr(e);
      J.attributeEnd();
      J.objectEnd();
      return;
    }
    J.objectBegin();
    kind2(s);
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      J.attribute("k", "blk");
      J.attributeBegin("s");
      J.arrayBegin();
      for (auto* c : x->body()) stmt(c);
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto* x = dyn_cast<DeclStmt>(s)) {
      J.attribute("k", "decl");
      J.attributeBegin("d");
      J.arrayBegin();
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) varDecl(v);
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto* x = dyn_cast<IfStmt>(s)) {
      J.attribute("k", "if");
      if (x->getInit()) subs("init", x->getInit());
      if (x->getConditionVariable()) {
        J.attributeBegin("cvd");
        varDecl(x->getConditionVariable());
        J.attributeEnd();
      }
      sub("c", x->getCond());
      if (x->isConstexpr()) J.attribute("cx", true);
      subs("x", x->getThen());
      if (x->getElse()) subs("y", x->getElse());
    } else if (auto* x = dyn_cast<ForStmt>(s)) {
      J.attribute("k", "for");
      if (x->getInit()) subs("init", x->getInit());
      sub("c", x->getCond());
      sub("inc", x->getInc());
      subs("s", x->getBody());
    } else if (auto* x = dyn_cast<WhileStmt>(s)) {
      J.attribute("k", "while");
      sub("c", x->getCond());
      subs("s", x->getBody());
    } else if (auto* x = dyn_cast<DoStmt>(s)) {
      J.attribute("k", "do");
      sub("c", x->getCond());
      subs("s", x->getBody());
    } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      J.attribute("k", "rfor");
      J.attributeBegin("v");
      varDecl(x->getLoopVariable());
      J.attributeEnd();
      sub("r", x->getRangeInit());
      subs("s", x->getBody());
    } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
      J.attribute("k", "switch");
      sub("c", x->getCond());
      if (x->isAllEnumCasesCovered()) J.attribute("all", true);
      subs("s", x->getBody());
    } else if (auto* x = dyn_cast<CaseStmt>(s)) {
      J.attribute("k", "case");
      sub("v", x->getLHS());
      subs("s", x->getSubStmt());
    } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
      J.attribute("k", "default");
      subs("s", x->getSubStmt());
    } else if (isa<BreakStmt>(s)) {
      J.attribute("k", "break");
    } else if (isa<ContinueStmt>(s)) {
      J.attribute("k", "continue");
    } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
      J.attribute("k", "ret");
      if (x->getRetValue()) sub("x", x->getRetValue());
    } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      J.attribute("k", "try");
      subs("s", x->getTryBlock());
      J.attributeBegin("h");
      J.arrayBegin();
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        const CXXCatchStmt* h = x->getHandler(i);
        J.objectBegin();
        J.attribute("k", "catch");
        J.attribute("l", (int64_t)line(h->getBeginLoc()));
        if (h->getExceptionDecl()) {
          J.attribute("t", rec(h->getCaughtType()));
          J.attribute("i", id(h->getExceptionDecl()));
        } else
          J.attribute("t", "...");
        subs("s", h->getHandlerBlock());
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    } else if (isa<NullStmt>(s)) {
      J.attribute("k", "nop");
    } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
      J.attribute("k", "blk");
      J.attributeBegin("s");
      J.arrayBegin();
      stmt(x->getSubStmt());
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto* x = dyn_cast<LabelStmt>(s)) {
      J.attribute("k", "label");
      subs("s", x->getSubStmt());
    } else {
      J.attribute("k", "other");
      J.attribute("cls", s->getStmtClassName());
    }
    J.objectEnd();
  }
  void kind2(const Stmt* s) {
    J.attribute("l", (int64_t)line(s->getBeginLoc()));
    J.attribute("le", (int64_t)line(s->getEndLoc()));
  }

  void params(const FunctionDecl* f) {
    J.arrayBegin();
    for (auto* p : f->parameters()) {
      J.objectBegin();
      J.attribute("n", p->getNameAsString());
      J.attribute("i", id(p));
      typeAttrs(p->getType());
      QualType t = p->getType();
      const char* m = passMode(t);
      J.attribute("pm", m);
      J.objectEnd();
    }
    J.arrayEnd();
  }

  void function(const FunctionDecl* f) {
    J.objectBegin();
    J.attribute("kind", "func");
    J.attribute("q", qname(f));
    J.attribute("u", usr(f));
    J.attribute("file", file(f->getLocation()));
    J.attribute("line", (int64_t)line(f->getLocation()));
    J.attribute("eline", (int64_t)line(f->getBodyRBrace()));
    if (f->isDependentContext()) J.attribute("dep", true);
    if (auto* a = f->getTemplateSpecializationArgs())
      J.attribute("ta", targs(a->asArray()));
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      const CXXRecordDecl* r = m->getParent();
      J.attribute("cls", qname(r));
      J.attribute("clsu", usr(r));
      if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r))
        J.attribute("cta", targs(s->getTemplateArgs().asArray()));
      if (m->isConst()) J.attribute("const", true);
      if (m->isStatic()) J.attribute("static", true);
      if (m->isVirtual()) J.attribute("virtual", true);
      J.attribute("access", (int64_t)m->getAccess());
      J.attributeBegin("ov");
      J.arrayBegin();
      for (auto* o : m->overridden_methods()) J.value(usr(o));
      J.arrayEnd();
      J.attributeEnd();
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
        J.attribute("ctor", c->isCopyConstructor()  ? "copy"
                            : c->isMoveConstructor() ? "move"
                            : c->isDefaultConstructor() ? "default"
                                                        : "other");
        if (c->isDelegatingConstructor()) J.attribute("deleg", true);
        J.attributeBegin("inits");
        J.arrayBegin();
        for (auto* i : c->inits()) {
          J.objectBegin();
          if (i->isAnyMemberInitializer()) {
            J.attribute("m", i->getAnyMember()->getNameAsString());
          } else if (i->isBaseInitializer()) {
            J.attribute("b", rec(QualType(i->getBaseClass(), 0)));
          } else
            J.attribute("d", true);
          J.attribute("w", i->isWritten());
          J.attribute("l", (int64_t)line(i->getSourceLocation()));
          sub("x", i->getInit());
          J.objectEnd();
        }
        J.arrayEnd();
        J.attributeEnd();
      }
    }
    J.attribute("rt", ty(f->getReturnType()));
    J.attribute("rr", rec(f->getReturnType()));
    J.attributeBegin("ps");
    params(f);
    J.attributeEnd();
    subs("body", f->getBody());
    J.objectEnd();
  }

  void record(const CXXRecordDecl* r) {
    J.objectBegin();
    J.attribute("kind", "rec");
    J.attribute("q", qname(r));
    J.attribute("u", usr(r));
    J.attribute("file", file(r->getLocation()));
    J.attribute("line", (int64_t)line(r->getLocation()));
    if (r->isDependentContext()) J.attribute("dep", true);
    if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r))
      J.attribute("cta", targs(s->getTemplateArgs().asArray()));
    J.attributeBegin("bases");
    J.arrayBegin();
    for (auto& b : r->bases()) {
      std::string n = rec(b.getType());
      if (n.empty()) n = ty(b.getType());
      J.value(n);
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("fields");
    J.arrayBegin();
    for (auto* f : r->fields()) {
      J.objectBegin();
      J.attribute("n", f->getNameAsString());
      J.attribute("l", (int64_t)line(f->getLocation()));
      typeAttrs(f->getType());
      if (f->isMutable()) J.attribute("mut", true);
      if (f->hasInClassInitializer()) J.attribute("init", true);
      J.attribute("access", (int64_t)f->getAccess());
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("methods");
    J.arrayBegin();
    for (auto* d : r->decls()) {
      const CXXMethodDecl* m = dyn_cast<CXXMethodDecl>(d);
      if (!m) {
        if (auto* ft = dyn_cast<FunctionTemplateDecl>(d))
          m = dyn_cast<CXXMethodDecl>(ft->getTemplatedDecl());
      }
      if (!m) continue;
      J.objectBegin();
      J.attribute("q", qname(m));
      J.attribute("u", usr(m));
      if (m->isImplicit()) J.attribute("implicit", true);
      if (m->isDeleted()) J.attribute("deleted", true);
      if (m->isDefaulted()) J.attribute("defaulted", true);
      if (m->isVirtual()) J.attribute("virtual", true);
      if (m->isPureVirtual()) J.attribute("pure", true);
      if (m->isConst()) J.attribute("const", true);
      if (m->isStatic()) J.attribute("static", true);
      if (m->isCopyAssignmentOperator()) J.attribute("copyassign", true);
      if (auto* c = dyn_cast<CXXConstructorDecl>(m))
        J.attribute("ctor", c->isCopyConstructor()  ? "copy"
                            : c->isMoveConstructor() ? "move"
                            : c->isDefaultConstructor() ? "default"
                                                        : "other");
      J.attribute("access", (int64_t)m->getAccess());
      J.attribute("np", (int64_t)m->getNumParams());
      J.attribute("rt", ty(m->getReturnType()));
      J.attributeBegin("pt");
      J.arrayBegin();
      for (auto* p : m->parameters()) J.value(ty(p->getType()));
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("ov");
      J.arrayBegin();
      for (auto* o : m->overridden_methods()) J.value(usr(o));
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }
  void enumeration(const EnumDecl* d) {
    J.objectBegin();
    J.attribute("kind", "enum");
    J.attribute("q", qname(d));
    J.attributeBegin("v");
    J.arrayBegin();
    for (auto* c : d->enumerators()) {
      J.objectBegin();
      J.attribute("n", qname(c));
      J.attribute("v", (int64_t)c->getInitVal().getExtValue());
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Emitter& E;
  std::set<const Decl*> seen;
  Visitor(Emitter& e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  // do not descend into declarations that are outside the repository
  bool TraverseDecl(Decl* d) {
    if (!d) return true;
    if (isa<TranslationUnitDecl>(d) || isa<NamespaceDecl>(d) ||
        isa<LinkageSpecDecl>(d))
      return RecursiveASTVisitor::TraverseDecl(d);
    if (!E.inRepo(d->getLocation())) return true;
    return RecursiveASTVisitor::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition()) return true;
    if (!f->hasBody() && !isa<CXXConstructorDecl>(f)) return true;
    if (f->isImplicit()) return true;
    if (!E.inRepo(f->getLocation())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (f->isDefaulted()) return true;
    if (!seen.insert(f).second) return true;
    E.function(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
    if (!E.inRepo(r->getLocation())) return true;
    if (!seen.insert(r).second) return true;
    E.record(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition()) return true;
    if (!E.inRepo(e->getLocation())) return true;
    if (!seen.insert(e).second) return true;
    E.enumeration(e);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  CompilerInstance& CI;
  Consumer(CompilerInstance& ci) : CI(ci) {}
  std::map<FileID, bool> cache;
  bool shouldSkipFunctionBody(Decl* d) override {
    SourceManager& sm = CI.getSourceManager();
    SourceLocation l = sm.getExpansionLoc(d->getLocation());
    FileID f = sm.getFileID(l);
    auto it = cache.find(f);
    if (it != cache.end()) return it->second;
    auto fe = sm.getFileEntryRefForID(f);
    bool skip = true;
    if (fe) {
      llvm::StringRef n = fe->getFileEntry().tryGetRealPathName();
      if (n.empty()) n = fe->getName();
      skip = !pathInRepo(n);
    }
    cache[f] = skip;
    return skip;
  }
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) {
      Failed = true;
      return;
    }
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    if (ec) {
      Failed = true;
      return;
    }
    llvm::json::OStream J(os, 0);
    Ctx C(ctx);
    Emitter E(C, J);
    J.arrayBegin();
    Visitor V(E);
    V.TraverseDecl(ctx.getTranslationUnitDecl());
    // files of the repository that were read
    J.objectBegin();
    J.attribute("kind", "files");
    J.attributeBegin("v");
    J.arrayBegin();
    SourceManager& sm = ctx.getSourceManager();
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      llvm::StringRef n = it->first.getFileEntry().tryGetRealPathName();
      if (pathInRepo(n)) J.value(n);
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
    J.arrayEnd();
    os << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI,
                                                 llvm::StringRef) override {
    CI.getFrontendOpts().SkipFunctionBodies = true;
    return std::make_unique<Consumer>(CI);
  }
};
}  // namespace

// extract ROOT EXCLUDE OUT FILE -- flags...
int main(int argc, char** argv) {
  std::vector<std::string> args;
  std::string fileName;
  int i = 1;
  if (argc < 6) {
    llvm::errs() << "usage: extract ROOT EXCLUDE EXTRA|- OUT FILE -- flags\n";
    return 2;
  }
  Root = argv[i++];
  Exclude = argv[i++];
  std::string ex = argv[i++];
  if (ex != "-") Extra.push_back(ex);
  OutFile = argv[i++];
  fileName = argv[i++];
  if (i < argc && std::string(argv[i]) == "--") ++i;
  for (; i < argc; ++i) args.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".", args);
  clang::tooling::ClangTool tool(db, {fileName});
  // SkipFunctionBodies must be set before Sema is created.
  int rc = tool.run(
      clang::tooling::newFrontendActionFactory<Action>().get());
  if (rc || Failed) return 1;
  return 0;
}
