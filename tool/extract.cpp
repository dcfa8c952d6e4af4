// Extractor: parses one translation unit of /repo with clang and dumps the resolved program
// (function bodies, records, declarations, globals) of every file under the given root as JSON.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot = "/repo";
static std::string gOut;

struct Dumper
{
  ASTContext & C;
  SourceManager & SM;
  json::Object funcs, records, types;
  json::Array globals, freeDecls, asserts;
  std::map<const Decl *, int> ids;
  std::map<std::string, int> typeIds;
  json::Array typeTab;
  std::set<const CXXRecordDecl *> seenRec;
  std::string curFile;

  Dumper(ASTContext & c) : C(c), SM(c.getSourceManager()) {}

  std::string fileOf(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    if(L.isInvalid()) return "";
    StringRef f = SM.getFilename(L);
    llvm::SmallString<256> p(f);
    if(auto fe = SM.getFileEntryRefForID(SM.getFileID(L)))
    {
      StringRef rp = fe->getFileEntry().tryGetRealPathName();
      if(!rp.empty()) return rp.str();
    }
    return p.str().str();
  }
  bool inRoot(SourceLocation L)
  {
    std::string f = fileOf(L);
    return f.compare(0, gRoot.size() + 1, gRoot + "/") == 0;
  }
  std::string rel(const std::string & f)
  {
    if(f.compare(0, gRoot.size() + 1, gRoot + "/") == 0) return f.substr(gRoot.size() + 1);
    return f;
  }
  int line(SourceLocation L)
  {
    return (int)SM.getExpansionLineNumber(L);
  }
  int declId(const Decl * d)
  {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if(it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[d] = n;
    return n;
  }
  std::string usr(const Decl * d)
  {
    llvm::SmallString<256> b;
    if(index::generateUSRForDecl(d, b)) return "";
    return b.str().str();
  }
  std::string qname(const NamedDecl * d)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os);
    return os.str();
  }
  bool eigDims(const CXXRecordDecl * rd, long & r, long & c, int depth = 0)
  {
    if(!rd || depth > 12) return false;
    rd = rd->getDefinition();
    if(!rd) return false;
    bool gr = false, gc = false;
    for(auto * d : rd->decls())
      if(auto * e = dyn_cast<EnumDecl>(d))
        for(auto * ec : e->enumerators())
        {
          if(ec->getName() == "RowsAtCompileTime")
          {
            r = ec->getInitVal().getExtValue();
            gr = true;
          }
          if(ec->getName() == "ColsAtCompileTime")
          {
            c = ec->getInitVal().getExtValue();
            gc = true;
          }
        }
    if(gr && gc) return true;
    for(auto & b : rd->bases())
      if(auto * br = b.getType()->getAsCXXRecordDecl())
        if(eigDims(br, r, c, depth + 1)) return true;
    return false;
  }
  std::map<std::string, std::pair<long, long>> eigCache;
  std::map<const void *, int> typePtrCache;
  std::string shortType(QualType q)
  {
    std::string s = q.getAsString(C.getPrintingPolicy());
    if(s.size() > 160) s = s.substr(0, 160);
    return s;
  }
  int typeOf(QualType q)
  {
    if(q.isNull()) return -1;
    auto itc = typePtrCache.find(q.getAsOpaquePtr());
    if(itc != typePtrCache.end()) return itc->second;
    QualType orig = q;
    json::Object o;
    std::string key;
    std::string ref;
    if(q->isLValueReferenceType()) ref = "l";
    if(q->isRValueReferenceType()) ref = "r";
    q = q.getNonReferenceType();
    bool ptr = false;
    if(q->isPointerType())
    {
      ptr = true;
      bool cp = q->getPointeeType().isConstQualified();
      if(cp) o["pc"] = true;
      o["pcls"] = "";
      if(auto * rd = q->getPointeeType()->getAsCXXRecordDecl()) o["pcls"] = qname(rd);
    }
    bool cst = q.isConstQualified();
    QualType cq = q.getCanonicalType().getUnqualifiedType();
    std::string kind = "other";
    if(cq->isBooleanType())
      kind = "bool";
    else if(cq->isEnumeralType())
      kind = "enum";
    else if(cq->isIntegerType())
      kind = "int";
    else if(cq->isFloatingType())
      kind = "float";
    else if(cq->isVoidType())
      kind = "void";
    else if(ptr)
      kind = "ptr";
    else if(cq->isArrayType())
      kind = "array";
    else if(cq->isRecordType())
      kind = "record";
    else if(cq->isFunctionType())
      kind = "func";
    o["k"] = kind;
    std::string s = shortType(orig);
    o["s"] = s;
    std::string cs = cq.getAsString(C.getPrintingPolicy());
    if(cs.size() > 400) cs = cs.substr(0, 400);
    o["c"] = cs;
    if(cst) o["const"] = true;
    if(!ref.empty()) o["ref"] = ref;
    if(auto * rd = cq->getAsCXXRecordDecl())
    {
      std::string qn = qname(rd);
      o["cls"] = qn;
      if(auto * sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
      {
        bool eig = qn.compare(0, 7, "Eigen::") == 0;
        if(!eig)
        {
          json::Array ta;
          for(auto & a : sp->getTemplateArgs().asArray())
          {
            if(a.getKind() == TemplateArgument::Type)
              ta.push_back((int64_t)typeOf(a.getAsType()));
            else if(a.getKind() == TemplateArgument::Integral)
              ta.push_back("" + std::to_string(a.getAsIntegral().getExtValue()));
          }
          o["ta"] = std::move(ta);
          if(inRoot(rd->getLocation())) o["rid"] = recName(rd);
        }
      }
      else if(inRoot(rd->getLocation()))
        o["rid"] = recName(rd);
      long r, c;
      if(qn.compare(0, 7, "Eigen::") == 0 && eigDims(rd, r, c))
      {
        o["rows"] = (int64_t)r;
        o["cols"] = (int64_t)c;
      }
    }
    int id = (int)typeTab.size();
    typeTab.push_back(std::move(o));
    typePtrCache[orig.getAsOpaquePtr()] = id;
    return id;
  }
  std::string recName(const CXXRecordDecl * rd)
  {
    if(auto * sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      sp->getNameForDiagnostic(os, C.getPrintingPolicy(), true);
      return os.str();
    }
    // nested in a specialization?
    if(auto * parent = dyn_cast<CXXRecordDecl>(rd->getDeclContext()))
      if(isa<ClassTemplateSpecializationDecl>(parent)) return recName(parent) + "::" + rd->getNameAsString();
    return qname(rd);
  }

  const Expr * strip(const Expr * e)
  {
    for(;;)
    {
      if(auto * x = dyn_cast<ParenExpr>(e))
        e = x->getSubExpr();
      else if(auto * x = dyn_cast<ExprWithCleanups>(e))
        e = x->getSubExpr();
      else if(auto * x = dyn_cast<MaterializeTemporaryExpr>(e))
        e = x->getSubExpr();
      else if(auto * x = dyn_cast<CXXBindTemporaryExpr>(e))
        e = x->getSubExpr();
      else if(auto * x = dyn_cast<ConstantExpr>(e))
        e = x->getSubExpr();
      else if(auto * x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
        e = x->getReplacement();
      else if(auto * x = dyn_cast<FullExpr>(e))
        e = x->getSubExpr();
      else if(auto * x = dyn_cast<ImplicitCastExpr>(e))
        e = x->getSubExpr();
      else if(auto * x = dyn_cast<CXXDefaultArgExpr>(e))
        e = x->getExpr();
      else if(auto * x = dyn_cast<CXXDefaultInitExpr>(e))
        e = x->getExpr();
      else if(auto * x = dyn_cast<CXXFunctionalCastExpr>(e))
      {
        if(x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_NoOp) e = x->getSubExpr();
        else return e;
      }
      else
        return e;
    }
  }

  void fnRef(json::Object & o, const FunctionDecl * fd)
  {
    o["f"] = qname(fd);
    const FunctionDecl * d = fd;
    if(inRoot(fd->getLocation())) o["id"] = usr(d);
    if(auto * m = dyn_cast<CXXMethodDecl>(fd))
    {
      if(m->isStatic()) o["st"] = true;
      if(m->isConst()) o["cm"] = true;
      if(inRoot(fd->getLocation())) o["oc"] = recName(m->getParent());
    }
    // template args (ints) for block<3,3> etc
    if(auto * ta = fd->getTemplateSpecializationArgs())
    {
      json::Array a;
      for(auto & x : ta->asArray())
      {
        if(x.getKind() == TemplateArgument::Integral) a.push_back((int64_t)x.getAsIntegral().getExtValue());
        else if(x.getKind() == TemplateArgument::Type) a.push_back("T");
      }
      if(!a.empty()) o["ta"] = std::move(a);
    }
    // const/non const ref parameters
    json::Array pr;
    for(auto * p : fd->parameters())
    {
      QualType t = p->getType();
      std::string c = "v";
      if(t->isReferenceType())
        c = t.getNonReferenceType().isConstQualified() ? "cr" : "r";
      else if(t->isPointerType())
        c = t->getPointeeType().isConstQualified() ? "cp" : "p";
      pr.push_back(c);
    }
    o["pm"] = std::move(pr);
  }

  json::Value X(const Expr * e0)
  {
    if(!e0) return nullptr;
    const Expr * e = strip(e0);
    json::Object o;
    o["l"] = line(e->getExprLoc());
    {
      SourceLocation sl = SM.getExpansionLoc(e->getExprLoc());
      o["co"] = (int)SM.getExpansionColumnNumber(sl);
    }
    o["t"] = typeOf(e->getType());
    // constant value
    if(!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e)
       && !isa<CXXBoolLiteralExpr>(e) && e->isPRValue())
    {
      Expr::EvalResult r;
      if(e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) o["cv"] = (int64_t)r.Val.getInt().getExtValue();
    }
    else if(!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e)
            && !isa<CXXBoolLiteralExpr>(e) && isa<DeclRefExpr>(e))
    {
      Expr::EvalResult r;
      if(e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) o["cv"] = (int64_t)r.Val.getInt().getExtValue();
    }
    else if(!e->isValueDependent() && e->getType()->isRealFloatingType() && !isa<FloatingLiteral>(e))
    {
      llvm::APFloat f(0.0);
      if(e->EvaluateAsFloat(f, C, Expr::SE_NoSideEffects) && f.isFinite()) o["cvf"] = f.convertToDouble();
    }
    if(auto * x = dyn_cast<IntegerLiteral>(e))
    {
      o["k"] = "int";
      o["v"] = (int64_t)x->getValue().getLimitedValue();
    }
    else if(auto * x = dyn_cast<FloatingLiteral>(e))
    {
      o["k"] = "flt";
      double d = x->getValueAsApproximateDouble();
      if(d != d || d - d != 0) o["v"] = "inf"; else o["v"] = d;
    }
    else if(auto * x = dyn_cast<CXXBoolLiteralExpr>(e))
    {
      o["k"] = "bool";
      o["v"] = x->getValue();
    }
    else if(isa<clang::StringLiteral>(e))
    {
      o["k"] = "str";
    }
    else if(auto * x = dyn_cast<CharacterLiteral>(e))
    {
      o["k"] = "int";
      o["v"] = (int64_t)x->getValue();
    }
    else if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
      o["k"] = "null";
    else if(isa<CXXThisExpr>(e))
      o["k"] = "this";
    else if(auto * x = dyn_cast<DeclRefExpr>(e))
    {
      const ValueDecl * d = x->getDecl();
      if(auto * ec = dyn_cast<EnumConstantDecl>(d))
      {
        o["k"] = "enum";
        o["n"] = qname(ec);
        o["cv"] = (int64_t)ec->getInitVal().getExtValue();
      }
      else if(auto * fd = dyn_cast<FunctionDecl>(d))
      {
        o["k"] = "fn";
        fnRef(o, fd);
      }
      else
      {
        o["k"] = "var";
        o["d"] = declId(d);
        auto * vd = dyn_cast<VarDecl>(d);
        std::string s = "local";
        if(isa<ParmVarDecl>(d))
          s = "param";
        else if(vd && vd->isStaticLocal())
          s = "static_local";
        else if(vd && vd->hasGlobalStorage())
          s = "global";
        o["s"] = s;
        o["n"] = (s == "global") ? qname(d) : d->getNameAsString();
      }
    }
    else if(auto * x = dyn_cast<MemberExpr>(e))
    {
      const ValueDecl * d = x->getMemberDecl();
      if(auto * vd = dyn_cast<VarDecl>(d))
      {
        o["k"] = "var";
        o["s"] = "global";
        o["d"] = declId(vd);
        o["n"] = qname(vd);
      }
      else if(auto * ec = dyn_cast<EnumConstantDecl>(d))
      {
        o["k"] = "enum";
        o["n"] = qname(ec);
        o["cv"] = (int64_t)ec->getInitVal().getExtValue();
      }
      else if(auto * fd = dyn_cast<FunctionDecl>(d))
      {
        o["k"] = "fn";
        fnRef(o, fd);
        o["o"] = X(x->getBase());
      }
      else
      {
        o["k"] = "mem";
        o["n"] = d->getNameAsString();
        if(auto * fdl = dyn_cast<FieldDecl>(d))
          if(auto * rd = dyn_cast<CXXRecordDecl>(fdl->getParent())) o["own"] = recName(rd);
        o["b"] = X(x->getBase());
        if(x->isArrow()) o["arrow"] = true;
      }
    }
    else if(auto * x = dyn_cast<CXXOperatorCallExpr>(e))
    {
      o["k"] = "call";
      const FunctionDecl * fd = x->getDirectCallee();
      if(fd)
      {
        fnRef(o, fd);
        o["op"] = getOperatorSpelling(x->getOperator());
        json::Array a;
        unsigned i = 0;
        if(isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic())
        {
          o["o"] = X(x->getArg(0));
          i = 1;
        }
        for(; i < x->getNumArgs(); ++i) a.push_back(X(x->getArg(i)));
        o["a"] = std::move(a);
      }
      else
      {
        json::Array a;
        for(unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(X(x->getArg(i)));
        o["a"] = std::move(a);
      }
    }
    else if(auto * x = dyn_cast<CXXMemberCallExpr>(e))
    {
      o["k"] = "call";
      if(auto * md = x->getMethodDecl())
      {
        fnRef(o, md);
        if(auto * me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
          if(md->isVirtual() && !me->hasQualifier()) o["virt"] = true;
        o["o"] = X(x->getImplicitObjectArgument());
        if(auto * me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
          if(me->isArrow()) o["arrow"] = true;
        if(isa<CXXConversionDecl>(md)) o["conv"] = true;
      }
      else
        o["fe"] = X(x->getCallee());
      json::Array a;
      for(auto * s : x->arguments()) a.push_back(X(s));
      o["a"] = std::move(a);
    }
    else if(auto * x = dyn_cast<CallExpr>(e))
    {
      o["k"] = "call";
      if(auto * fd = x->getDirectCallee())
        fnRef(o, fd);
      else
        o["fe"] = X(x->getCallee());
      json::Array a;
      for(auto * s : x->arguments()) a.push_back(X(s));
      o["a"] = std::move(a);
    }
    else if(auto * x = dyn_cast<CXXConstructExpr>(e))
    {
      auto * cd = x->getConstructor();
      o["k"] = "ctor";
      fnRef(o, cd);
      o["cls"] = recName(cd->getParent());
      if(cd->isCopyConstructor()) o["copy"] = true;
      if(cd->isMoveConstructor()) o["move"] = true;
      if(cd->isImplicit() || cd->isDefaulted()) o["impl"] = true;
      if(cd->isDefaultConstructor()) o["dflt"] = true;
      if(x->requiresZeroInitialization()) o["zero"] = true;
      json::Array a;
      for(auto * s : x->arguments()) a.push_back(X(s));
      o["a"] = std::move(a);
    }
    else if(auto * x = dyn_cast<BinaryOperator>(e))
    {
      o["k"] = x->isAssignmentOp() ? "asg" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = X(x->getLHS());
      o["b"] = X(x->getRHS());
    }
    else if(auto * x = dyn_cast<UnaryOperator>(e))
    {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if(x->isPostfix()) o["post"] = true;
      o["e"] = X(x->getSubExpr());
    }
    else if(auto * x = dyn_cast<ConditionalOperator>(e))
    {
      // assert?
      const Expr * f = strip(x->getFalseExpr());
      bool isA = false;
      if(auto * ce = dyn_cast<CallExpr>(f))
        if(auto * fd = ce->getDirectCallee())
        {
          std::string n = fd->getNameAsString();
          if(n == "__assert_fail" || n == "assertion_failed" || n == "assertion_failed_msg" || n == "__assert") isA = true;
        }
      if(isA)
      {
        o["k"] = "assert";
        o["c"] = X(x->getCond());
      }
      else
      {
        o["k"] = "cond";
        o["c"] = X(x->getCond());
        o["a"] = X(x->getTrueExpr());
        o["b"] = X(x->getFalseExpr());
      }
    }
    else if(auto * x = dyn_cast<ArraySubscriptExpr>(e))
    {
      o["k"] = "idx";
      o["b"] = X(x->getBase());
      o["i"] = X(x->getIdx());
    }
    else if(auto * x = dyn_cast<ExplicitCastExpr>(e))
    {
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      o["style"] = isa<CStyleCastExpr>(e)           ? "c"
                   : isa<CXXStaticCastExpr>(e)      ? "static"
                   : isa<CXXReinterpretCastExpr>(e) ? "reinterpret"
                   : isa<CXXConstCastExpr>(e)       ? "const"
                   : isa<CXXDynamicCastExpr>(e)     ? "dynamic"
                                                    : "func";
      o["to"] = typeOf(x->getTypeAsWritten());
      o["e"] = X(x->getSubExpr());
    }
    else if(auto * x = dyn_cast<InitListExpr>(e))
    {
      o["k"] = "init";
      json::Array a;
      for(auto * s : x->inits()) a.push_back(X(s));
      o["a"] = std::move(a);
    }
    else if(isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
    {
      o["k"] = "zero";
    }
    else if(auto * x = dyn_cast<LambdaExpr>(e))
    {
      o["k"] = "lambda";
      json::Array ps;
      for(auto * p : x->getCallOperator()->parameters()) ps.push_back(declOf(p));
      o["p"] = std::move(ps);
      o["body"] = S(x->getBody());
    }
    else if(auto * x = dyn_cast<CXXNewExpr>(e))
    {
      o["k"] = "new";
      if(x->getInitializer()) o["e"] = X(x->getInitializer());
    }
    else if(auto * x = dyn_cast<CXXDeleteExpr>(e))
    {
      o["k"] = "del";
      o["e"] = X(x->getArgument());
    }
    else if(auto * x = dyn_cast<CXXThrowExpr>(e))
    {
      o["k"] = "throw";
      if(x->getSubExpr()) o["e"] = X(x->getSubExpr());
    }
    else if(auto * x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
    {
      o["k"] = "sizeof";
      (void)x;
    }
    else if(isa<CXXTypeidExpr>(e))
    {
      auto * x = cast<CXXTypeidExpr>(e);
      o["k"] = "typeid";
      if(x->isTypeOperand())
        o["ty"] = typeOf(x->getTypeOperandSourceInfo()->getType());
    }
    else if(auto * x = dyn_cast<CXXStdInitializerListExpr>(e))
    {
      return X(x->getSubExpr());
    }
    else if(auto * x = dyn_cast<CXXInheritedCtorInitExpr>(e))
    {
      o["k"] = "ctor";
      fnRef(o, x->getConstructor());
      o["a"] = json::Array();
    }
    else
    {
      o["k"] = "x_";
      o["cls"] = e->getStmtClassName();
      json::Array a;
      for(auto * s : e->children())
        if(auto * ex = dyn_cast_or_null<Expr>(s)) a.push_back(X(ex));
      o["a"] = std::move(a);
    }
    return json::Value(std::move(o));
  }

  json::Value declOf(const VarDecl * v)
  {
    json::Object o;
    o["k"] = "decl";
    o["l"] = line(v->getLocation());
    o["d"] = declId(v);
    o["n"] = v->getNameAsString();
    o["t"] = typeOf(v->getType());
    if(v->isStaticLocal()) o["static"] = true;
    if(v->hasInit() && !isa<ParmVarDecl>(v)) o["init"] = X(v->getInit());
    return json::Value(std::move(o));
  }

  json::Value S(const Stmt * s)
  {
    if(!s) return nullptr;
    if(auto * e = dyn_cast<Expr>(s)) return X(e);
    json::Object o;
    o["l"] = line(s->getBeginLoc());
    if(auto * x = dyn_cast<CompoundStmt>(s))
    {
      o["k"] = "blk";
      json::Array a;
      for(auto * c : x->body()) a.push_back(S(c));
      o["s"] = std::move(a);
      o["le"] = line(x->getRBracLoc());
    }
    else if(auto * x = dyn_cast<DeclStmt>(s))
    {
      o["k"] = "blkd";
      json::Array a;
      for(auto * d : x->decls())
        if(auto * v = dyn_cast<VarDecl>(d)) a.push_back(declOf(v));
      o["s"] = std::move(a);
    }
    else if(auto * x = dyn_cast<IfStmt>(s))
    {
      o["k"] = "if";
      if(x->getConditionVariable()) o["cvar"] = declOf(x->getConditionVariable());
      o["c"] = X(x->getCond());
      o["a"] = S(x->getThen());
      if(x->getElse()) o["b"] = S(x->getElse());
    }
    else if(auto * x = dyn_cast<ForStmt>(s))
    {
      o["k"] = "for";
      if(x->getInit()) o["i"] = S(x->getInit());
      if(x->getCond()) o["c"] = X(x->getCond());
      if(x->getInc()) o["inc"] = X(x->getInc());
      o["b"] = S(x->getBody());
    }
    else if(auto * x = dyn_cast<CXXForRangeStmt>(s))
    {
      o["k"] = "rfor";
      o["v"] = declOf(x->getLoopVariable());
      o["r"] = X(x->getRangeInit());
      o["b"] = S(x->getBody());
    }
    else if(auto * x = dyn_cast<WhileStmt>(s))
    {
      o["k"] = "while";
      o["c"] = X(x->getCond());
      o["b"] = S(x->getBody());
    }
    else if(auto * x = dyn_cast<DoStmt>(s))
    {
      o["k"] = "do";
      o["c"] = X(x->getCond());
      o["b"] = S(x->getBody());
    }
    else if(auto * x = dyn_cast<ReturnStmt>(s))
    {
      o["k"] = "ret";
      if(x->getRetValue()) o["e"] = X(x->getRetValue());
    }
    else if(isa<BreakStmt>(s))
      o["k"] = "brk";
    else if(isa<ContinueStmt>(s))
      o["k"] = "cnt";
    else if(auto * x = dyn_cast<SwitchStmt>(s))
    {
      o["k"] = "sw";
      o["c"] = X(x->getCond());
      o["b"] = S(x->getBody());
    }
    else if(auto * x = dyn_cast<CaseStmt>(s))
    {
      o["k"] = "case";
      o["v"] = X(x->getLHS());
      o["s"] = S(x->getSubStmt());
    }
    else if(auto * x = dyn_cast<DefaultStmt>(s))
    {
      o["k"] = "default";
      o["s"] = S(x->getSubStmt());
    }
    else if(isa<NullStmt>(s))
      o["k"] = "nop";
    else if(auto * x = dyn_cast<CXXTryStmt>(s))
    {
      o["k"] = "try";
      o["b"] = S(x->getTryBlock());
      json::Array a;
      for(unsigned i = 0; i < x->getNumHandlers(); ++i) a.push_back(S(x->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(a);
    }
    else
    {
      o["k"] = "s_";
      o["cls"] = s->getStmtClassName();
    }
    return json::Value(std::move(o));
  }

  void function(const FunctionDecl * fd)
  {
    if(fd->isDependentContext()) return;
    if(!fd->doesThisDeclarationHaveABody() && !fd->isDefaulted()) return;
    if(!inRoot(fd->getLocation())) return;
    std::string u = usr(fd);
    if(u.empty() || funcs.find(u) != funcs.end()) return;
    json::Object o;
    o["f"] = qname(fd);
    o["file"] = rel(fileOf(fd->getLocation()));
    o["l"] = line(fd->getLocation());
    o["le"] = line(fd->getEndLoc());
    o["ret"] = typeOf(fd->getReturnType());
    json::Array ps;
    for(auto * p : fd->parameters()) ps.push_back(declOf(p));
    o["p"] = std::move(ps);
    if(fd->isTemplateInstantiation()) o["inst"] = true;
    if(fd->isImplicit()) o["implicit"] = true;
    if(fd->isDefaulted()) o["defaulted"] = true;
    if(!fd->isInlined() && fd->isExternallyVisible() && !fd->isTemplateInstantiation()) o["noinline"] = true;
    if(auto * m = dyn_cast<CXXMethodDecl>(fd))
    {
      o["cls"] = recName(m->getParent());
      if(m->isStatic()) o["static"] = true;
      if(m->isConst()) o["const"] = true;
      if(m->isVirtual()) o["virt"] = true;
      o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      json::Array ov;
      for(auto * b : m->overridden_methods()) ov.push_back(usr(b));
      if(!ov.empty()) o["ov"] = std::move(ov);
    }
    if(auto * c = dyn_cast<CXXConstructorDecl>(fd))
    {
      o["kind"] = "ctor";
      if(c->isCopyConstructor()) o["copyctor"] = true;
      if(c->isMoveConstructor()) o["movector"] = true;
      json::Array in;
      for(auto * i : c->inits())
      {
        json::Object io;
        if(i->isMemberInitializer())
        {
          io["mem"] = i->getMember()->getNameAsString();
        }
        else if(i->isBaseInitializer())
        {
          if(auto * rd = i->getBaseClass()->getAsCXXRecordDecl()) io["base"] = recName(rd);
        }
        else if(i->isDelegatingInitializer())
          io["deleg"] = true;
        if(i->isWritten()) io["written"] = true;
        io["l"] = line(i->getSourceLocation());
        io["e"] = X(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    else if(isa<CXXDestructorDecl>(fd))
      o["kind"] = "dtor";
    else if(isa<CXXConversionDecl>(fd))
      o["kind"] = "conv";
    if(fd->getBody()) o["body"] = S(fd->getBody());
    funcs[u] = std::move(o);
  }

  void record(const CXXRecordDecl * rd)
  {
    if(!rd->isThisDeclarationADefinition()) return;
    if(!inRoot(rd->getLocation())) return;
    if(rd->isLambda()) return;
    bool dep = rd->isDependentContext();
    if(!seenRec.insert(rd).second) return;
    json::Object o;
    std::string nm = dep ? qname(rd) + "<dep>" : recName(rd);
    o["n"] = nm;
    o["q"] = qname(rd);
    o["dep"] = dep;
    o["file"] = rel(fileOf(rd->getLocation()));
    o["l"] = line(rd->getLocation());
    if(!dep && rd->isPolymorphic()) o["poly"] = true;
    if(!dep && rd->isAbstract()) o["abs"] = true;
    o["acc"] = rd->getAccess() == AS_protected ? "protected" : rd->getAccess() == AS_private ? "private" : "public";
    json::Array fs;
    for(auto * f : rd->fields())
    {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["l"] = line(f->getLocation());
      if(!dep) fo["t"] = typeOf(f->getType());
      fo["ts"] = shortType(f->getType());
      if(f->isMutable()) fo["mut"] = true;
      fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
      if(f->hasInClassInitializer())
      {
        fo["hasinit"] = true;
        if(!dep && f->getInClassInitializer()) fo["init"] = X(f->getInClassInitializer());
      }
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    if(rd->hasDefinition())
      for(auto & b : rd->bases())
        if(auto * br = b.getType()->getAsCXXRecordDecl()) bs.push_back(recName(br));
    o["bases"] = std::move(bs);
    json::Array ms;
    for(auto * d : rd->decls())
    {
      const FunctionDecl * fd = dyn_cast<FunctionDecl>(d);
      bool tmpl = false;
      if(auto * ft = dyn_cast<FunctionTemplateDecl>(d))
      {
        fd = ft->getTemplatedDecl();
        tmpl = true;
      }
      if(!fd) continue;
      auto * m = dyn_cast<CXXMethodDecl>(fd);
      if(!m) continue;
      if(m->isImplicit()) continue;
      json::Object mo;
      mo["n"] = m->getNameAsString();
      mo["usr"] = usr(d);
      mo["l"] = line(m->getLocation());
      mo["file"] = rel(fileOf(m->getLocation()));
      mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      mo["sig"] = m->getType().getAsString();
      if(tmpl) mo["tmpl"] = true;
      if(m->isPureVirtual()) mo["pure"] = true;
      if(m->isVirtual()) mo["virt"] = true;
      if(m->isDeleted()) mo["del"] = true;
      if(m->isDefaulted()) mo["dflt"] = true;
      if(m->isStatic()) mo["static"] = true;
      if(m->isConst()) mo["const"] = true;
      if(isa<CXXConstructorDecl>(m))
      {
        mo["kind"] = "ctor";
        if(cast<CXXConstructorDecl>(m)->isCopyConstructor()) mo["copyctor"] = true;
        if(cast<CXXConstructorDecl>(m)->isMoveConstructor()) mo["movector"] = true;
        if(cast<CXXConstructorDecl>(m)->isDefaultConstructor()) mo["dfltctor"] = true;
      }
      if(isa<CXXDestructorDecl>(m)) mo["kind"] = "dtor";
      if(m->isCopyAssignmentOperator()) mo["copyasg"] = true;
      if(m->isMoveAssignmentOperator()) mo["moveasg"] = true;
      const FunctionDecl * def = nullptr;
      mo["def"] = fd->isDefined(def) || m->isDefaulted() || m->isDeleted();
      if(auto * pat = fd->getTemplateInstantiationPattern())
      {
        const FunctionDecl * d2 = nullptr;
        if(pat->isDefined(d2)) mo["def"] = true;
      }
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    if(!dep)
    {
      o["cc_user"] = rd->hasUserDeclaredCopyConstructor();
      o["ca_user"] = rd->hasUserDeclaredCopyAssignment();
      bool ccDel = rd->defaultedCopyConstructorIsDeleted();
      for(auto * c : rd->ctors())
        if(c->isCopyConstructor() && c->isDeleted()) ccDel = true;
      bool hasAsgDel = false;
      for(auto * m : rd->methods())
        if(m->isCopyAssignmentOperator() && m->isDeleted()) hasAsgDel = true;
      o["cc_del"] = ccDel;
      o["ca_del"] = hasAsgDel;
    }
    records[nm] = std::move(o);
  }

  void global(const VarDecl * v)
  {
    if(!v->hasGlobalStorage()) return;
    if(!inRoot(v->getLocation())) return;
    if(v->getDeclContext()->isDependentContext()) return;
    json::Object o;
    o["n"] = v->isStaticLocal() ? v->getNameAsString() : qname(v);
    o["l"] = line(v->getLocation());
    o["file"] = rel(fileOf(v->getLocation()));
    o["t"] = typeOf(v->getType());
    o["local"] = v->isStaticLocal();
    o["member"] = v->isStaticDataMember();
    o["const"] = v->getType().isConstQualified() || v->isConstexpr();
    o["def"] = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if(v->isStaticLocal())
      if(auto * fd = dyn_cast<FunctionDecl>(v->getDeclContext())) o["fn"] = qname(fd);
    if(v->hasInit() && !v->getInit()->isValueDependent()) o["init"] = X(v->getInit());
    if(v->hasInit() && v->getType()->isIntegralOrEnumerationType() && v->getType().isConstQualified() && !v->getInit()->isValueDependent())
    {
      Expr::EvalResult r;
      if(v->getInit()->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) o["cv"] = (int64_t)r.Val.getInt().getExtValue();
    }
    globals.push_back(std::move(o));
  }

  void freeDecl(const FunctionDecl * fd, bool tmpl)
  {
    if(isa<CXXMethodDecl>(fd)) return;
    if(!inRoot(fd->getLocation())) return;
    if(fd->isImplicit()) return;
    if(fd->getTemplateInstantiationPattern()) return;
    json::Object o;
    o["n"] = qname(fd);
    o["usr"] = usr(fd);
    o["sig"] = fd->getType().getAsString();
    o["file"] = rel(fileOf(fd->getLocation()));
    o["l"] = line(fd->getLocation());
    o["def"] = fd->isDefined();
    o["thisdef"] = fd->isThisDeclarationADefinition();
    o["tmpl"] = tmpl;
    freeDecls.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V>
{
public:
  Dumper & D;
  V(Dumper & d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return false; }
  bool TraverseDecl(Decl * d)
  {
    if(!d) return true;
    // prune system namespaces quickly
    if(auto * ns = dyn_cast<NamespaceDecl>(d))
    {
      if(ns->getName() == "Eigen" || ns->getName() == "std" || ns->getName() == "boost" || ns->getName() == "__gnu_cxx")
        return true;
    }
    return RecursiveASTVisitor<V>::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl * fd)
  {
    D.function(fd);
    if(!fd->isDependentContext()) D.freeDecl(fd, false);
    return true;
  }
  bool VisitFunctionTemplateDecl(FunctionTemplateDecl * ft)
  {
    D.freeDecl(ft->getTemplatedDecl(), true);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl * rd)
  {
    D.record(rd);
    return true;
  }
  bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl * sp)
  {
    if(sp->isExplicitInstantiationOrSpecialization())
    {
      D.record(sp);
      for(auto * d : sp->decls())
        if(auto * fd = dyn_cast<FunctionDecl>(d)) D.function(fd);
    }
    return true;
  }
  bool VisitVarDecl(VarDecl * v)
  {
    D.global(v);
    return true;
  }
};

class Cons : public ASTConsumer
{
public:
  void HandleTranslationUnit(ASTContext & C) override
  {
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["functions"] = std::move(D.funcs);
    o["records"] = std::move(D.records);
    o["types"] = std::move(D.typeTab);
    o["globals"] = std::move(D.globals);
    o["freedecls"] = std::move(D.freeDecls);
    o["errors"] = (int64_t)C.getDiagnostics().getNumErrors();
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(o));
  }
};
class Act : public ASTFrontendAction
{
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
  {
    return std::make_unique<Cons>();
  }
};

int main(int argc, const char ** argv)
{
  // extract ROOT OUT SRC -- flags
  if(argc < 5) return 2;
  gRoot = argv[1];
  gOut = argv[2];
  std::string src = argv[3];
  std::vector<std::string> flags;
  for(int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
