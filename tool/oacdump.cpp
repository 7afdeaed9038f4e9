// oacdump: parses C++ translation units with clang and writes, for every function, record and
// global whose definition lies under one of the given roots, its type-resolved syntax tree as one
// JSON document per unit. No code is executed; all deciding analyses read this dump.
//
// usage: oacdump OUT.json ROOT[,ROOT...] SOURCE -- clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <set>
#include <sstream>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

namespace
{
std::vector<std::string> g_roots;
std::string g_out;

struct Dumper : RecursiveASTVisitor<Dumper>
{
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  Array funcs, records, globals, enums;
  std::set<std::string> seen;
  std::string mainfile;

  explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
  {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = false;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    if (auto f = SM.getFileEntryRefForID(SM.getMainFileID())) mainfile = f->getName().str();
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string File(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  unsigned Line(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    return P.isInvalid() ? 0 : P.getLine();
  }
  bool InRoots(SourceLocation L)
  {
    auto f = File(L);
    for (auto& r : g_roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string Type(QualType T)
  {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string QName(const NamedDecl* D)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P(PP);
    D->printQualifiedName(os, P);
    os.flush();
    // strip template arguments of enclosing class specialisations are not printed by
    // printQualifiedName with args unless specialised; normalise by removing <...>
    std::string r;
    int depth = 0;
    if (D->getDeclName().getNameKind() == DeclarationName::CXXOperatorName
        || D->getDeclName().getNameKind() == DeclarationName::CXXConversionFunctionName)
    {
      auto pos = s.rfind("operator");
      for (size_t i = 0; i < pos; ++i)
      {
        if (s[i] == '<') ++depth;
        if (!depth) r += s[i];
        if (s[i] == '>') --depth;
      }
      return r + s.substr(pos);
    }
    for (size_t i = 0; i < s.size(); ++i)
    {
      if (s[i] == '<') ++depth;
      if (!depth) r += s[i];
      if (s[i] == '>' && depth) --depth;
    }
    return r;
  }
  std::string Key(const Decl* D)
  {
    D = D->getCanonicalDecl();
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(D, buf))
    {
      std::ostringstream o;
      o << "nousr:" << (const void*)D;
      return o.str();
    }
    std::string k = buf.str().str();
    if (auto nd = dyn_cast<NamedDecl>(D))
      if (!nd->isExternallyVisible()) k = mainfile + "|" + k;
    return k;
  }
  std::map<const ValueDecl*, int> vids;
  int VarId(const ValueDecl* V)
  {
    auto it = vids.find(V);
    if (it != vids.end()) return it->second;
    int n = vids.size() + 1;
    vids[V] = n;
    return n;
  }
  std::string RecName(const CXXRecordDecl* R)
  {
    if (!R) return "";
    if (R->isLambda()) return "lambda@" + File(R->getBeginLoc()) + ":" + std::to_string(Line(R->getBeginLoc()));
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }
  const CXXRecordDecl* RecOf(QualType T)
  {
    T = T.getNonReferenceType().getCanonicalType();
    while (T->isPointerType()) T = T->getPointeeType().getCanonicalType();
    return T->getAsCXXRecordDecl();
  }

  // ------------------------------------------------------------ expressions
  Value Ex(const Expr* E)
  {
    if (!E) return nullptr;
    Object o;
    unsigned line = Line(E->getExprLoc());
    auto fin = [&](Object&& ob) -> Value
    {
      ob["l"] = line;
      if (!ob.get("t")) ob["t"] = Type(E->getType());
      return Value(std::move(ob));
    };
    if (auto x = dyn_cast<ParenExpr>(E)) return Ex(x->getSubExpr());
    if (auto x = dyn_cast<FullExpr>(E)) return Ex(x->getSubExpr());
    if (auto x = dyn_cast<MaterializeTemporaryExpr>(E)) return Ex(x->getSubExpr());
    if (auto x = dyn_cast<CXXBindTemporaryExpr>(E)) return Ex(x->getSubExpr());
    if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return Ex(x->getReplacement());
    if (auto x = dyn_cast<CXXStdInitializerListExpr>(E)) return Ex(x->getSubExpr());
    if (auto x = dyn_cast<CXXDefaultArgExpr>(E)) return Ex(x->getExpr());
    if (auto x = dyn_cast<CXXDefaultInitExpr>(E)) return Ex(x->getExpr());
    if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(E)) return Ex(x->getSemanticForm());
    if (auto x = dyn_cast<OpaqueValueExpr>(E)) return Ex(x->getSourceExpr());
    if (auto x = dyn_cast<CastExpr>(E))
    {
      auto k = x->getCastKind();
      if (k == CK_LValueToRValue && x->getType()->isPointerType()
          && isa<CallExpr>(x->getSubExpr()->IgnoreParens()))
      {
        o["k"] = "load";
        o["e"] = Ex(x->getSubExpr());
        return fin(std::move(o));
      }
      switch (k)
      {
      case CK_NoOp:
      case CK_LValueToRValue:
      case CK_FunctionToPointerDecay:
      case CK_ArrayToPointerDecay:
      case CK_UserDefinedConversion:
      case CK_ConstructorConversion:
      case CK_BuiltinFnToFnPtr:
      case CK_UncheckedDerivedToBase:
      case CK_DerivedToBase:
        if (isa<ImplicitCastExpr>(x) || k == CK_UserDefinedConversion || k == CK_ConstructorConversion
            || k == CK_NoOp)
          return Ex(x->getSubExpr());
        break;
      default: break;
      }
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      o["e"] = Ex(x->getSubExpr());
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<IntegerLiteral>(E))
    {
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["k"] = "int";
      o["v"] = std::string(s.str());
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<CXXBoolLiteralExpr>(E))
    {
      o["k"] = "bool";
      o["v"] = x->getValue();
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<CharacterLiteral>(E))
    {
      o["k"] = "int";
      o["v"] = std::to_string(x->getValue());
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<FloatingLiteral>(E))
    {
      o["k"] = "float";
      o["v"] = x->getValueAsApproximateDouble();
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<StringLiteral>(E))
    {
      o["k"] = "str";
      std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : std::string("?wide");
      o["v"] = llvm::json::isUTF8(s) ? s : llvm::json::fixUTF8(s);
      return fin(std::move(o));
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
    {
      o["k"] = "null";
      return fin(std::move(o));
    }
    if (isa<CXXThisExpr>(E))
    {
      o["k"] = "this";
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<DeclRefExpr>(E))
    {
      auto D = x->getDecl();
      if (auto ec = dyn_cast<EnumConstantDecl>(D))
      {
        o["k"] = "enumc";
        o["n"] = QName(ec);
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = std::string(s.str());
        return fin(std::move(o));
      }
      if (auto f = dyn_cast<FunctionDecl>(D))
      {
        o["k"] = "fref";
        FnInfo(o, f);
        return fin(std::move(o));
      }
      if (auto b = dyn_cast<BindingDecl>(D))
      {
        if (auto hv = b->getHoldingVar())
        {
          o["k"] = "var";
          o["id"] = VarId(b);
          o["n"] = b->getNameAsString();
          o["bind"] = true;
          return fin(std::move(o));
        }
        o["k"] = "var";
        o["id"] = VarId(b);
        o["n"] = b->getNameAsString();
        o["bind"] = true;
        return fin(std::move(o));
      }
      o["k"] = "var";
      o["n"] = D->getNameAsString();
      if (auto v = dyn_cast<VarDecl>(D))
      {
        v = v->getCanonicalDecl();
        if (v->hasGlobalStorage() && !v->isStaticLocal())
        {
          o["g"] = QName(v);
          o["gk"] = Key(v);
        }
        else if (v->isStaticLocal())
        {
          o["sl"] = true;
        }
        o["id"] = VarId(v);
      }
      else
        o["id"] = VarId(D);
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<MemberExpr>(E))
    {
      auto D = x->getMemberDecl();
      if (auto v = dyn_cast<VarDecl>(D))
      {
        o["k"] = "var";
        o["n"] = v->getNameAsString();
        o["g"] = QName(v);
        o["gk"] = Key(v);
        o["id"] = VarId(v->getCanonicalDecl());
        return fin(std::move(o));
      }
      if (auto ec = dyn_cast<EnumConstantDecl>(D))
      {
        o["k"] = "enumc";
        o["n"] = QName(ec);
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = std::string(s.str());
        return fin(std::move(o));
      }
      if (auto f = dyn_cast<FunctionDecl>(D))
      {
        o["k"] = "fref";
        FnInfo(o, f);
        o["b"] = Ex(x->getBase());
        return fin(std::move(o));
      }
      o["k"] = "mem";
      o["f"] = D->getNameAsString();
      if (auto fd = dyn_cast<FieldDecl>(D)) o["cls"] = RecName(dyn_cast<CXXRecordDecl>(fd->getParent()));
      o["b"] = Ex(x->getBase());
      if (x->isArrow()) o["arrow"] = true;
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<CallExpr>(E))
    {
      o["k"] = "call";
      const FunctionDecl* f = x->getDirectCallee();
      Array args;
      if (f)
      {
        FnInfo(o, f);
        if (auto m = dyn_cast<CXXMemberCallExpr>(x))
        {
          o["obj"] = Ex(m->getImplicitObjectArgument());
          if (auto me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParens()))
          {
            if (me->isArrow()) o["arrow"] = true;
            if (me->hasQualifier()) o["qual"] = true;
          }
          for (auto a : m->arguments()) args.push_back(Ex(a));
        }
        else if (isa<CXXOperatorCallExpr>(x) && isa<CXXMethodDecl>(f)
                 && !cast<CXXMethodDecl>(f)->isStatic())
        {
          o["obj"] = Ex(x->getArg(0));
          for (unsigned i = 1; i < x->getNumArgs(); ++i) args.push_back(Ex(x->getArg(i)));
        }
        else
          for (auto a : x->arguments()) args.push_back(Ex(a));
        if (!InRoots(f->getLocation()) && QName(f).rfind("std::", 0) != 0)
        {
          Array pt;
          for (auto p : f->parameters()) pt.push_back(Type(p->getType()));
          o["pt"] = std::move(pt);
        }
      }
      else
      {
        // pointer to member call, function pointer call
        if (auto m = dyn_cast<CXXMemberCallExpr>(x))
        {
          (void)m;
        }
        o["fe"] = Ex(x->getCallee());
        for (auto a : x->arguments()) args.push_back(Ex(a));
      }
      o["a"] = std::move(args);
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<CXXConstructExpr>(E))
    {
      auto cd = x->getConstructor();
      o["k"] = "ctor";
      o["c"] = RecName(cd->getParent());
      o["f"] = Key(cd);
      o["n"] = QName(cd);
      Array args;
      for (auto a : x->arguments())
        args.push_back(Ex(a));
      o["a"] = std::move(args);
      if (cd->isCopyConstructor()) o["copy"] = true;
      if (cd->isMoveConstructor()) o["move"] = true;
      if (cd->isDefaultConstructor()) o["def"] = true;
      if (!cd->isUserProvided()) o["implicit"] = true;
      if (x->isListInitialization()) o["list"] = true;
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(E))
    {
      o["k"] = "ctor";
      o["c"] = RecName(x->getConstructor()->getParent());
      o["f"] = Key(x->getConstructor());
      o["a"] = Array();
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<CXXNewExpr>(E))
    {
      o["k"] = "new";
      o["nt"] = Type(x->getAllocatedType());
      if (x->getInitializer()) o["e"] = Ex(x->getInitializer());
      if (x->isArray()) o["arr"] = true;
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<CXXDeleteExpr>(E))
    {
      o["k"] = "delete";
      o["e"] = Ex(x->getArgument());
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<UnaryOperator>(E))
    {
      o["k"] = "un";
      std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) op = "post" + op;
      // &Class::member
      o["op"] = op;
      o["e"] = Ex(x->getSubExpr());
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<BinaryOperator>(E))
    {
      o["k"] = "bin";
      o["op"] = x->getOpcodeStr().str();
      o["lhs"] = Ex(x->getLHS());
      o["rhs"] = Ex(x->getRHS());
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<ConditionalOperator>(E))
    {
      o["k"] = "cond";
      o["c"] = Ex(x->getCond());
      o["x"] = Ex(x->getTrueExpr());
      o["y"] = Ex(x->getFalseExpr());
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<ArraySubscriptExpr>(E))
    {
      o["k"] = "sub";
      o["b"] = Ex(x->getBase());
      o["i"] = Ex(x->getIdx());
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<InitListExpr>(E))
    {
      if (auto s = x->getSemanticForm()) x = s;
      o["k"] = "ilist";
      Array a;
      for (auto i : x->inits()) a.push_back(Ex(i));
      o["a"] = std::move(a);
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<CXXScalarValueInitExpr>(E))
    {
      o["k"] = "zero";
      return fin(std::move(o));
    }
    if (isa<ImplicitValueInitExpr>(E))
    {
      o["k"] = "zero";
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<LambdaExpr>(E))
    {
      o["k"] = "lambda";
      auto cls = x->getLambdaClass();
      const CXXMethodDecl* op = x->getCallOperator();
      Array caps;
      auto ii = x->capture_init_begin();
      for (auto& c : x->captures())
      {
        Object co;
        if (c.capturesThis())
          co["this"] = true;
        else if (c.capturesVariable())
        {
          auto v = c.getCapturedVar();
          co["id"] = VarId(isa<VarDecl>(v) ? cast<VarDecl>(v)->getCanonicalDecl() : v);
          co["n"] = v->getNameAsString();
          if (c.getCaptureKind() == LCK_ByRef) co["ref"] = true;
        }
        if (*ii) co["init"] = Ex(*ii);
        ++ii;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      Array params;
      if (cls->isGenericLambda())
      {
        // use the pattern; instantiations are dumped below if there are any
        auto ft = op->getDescribedFunctionTemplate();
        const FunctionDecl* inst = nullptr;
        if (ft)
          for (auto s : ft->specializations())
            if (s->hasBody() || s->isDefined()) inst = s;
        if (inst)
        {
          const FunctionDecl* def = nullptr;
          if (inst->hasBody(def)) op = cast<CXXMethodDecl>(def);
        }
        o["generic"] = true;
      }
      for (auto p : op->parameters()) params.push_back(Param(p));
      o["params"] = std::move(params);
      o["body"] = St(op->getBody());
      o["mut"] = x->isMutable();
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<CXXThrowExpr>(E))
    {
      o["k"] = "throw";
      if (x->getSubExpr()) o["e"] = Ex(x->getSubExpr());
      return fin(std::move(o));
    }
    if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
    {
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, C))
      {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["k"] = "int";
        o["v"] = std::string(s.str());
        return fin(std::move(o));
      }
    }
    o["k"] = "unk";
    o["c"] = E->getStmtClassName();
    Array ch;
    for (auto c : E->children())
      if (auto ce = dyn_cast_or_null<Expr>(c)) ch.push_back(Ex(ce));
    o["ch"] = std::move(ch);
    return fin(std::move(o));
  }
  void FnInfo(Object& o, const FunctionDecl* f)
  {
    const FunctionDecl* base = f;
    o["f"] = Key(base);
    o["n"] = QName(f);
    if (auto m = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = RecName(m->getParent());
      if (m->isVirtual()) o["virt"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->isConst()) o["cst"] = true;
      if (m->isCopyAssignmentOperator()) o["asg"] = "copy";
      if (m->isMoveAssignmentOperator()) o["asg"] = "move";
      if (!m->isUserProvided()) o["implicit"] = true;
    }
    if (auto ta = f->getTemplateSpecializationArgs())
    {
      Array targs;
      for (auto& a : ta->asArray())
      {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (a.getKind() == TemplateArgument::Type)
          os << Type(a.getAsType());
        else
          a.print(PP, os, true);
        targs.push_back(os.str());
      }
      o["targs"] = std::move(targs);
    }
  }
  Value Param(const ParmVarDecl* p)
  {
    Object o;
    o["id"] = VarId(p->getCanonicalDecl());
    o["n"] = p->getNameAsString();
    o["t"] = Type(p->getType());
    return Value(std::move(o));
  }
  // ------------------------------------------------------------ statements
  Value VarD(const VarDecl* v)
  {
    Object o;
    o["id"] = VarId(v->getCanonicalDecl());
    o["n"] = v->getNameAsString();
    o["t"] = Type(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = Ex(v->getInit());
    if (auto d = dyn_cast<DecompositionDecl>(v))
    {
      Array b;
      for (auto x : d->bindings())
      {
        Object bo;
        bo["id"] = VarId(x);
        bo["n"] = x->getNameAsString();
        bo["t"] = Type(x->getType());
        b.push_back(std::move(bo));
      }
      o["binds"] = std::move(b);
    }
    o["l"] = Line(v->getLocation());
    return Value(std::move(o));
  }
  Value St(const Stmt* S)
  {
    if (!S) return nullptr;
    Object o;
    o["l"] = Line(S->getBeginLoc());
    if (auto x = dyn_cast<CompoundStmt>(S))
    {
      o["s"] = "block";
      Array a;
      for (auto c : x->body()) a.push_back(St(c));
      o["b"] = std::move(a);
      o["le"] = Line(x->getEndLoc());
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<DeclStmt>(S))
    {
      o["s"] = "decl";
      Array a;
      for (auto d : x->decls())
        if (auto v = dyn_cast<VarDecl>(d)) a.push_back(VarD(v));
      o["v"] = std::move(a);
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<IfStmt>(S))
    {
      o["s"] = "if";
      if (x->getInit()) o["init"] = St(x->getInit());
      if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable());
      if (x->isConstexpr())
      {
        o["constexpr"] = true;
      }
      bool known = false;
      bool is_true = false;
      if (x->isConstexpr() && !x->getCond()->isValueDependent())
      {
        known = x->getCond()->EvaluateAsBooleanCondition(is_true, C);
      }
      if (known)
      {
        Object c;
        c["k"] = "bool";
        c["v"] = is_true;
        c["t"] = "bool";
        c["l"] = "";
        o["c"] = Value(std::move(c));
      }
      else
      {
        o["c"] = Ex(x->getCond());
      }
      o["th"] = St(x->getThen());
      if (x->getElse()) o["el"] = St(x->getElse());
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<WhileStmt>(S))
    {
      o["s"] = "while";
      if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable());
      o["c"] = Ex(x->getCond());
      o["b"] = St(x->getBody());
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<DoStmt>(S))
    {
      o["s"] = "do";
      o["c"] = Ex(x->getCond());
      o["b"] = St(x->getBody());
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<ForStmt>(S))
    {
      o["s"] = "for";
      if (x->getInit()) o["init"] = St(x->getInit());
      if (x->getCond()) o["c"] = Ex(x->getCond());
      if (x->getInc()) o["inc"] = Ex(x->getInc());
      o["b"] = St(x->getBody());
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<CXXForRangeStmt>(S))
    {
      o["s"] = "rfor";
      if (x->getInit()) o["init"] = St(x->getInit());
      o["r"] = Ex(x->getRangeInit());
      o["v"] = VarD(x->getLoopVariable());
      o["b"] = St(x->getBody());
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<SwitchStmt>(S))
    {
      o["s"] = "switch";
      if (x->getInit()) o["init"] = St(x->getInit());
      if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable());
      o["c"] = Ex(x->getCond());
      o["b"] = St(x->getBody());
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<CaseStmt>(S))
    {
      o["s"] = "case";
      o["c"] = Ex(x->getLHS());
      o["b"] = St(x->getSubStmt());
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<DefaultStmt>(S))
    {
      o["s"] = "default";
      o["b"] = St(x->getSubStmt());
      return Value(std::move(o));
    }
    if (isa<BreakStmt>(S))
    {
      o["s"] = "break";
      return Value(std::move(o));
    }
    if (isa<ContinueStmt>(S))
    {
      o["s"] = "continue";
      return Value(std::move(o));
    }
    if (isa<NullStmt>(S))
    {
      o["s"] = "null";
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<ReturnStmt>(S))
    {
      o["s"] = "return";
      if (x->getRetValue()) o["e"] = Ex(x->getRetValue());
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<CXXTryStmt>(S))
    {
      o["s"] = "try";
      o["b"] = St(x->getTryBlock());
      Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i)
      {
        auto h = x->getHandler(i);
        Object c;
        if (h->getExceptionDecl())
        {
          c["v"] = VarD(h->getExceptionDecl());
          c["t"] = Type(h->getCaughtType().getNonReferenceType().getUnqualifiedType());
        }
        c["b"] = St(h->getHandlerBlock());
        a.push_back(std::move(c));
      }
      o["h"] = std::move(a);
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<AttributedStmt>(S)) return St(x->getSubStmt());
    if (auto x = dyn_cast<LabelStmt>(S))
    {
      o["s"] = "label";
      o["b"] = St(x->getSubStmt());
      return Value(std::move(o));
    }
    if (auto x = dyn_cast<Expr>(S))
    {
      o["s"] = "expr";
      o["e"] = Ex(x);
      return Value(std::move(o));
    }
    o["s"] = "unk";
    o["c"] = S->getStmtClassName();
    return Value(std::move(o));
  }
  // ------------------------------------------------------------ declarations
  void DumpFn(const FunctionDecl* f)
  {
    std::string key = Key(f);
    // instantiations share USRs only with themselves; guard against duplicates
    if (!seen.insert(key).second) return;
    Object o;
    FnInfo(o, f);
    o["f"] = key;
    o["file"] = File(f->getLocation());
    o["l"] = Line(f->getLocation());
    o["ret"] = Type(f->getReturnType());
    if (auto ft = f->getType()->getAs<FunctionProtoType>())
    {
      auto es = ft->getExceptionSpecType();
      if (es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone
          || es == EST_NoThrow)
        o["noexcept"] = true;
    }
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isDeleted()) o["deleted"] = true;
    Array ps;
    for (auto p : f->parameters()) ps.push_back(Param(p));
    o["params"] = std::move(ps);
    if (auto cd = dyn_cast<CXXConstructorDecl>(f))
    {
      o["isctor"] = true;
      Array in;
      for (auto i : cd->inits())
      {
        Object io;
        if (i->isAnyMemberInitializer())
          io["field"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer())
          io["base"] = Type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer())
          io["deleg"] = true;
        io["written"] = i->isWritten();
        io["e"] = Ex(i->getInit());
        io["l"] = Line(i->getSourceLocation());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(f)) o["isdtor"] = true;
    if (f->hasBody() && !f->isDefaulted()) o["body"] = St(f->getBody());
    Array ov;
    if (auto m = dyn_cast<CXXMethodDecl>(f))
      for (auto b : m->overridden_methods()) ov.push_back(Key(b));
    o["over"] = std::move(ov);
    if (!f->isExternallyVisible()) o["internal"] = true;
    funcs.push_back(std::move(o));
  }
  bool VisitFunctionDecl(FunctionDecl* f)
  {
    if (!f->isThisDeclarationADefinition() && !f->isDefaulted()) return true;
    if (f->isTemplated() && !f->isTemplateInstantiation()) return true;
    if (f->isDependentContext()) return true;
    if (!InRoots(f->getLocation())) return true;
    if (auto m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (f->isDefaulted() && f->isImplicit()) return true;
    if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) return true;
    DumpFn(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r)
  {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    if (!InRoots(r->getLocation())) return true;
    std::string key = "R:" + Key(r);
    if (!seen.insert(key).second) return true;
    Object o;
    o["n"] = RecName(r);
    o["qn"] = QName(r);
    o["file"] = File(r->getLocation());
    o["l"] = Line(r->getLocation());
    Array bs;
    decltype(bs) ps;
    for (auto& b : r->bases())
    {
      bs.push_back(Type(b.getType()));
      if (b.getAccessSpecifier() == clang::AS_public) ps.push_back(Type(b.getType()));
    }
    o["bases"] = std::move(bs);
    o["pubbases"] = std::move(ps);
    Array fs;
    for (auto f : r->fields())
    {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = Type(f->getType());
      fo["l"] = Line(f->getLocation());
      fo["acc"] = (int)f->getAccess();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = Ex(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto m : r->methods())
    {
      if (m->isImplicit()) continue;
      Object mo;
      FnInfo(mo, m);
      mo["name"] = m->getNameAsString();
      mo["l"] = Line(m->getLocation());
      mo["acc"] = (int)m->getAccess();
      if (m->isPureVirtual()) mo["pure"] = true;
      if (m->isDeleted()) mo["deleted"] = true;
      if (m->isDefaulted()) mo["defaulted"] = true;
      Array ov;
      for (auto b : m->overridden_methods()) ov.push_back(Key(b));
      mo["over"] = std::move(ov);
      mo["ret"] = Type(m->getReturnType());
      Array pt;
      for (auto p : m->parameters()) pt.push_back(Type(p->getType()));
      mo["pt"] = std::move(pt);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    o["abstract"] = r->isAbstract();
    auto ctorDeleted = [&](bool copy) -> int
    {
      // 0 absent/implicit-ok, 1 user-declared available, 2 deleted
      for (auto c : r->ctors())
        if (copy ? c->isCopyConstructor() : c->isMoveConstructor())
          return c->isDeleted() ? 2 : (c->isUserProvided() ? 1 : (c->isImplicit() ? 0 : 3));
      if (copy)
      {
        if (r->needsImplicitCopyConstructor())
          return r->defaultedCopyConstructorIsDeleted() ? 2 : 0;
      }
      else if (r->needsImplicitMoveConstructor())
        return r->defaultedMoveConstructorIsDeleted() ? 2 : 0;
      return 4;  // not declared
    };
    o["copyctor"] = ctorDeleted(true);
    o["movector"] = ctorDeleted(false);
    auto asg = [&](bool copy) -> int
    {
      for (auto m : r->methods())
        if (copy ? m->isCopyAssignmentOperator() : m->isMoveAssignmentOperator())
          return m->isDeleted() ? 2 : (m->isUserProvided() ? 1 : (m->isImplicit() ? 0 : 3));
      if (copy && r->needsImplicitCopyAssignment()) return 0;
      if (!copy && r->needsImplicitMoveAssignment()) return 0;
      return 4;
    };
    o["copyasg"] = asg(true);
    o["moveasg"] = asg(false);
    if (auto d = r->getDestructor())
    {
      o["dtor"] = Key(d);
      o["userdtor"] = d->isUserProvided();
      o["vdtor"] = d->isVirtual();
    }
    records.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e)
  {
    if (!e->isThisDeclarationADefinition() || e->isDependentContext()) return true;
    if (!InRoots(e->getLocation())) return true;
    std::string key = "E:" + Key(e);
    if (!seen.insert(key).second) return true;
    Object o;
    o["n"] = C.getTypeDeclType(e).getCanonicalType().getAsString(PP);
    o["file"] = File(e->getLocation());
    o["l"] = Line(e->getLocation());
    Array a;
    for (auto c : e->enumerators())
    {
      Object co;
      co["n"] = QName(c);
      llvm::SmallString<32> s;
      c->getInitVal().toString(s, 10);
      co["v"] = std::string(s.str());
      a.push_back(std::move(co));
    }
    o["c"] = std::move(a);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* v)
  {
    if (!v->hasGlobalStorage() || v->isStaticLocal()) return true;
    if (v->isTemplated() || v->getDeclContext()->isDependentContext()) return true;
    if (!InRoots(v->getLocation())) return true;
    if (!v->isThisDeclarationADefinition() && !v->hasInit()) return true;
    std::string key = "V:" + Key(v);
    if (!seen.insert(key).second) return true;
    Object o;
    o["gk"] = Key(v);
    o["n"] = QName(v);
    o["t"] = Type(v->getType());
    o["file"] = File(v->getLocation());
    o["l"] = Line(v->getLocation());
    if (v->getInit()) o["init"] = Ex(v->getInit());
    globals.push_back(std::move(o));
    return true;
  }
};

struct Consumer : ASTConsumer
{
  void HandleTranslationUnit(ASTContext& C) override
  {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper d(C);
    d.TraverseDecl(C.getTranslationUnitDecl());
    Object top;
    top["main"] = d.mainfile;
    Array inc;
    for (auto it = C.getSourceManager().fileinfo_begin(); it != C.getSourceManager().fileinfo_end(); ++it)
    {
      std::string n = it->first.getName().str();
      for (auto& r : g_roots)
        if (n.compare(0, r.size(), r) == 0) inc.push_back(n);
    }
    top["files"] = std::move(inc);
    top["functions"] = std::move(d.funcs);
    top["records"] = std::move(d.records);
    top["globals"] = std::move(d.globals);
    top["enums"] = std::move(d.enums);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << Value(std::move(top));
  }
};
struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};
struct Factory : tooling::FrontendActionFactory
{
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
}  // namespace

int main(int argc, const char** argv)
{
  if (argc < 5)
  {
    llvm::errs() << "usage: oacdump OUT ROOTS SOURCE -- args\n";
    return 2;
  }
  g_out = argv[1];
  std::string roots = argv[2], src = argv[3];
  std::stringstream ss(roots);
  std::string r;
  while (std::getline(ss, r, ',')) g_roots.push_back(r);
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  Factory f;
  int rc = tool.run(&f);
  return rc;
}
