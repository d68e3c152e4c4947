// astdump: mechanical extraction of the typed AST of a C++ translation unit as JSON.
//
// usage: astdump FILE.cpp -- <compiler flags>
//
// Everything reachable from function definitions located under the roots given in the
// environment variable ASTDUMP_ROOTS (colon separated) is dumped with bodies; functions of other
// files (system headers) are dumped by qualified name only.  Nothing is dropped from a body except
// source formatting, comments, attributes and parentheses.
#include <cstdlib>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> roots;

class Dumper
{
public:
  ASTContext & ctx;
  SourceManager & sm;
  PrintingPolicy pp;
  json::Object types_, funcs_, globals_, records_;
  std::map<const void *, int> type_ids;
  std::map<const Decl *, int> decl_ids;
  std::deque<const FunctionDecl *> fqueue;
  std::set<const FunctionDecl *> fseen;
  std::deque<const CXXRecordDecl *> rqueue;
  std::set<const RecordDecl *> rseen;
  std::set<const VarDecl *> gseen;
  std::deque<const VarDecl *> gqueue;
  int next_id = 1;

  explicit Dumper(ASTContext & c)
  : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy())
  {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
    pp.SuppressInlineNamespace = true;
  }

  std::string file_of(SourceLocation l)
  {
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    return f.str();
  }
  bool in_roots(const Decl * d)
  {
    std::string f = file_of(d->getLocation());
    for (auto & r : roots) {
      if (f.compare(0, r.size(), r) == 0) {return true;}
    }
    return false;
  }

  int id_of(const Decl * d)
  {
    d = d->getCanonicalDecl();
    auto it = decl_ids.find(d);
    if (it != decl_ids.end()) {return it->second;}
    int id = next_id++;
    decl_ids[d] = id;
    return id;
  }

  // ---- types -------------------------------------------------------------------------------
  int type_id(QualType q)
  {
    if (q.isNull()) {return 0;}
    q = q.getCanonicalType();
    const void * key = q.getAsOpaquePtr();
    auto it = type_ids.find(key);
    if (it != type_ids.end()) {return it->second;}
    int id = next_id++;
    type_ids[key] = id;
    json::Object o;
    o["s"] = q.getAsString(pp);
    if (q.isConstQualified()) {o["const"] = true;}
    const Type * t = q.getTypePtr();
    if (auto * b = dyn_cast<BuiltinType>(t)) {
      o["k"] = "builtin";
      o["n"] = b->getName(pp).str();
      if (b->isInteger()) {
        o["bits"] = static_cast<int64_t>(ctx.getTypeSize(q));
        o["signed"] = b->isSignedInteger();
      }
    } else if (auto * p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["to"] = type_id(p->getPointeeType());
    } else if (auto * r = dyn_cast<ReferenceType>(t)) {
      o["k"] = isa<RValueReferenceType>(r) ? "rref" : "lref";
      o["to"] = type_id(r->getPointeeType());
    } else if (auto * rt = dyn_cast<RecordType>(t)) {
      o["k"] = "record";
      const RecordDecl * rd = rt->getDecl();
      if (auto * def = rd->getDefinition()) {rd = def;}
      o["n"] = qname(rd);
      o["rid"] = id_of(rd);
      if (auto * crd = dyn_cast<CXXRecordDecl>(rd)) {
        if (crd->isLambda()) {o["lambda"] = true;}
        if (auto * spec = dyn_cast<ClassTemplateSpecializationDecl>(crd)) {
          o["args"] = targs(spec->getTemplateArgs());
        }
      }
      queue_record(rd);
    } else if (auto * et = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["n"] = qname(et->getDecl());
      QualType it2 = et->getDecl()->getIntegerType();
      if (!it2.isNull()) {
        o["bits"] = static_cast<int64_t>(ctx.getTypeSize(it2));
        o["signed"] = it2->isSignedIntegerType();
      }
      json::Object vals;
      for (auto * e : et->getDecl()->enumerators()) {
        vals[e->getNameAsString()] = llvm::toString(e->getInitVal(), 10);
      }
      o["vals"] = std::move(vals);
    } else if (auto * at = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "array";
      o["of"] = type_id(at->getElementType());
      o["size"] = static_cast<int64_t>(at->getSize().getZExtValue());
    } else if (auto * ft = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "func";
      o["ret"] = type_id(ft->getReturnType());
      json::Array ps;
      for (auto pt : ft->getParamTypes()) {ps.push_back(type_id(pt));}
      o["params"] = std::move(ps);
    } else {
      o["k"] = "other";
      o["cls"] = t->getTypeClassName();
    }
    types_[std::to_string(id)] = std::move(o);
    return id;
  }

  json::Array targs(const TemplateArgumentList & l)
  {
    json::Array a;
    for (auto & x : l.asArray()) {targ(a, x);}
    return a;
  }
  void targ(json::Array & a, const TemplateArgument & x)
  {
    switch (x.getKind()) {
      case TemplateArgument::Type: {
          json::Object o; o["t"] = type_id(x.getAsType()); a.push_back(std::move(o)); break;
        }
      case TemplateArgument::Integral: {
          json::Object o; o["i"] = llvm::toString(x.getAsIntegral(), 10);
          a.push_back(std::move(o)); break;
        }
      case TemplateArgument::Pack:
        for (auto & y : x.pack_elements()) {targ(a, y);}
        break;
      default: a.push_back(nullptr);
    }
  }

  std::string qname(const NamedDecl * d)
  {
    std::string r = simple_name(d);
    for (const DeclContext * c = d->getDeclContext(); c && !c->isTranslationUnit();
      c = c->getParent())
    {
      if (auto * ns = dyn_cast<NamespaceDecl>(c)) {
        if (ns->isInline()) {continue;}
        r = (ns->isAnonymousNamespace() ? std::string("(anon)") : ns->getNameAsString()) +
          "::" + r;
      } else if (isa<LinkageSpecDecl>(c) || isa<ExportDecl>(c)) {
        continue;
      } else if (auto * ed = dyn_cast<EnumDecl>(c)) {
        if (ed->isScoped()) {r = simple_name(ed) + "::" + r;}
      } else if (auto * nd = dyn_cast<NamedDecl>(c)) {
        r = simple_name(nd) + "::" + r;
      }
    }
    return r;
  }
  std::string simple_name(const NamedDecl * d)
  {
    if (auto * r = dyn_cast<CXXRecordDecl>(d)) {
      if (r->isLambda()) {return "(lambda)";}
    }
    if (auto * r = dyn_cast<TagDecl>(d)) {
      if (!r->getIdentifier()) {
        if (auto * td = r->getTypedefNameForAnonDecl()) {return td->getNameAsString();}
        return "(anonymous)";
      }
      return r->getNameAsString();
    }
    if (isa<CXXConstructorDecl>(d)) {return "(ctor)";}
    if (isa<CXXDestructorDecl>(d)) {return "(dtor)";}
    if (isa<CXXConversionDecl>(d)) {return "(conv)";}
    if (auto * p = dyn_cast<ParmVarDecl>(d)) {return p->getNameAsString();}
    return d->getNameAsString();
  }

  void queue_record(const RecordDecl * rd)
  {
    if (!rd || rseen.count(rd)) {return;}
    rseen.insert(rd);
    if (auto * c = dyn_cast<CXXRecordDecl>(rd)) {rqueue.push_back(c);}
  }
  void queue_func(const FunctionDecl * fd)
  {
    if (!fd) {return;}
    const FunctionDecl * key = fd->getCanonicalDecl();
    if (fseen.count(key)) {return;}
    fseen.insert(key);
    fqueue.push_back(fd);
  }
  void queue_global(const VarDecl * vd)
  {
    vd = vd->getCanonicalDecl();
    if (gseen.count(vd)) {return;}
    gseen.insert(vd);
    gqueue.push_back(vd);
  }

  // ---- statements and expressions --------------------------------------------------------------
  json::Value S(const Stmt * s)
  {
    if (!s) {return nullptr;}
    if (auto * p = dyn_cast<ParenExpr>(s)) {return S(p->getSubExpr());}
    if (auto * p = dyn_cast<ExprWithCleanups>(s)) {
      json::Object o;
      o["k"] = "Cleanups"; o["e"] = S(p->getSubExpr());
      return o;
    }
    if (auto * p = dyn_cast<ConstantExpr>(s)) {return S(p->getSubExpr());}
    if (auto * p = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) {return S(p->getReplacement());}
    if (auto * p = dyn_cast<AttributedStmt>(s)) {return S(p->getSubStmt());}
    if (auto * p = dyn_cast<CXXRewrittenBinaryOperator>(s)) {return S(p->getSemanticForm());}
    if (auto * p = dyn_cast<OpaqueValueExpr>(s)) {return S(p->getSourceExpr());}
    json::Object o;
    o["k"] = s->getStmtClassName();
    o["l"] = static_cast<int64_t>(sm.getExpansionLineNumber(s->getBeginLoc()));
    if (auto * e = dyn_cast<Expr>(s)) {
      o["t"] = type_id(e->getType());
      o["vk"] = e->isPRValue() ? "p" : (e->isXValue() ? "x" : "l");
    }
    auto kids = [&](const char * n = "c") {
        json::Array a;
        for (auto * c : s->children()) {a.push_back(S(c));}
        o[n] = std::move(a);
      };
    if (auto * x = dyn_cast<CompoundStmt>(s)) {
      o["el"] = static_cast<int64_t>(sm.getExpansionLineNumber(x->getEndLoc()));
      kids();
    } else if (auto * x = dyn_cast<DeclStmt>(s)) {
      json::Array a;
      for (auto * d : x->decls()) {
        if (auto * vd = dyn_cast<VarDecl>(d)) {
          a.push_back(var(vd));
        } else if (auto * dd = dyn_cast<DecompositionDecl>(d)) {
          (void)dd;
        }
      }
      o["d"] = std::move(a);
    } else if (auto * x = dyn_cast<IfStmt>(s)) {
      if (x->getInit()) {o["init"] = S(x->getInit());}
      if (x->getConditionVariableDeclStmt()) {o["cv"] = S(x->getConditionVariableDeclStmt());}
      o["cond"] = S(x->getCond());
      o["then"] = S(x->getThen());
      if (x->getElse()) {o["else"] = S(x->getElse());}
      if (x->isConstexpr()) {o["constexpr"] = true;}
    } else if (auto * x = dyn_cast<ForStmt>(s)) {
      if (x->getInit()) {o["init"] = S(x->getInit());}
      if (x->getConditionVariableDeclStmt()) {o["cv"] = S(x->getConditionVariableDeclStmt());}
      if (x->getCond()) {o["cond"] = S(x->getCond());}
      if (x->getInc()) {o["inc"] = S(x->getInc());}
      o["body"] = S(x->getBody());
    } else if (auto * x = dyn_cast<WhileStmt>(s)) {
      if (x->getConditionVariableDeclStmt()) {o["cv"] = S(x->getConditionVariableDeclStmt());}
      o["cond"] = S(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto * x = dyn_cast<DoStmt>(s)) {
      o["cond"] = S(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto * x = dyn_cast<CXXForRangeStmt>(s)) {
      if (x->getInit()) {o["init"] = S(x->getInit());}
      o["range"] = S(x->getRangeInit());
      o["rangevar"] = S(x->getRangeStmt());
      o["begin"] = S(x->getBeginStmt());
      o["end"] = S(x->getEndStmt());
      o["cond"] = S(x->getCond());
      o["inc"] = S(x->getInc());
      o["var"] = S(x->getLoopVarStmt());
      o["body"] = S(x->getBody());
    } else if (auto * x = dyn_cast<SwitchStmt>(s)) {
      if (x->getInit()) {o["init"] = S(x->getInit());}
      o["cond"] = S(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto * x = dyn_cast<CaseStmt>(s)) {
      o["lhs"] = S(x->getLHS());
      if (x->getRHS()) {o["rhs"] = S(x->getRHS());}
      o["sub"] = S(x->getSubStmt());
    } else if (auto * x = dyn_cast<DefaultStmt>(s)) {
      o["sub"] = S(x->getSubStmt());
    } else if (auto * x = dyn_cast<ReturnStmt>(s)) {
      if (x->getRetValue()) {o["e"] = S(x->getRetValue());}
    } else if (auto * x = dyn_cast<GotoStmt>(s)) {
      o["label"] = x->getLabel()->getNameAsString();
    } else if (auto * x = dyn_cast<LabelStmt>(s)) {
      o["label"] = x->getDecl()->getNameAsString();
      o["sub"] = S(x->getSubStmt());
    } else if (auto * x = dyn_cast<CXXTryStmt>(s)) {
      o["try"] = S(x->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {a.push_back(S(x->getHandler(i)));}
      o["handlers"] = std::move(a);
    } else if (auto * x = dyn_cast<CXXCatchStmt>(s)) {
      if (x->getExceptionDecl()) {o["var"] = var(x->getExceptionDecl());}
      o["body"] = S(x->getHandlerBlock());
    } else if (auto * x = dyn_cast<IntegerLiteral>(s)) {
      o["v"] = llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType());
    } else if (auto * x = dyn_cast<CharacterLiteral>(s)) {
      o["v"] = std::to_string(x->getValue());
    } else if (auto * x = dyn_cast<FloatingLiteral>(s)) {
      o["v"] = x->getValueAsApproximateDouble();
    } else if (auto * x = dyn_cast<CXXBoolLiteralExpr>(s)) {
      o["v"] = x->getValue();
    } else if (auto * x = dyn_cast<StringLiteral>(s)) {
      json::Array a;
      for (unsigned i = 0; i < x->getLength(); ++i) {
        a.push_back(static_cast<int64_t>(x->getCodeUnit(i)));
      }
      o["v"] = std::move(a);
    } else if (auto * x = dyn_cast<PredefinedExpr>(s)) {
      if (x->getFunctionName()) {o["e"] = S(x->getFunctionName());}
    } else if (auto * x = dyn_cast<DeclRefExpr>(s)) {
      o["d"] = declref(x->getDecl());
    } else if (auto * x = dyn_cast<MemberExpr>(s)) {
      o["b"] = S(x->getBase());
      o["arrow"] = x->isArrow();
      o["m"] = x->getMemberDecl()->getNameAsString();
      o["d"] = declref(x->getMemberDecl());
    } else if (auto * x = dyn_cast<UnaryOperator>(s)) {
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) {o["post"] = true;}
      o["e"] = S(x->getSubExpr());
    } else if (auto * x = dyn_cast<CompoundAssignOperator>(s)) {
      o["op"] = x->getOpcodeStr().str();
      o["a"] = S(x->getLHS());
      o["b"] = S(x->getRHS());
      o["ct"] = type_id(x->getComputationResultType());
      o["clt"] = type_id(x->getComputationLHSType());
    } else if (auto * x = dyn_cast<BinaryOperator>(s)) {
      o["op"] = x->getOpcodeStr().str();
      o["a"] = S(x->getLHS());
      o["b"] = S(x->getRHS());
    } else if (auto * x = dyn_cast<ConditionalOperator>(s)) {
      o["cond"] = S(x->getCond());
      o["a"] = S(x->getTrueExpr());
      o["b"] = S(x->getFalseExpr());
    } else if (auto * x = dyn_cast<CastExpr>(s)) {
      o["ck"] = x->getCastKindName();
      o["e"] = S(x->getSubExpr());
      if (isa<CXXReinterpretCastExpr>(s)) {o["reint"] = true;}
    } else if (auto * x = dyn_cast<CallExpr>(s)) {
      if (auto * y = dyn_cast<CXXOperatorCallExpr>(s)) {
        o["oper"] = getOperatorSpelling(y->getOperator());
      }
      if (auto * fd = x->getDirectCallee()) {
        o["f"] = declref(fd);
      } else {
        o["callee"] = S(x->getCallee());
      }
      if (auto * y = dyn_cast<CXXMemberCallExpr>(s)) {
        if (auto * me = dyn_cast<MemberExpr>(y->getCallee()->IgnoreParens())) {
          o["obj"] = S(me->getBase());
          o["arrow"] = me->isArrow();
        } else {
          o["callee"] = S(y->getCallee());
        }
      }
      json::Array a;
      for (auto * c : x->arguments()) {a.push_back(S(c));}
      o["args"] = std::move(a);
    } else if (auto * x = dyn_cast<CXXConstructExpr>(s)) {
      o["f"] = declref(x->getConstructor());
      if (x->getConstructor()->isCopyOrMoveConstructor()) {o["copy"] = true;}
      if (x->getConstructor()->isMoveConstructor()) {o["move"] = true;}
      if (x->getConstructor()->isDefaultConstructor()) {o["default"] = true;}
      if (x->isListInitialization()) {o["list"] = true;}
      if (x->isStdInitListInitialization()) {o["initlist"] = true;}
      if (x->requiresZeroInitialization()) {o["zero"] = true;}
      json::Array a;
      for (auto * c : x->arguments()) {a.push_back(S(c));}
      o["args"] = std::move(a);
    } else if (auto * x = dyn_cast<LambdaExpr>(s)) {
      o["rid"] = id_of(x->getLambdaClass());
      queue_record(x->getLambdaClass());
      auto * op = x->getCallOperator();
      o["f"] = declref(op);
      if (auto * ft = op->getDescribedFunctionTemplate()) {
        // generic lambda: the call operators that were instantiated
        json::Array sp;
        for (auto * fd : ft->specializations()) {
          const FunctionDecl * def = nullptr;
          if (fd->isDefined(def) && def->getBody()) {sp.push_back(declref(def));}
        }
        o["specs"] = std::move(sp);
      }
      json::Array a;
      auto init = x->capture_init_begin();
      for (auto & c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) {
          co["this"] = true;
          co["byref"] = c.getCaptureKind() == LCK_This;
        } else if (c.capturesVariable()) {
          co["d"] = declref(c.getCapturedVar());
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          co["init"] = S(*init);
        }
        a.push_back(std::move(co));
        ++init;
      }
      o["caps"] = std::move(a);
    } else if (auto * x = dyn_cast<InitListExpr>(s)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) {x = x->getSemanticForm();}
      json::Array a;
      for (auto * c : x->inits()) {a.push_back(S(c));}
      o["c"] = std::move(a);
      if (x->hasArrayFiller()) {o["filler"] = S(x->getArrayFiller());}
      if (x->isTransparent()) {o["transparent"] = true;}
    } else if (auto * x = dyn_cast<CXXDefaultArgExpr>(s)) {
      o["e"] = S(x->getExpr());
    } else if (auto * x = dyn_cast<CXXDefaultInitExpr>(s)) {
      o["e"] = S(x->getExpr());
    } else if (auto * x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      (void)x;
    } else if (auto * x = dyn_cast<MaterializeTemporaryExpr>(s)) {
      o["e"] = S(x->getSubExpr());
      if (x->getExtendingDecl()) {o["ext"] = id_of(x->getExtendingDecl());}
    } else if (auto * x = dyn_cast<CXXBindTemporaryExpr>(s)) {
      o["e"] = S(x->getSubExpr());
    } else if (auto * x = dyn_cast<CXXStdInitializerListExpr>(s)) {
      o["e"] = S(x->getSubExpr());
    } else if (auto * x = dyn_cast<CXXThrowExpr>(s)) {
      if (x->getSubExpr()) {o["e"] = S(x->getSubExpr());}
    } else if (auto * x = dyn_cast<CXXNewExpr>(s)) {
      o["nt"] = type_id(x->getAllocatedType());
      if (x->getInitializer()) {o["e"] = S(x->getInitializer());}
    } else {
      kids();
    }
    if (auto * e = dyn_cast<Expr>(s)) {
      if (!e->isValueDependent() && !e->isTypeDependent() &&
        (e->getType()->isIntegralOrEnumerationType()) && !isa<IntegerLiteral>(e))
      {
        Expr::EvalResult r;
        if (!e->isLValue() && e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
          o["cv"] = llvm::toString(r.Val.getInt(), 10);
        }
      }
    }
    return o;
  }

  json::Object var(const VarDecl * vd)
  {
    json::Object o;
    o["id"] = id_of(vd);
    o["n"] = vd->getNameAsString();
    o["t"] = type_id(vd->getType());
    if (vd->isStaticLocal()) {o["static"] = true;}
    if (vd->hasInit()) {o["init"] = S(vd->getInit());}
    if (vd->isConstexpr()) {o["constexpr"] = true;}
    if (auto * dd = dyn_cast<DecompositionDecl>(vd)) {
      json::Array a;
      for (auto * b : dd->bindings()) {
        json::Object bo;
        bo["id"] = id_of(b);
        bo["n"] = b->getNameAsString();
        bo["t"] = type_id(b->getType());
        if (b->getBinding()) {bo["e"] = S(b->getBinding());}
        if (auto * hv = b->getHoldingVar()) {
          bo["hold"] = var(hv);
        }
        a.push_back(std::move(bo));
      }
      o["bindings"] = std::move(a);
    }
    return o;
  }

  json::Object declref(const ValueDecl * d)
  {
    json::Object o;
    o["dk"] = d->getDeclKindName();
    o["id"] = id_of(d);
    o["n"] = d->getNameAsString();
    if (auto * fd = dyn_cast<FunctionDecl>(d)) {
      o["q"] = qname(fd);
      o["ft"] = type_id(fd->getType());
      if (auto * md = dyn_cast<CXXMethodDecl>(fd)) {
        o["cls"] = type_id(ctx.getRecordType(md->getParent()));
        if (md->isStatic()) {o["static"] = true;}
      }
      queue_func(fd);
    } else if (auto * vd = dyn_cast<VarDecl>(d)) {
      o["t"] = type_id(vd->getType());
      if (vd->hasGlobalStorage() && !vd->isStaticLocal()) {
        o["global"] = true;
        o["q"] = qname(vd);
        queue_global(vd);
      }
    } else if (auto * ed = dyn_cast<EnumConstantDecl>(d)) {
      o["v"] = llvm::toString(ed->getInitVal(), 10);
      o["q"] = qname(ed);
    } else if (auto * bd = dyn_cast<BindingDecl>(d)) {
      o["t"] = type_id(bd->getType());
    }
    return o;
  }

  void dump_func(const FunctionDecl * fd0)
  {
    const FunctionDecl * fd = fd0;
    const FunctionDecl * def = nullptr;
    if (fd0->hasBody(def) && def) {fd = def;}
    json::Object o;
    o["q"] = qname(fd);
    o["n"] = fd->getNameAsString();
    o["ret"] = type_id(fd->getReturnType());
    o["type"] = type_id(fd->getType());
    bool root = in_roots(fd);
    if (root) {
      o["file"] = file_of(fd->getLocation());
      o["line"] = static_cast<int64_t>(sm.getExpansionLineNumber(fd->getLocation()));
      o["static"] = fd->getStorageClass() == SC_Static;
    }
    json::Array ps;
    for (auto * p : fd->parameters()) {
      json::Object po;
      po["id"] = id_of(p);
      po["n"] = p->getNameAsString();
      po["t"] = type_id(p->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (fd->isVariadic()) {o["variadic"] = true;}
    if (fd->isDefaulted()) {o["defaulted"] = true;}
    if (fd->isImplicit()) {o["implicit"] = true;}
    if (auto * md = dyn_cast<CXXMethodDecl>(fd)) {
      o["cls"] = type_id(ctx.getRecordType(md->getParent()));
      if (md->isStatic()) {o["mstatic"] = true;}
      if (md->isConst()) {o["mconst"] = true;}
    }
    if (auto * args = fd->getTemplateSpecializationArgs()) {o["targs"] = targs(*args);}
    if (root && def && !fd->isDependentContext()) {
      if (auto * cd = dyn_cast<CXXConstructorDecl>(fd)) {
        o["ctor"] = true;
        json::Array a;
        for (auto * i : cd->inits()) {
          json::Object io;
          if (i->isMemberInitializer()) {
            io["m"] = i->getMember()->getNameAsString();
            io["fid"] = id_of(i->getMember());
          } else if (i->isBaseInitializer()) {
            io["base"] = type_id(QualType(i->getBaseClass(), 0));
          } else if (i->isDelegatingInitializer()) {
            io["deleg"] = true;
          }
          io["e"] = S(i->getInit());
          a.push_back(std::move(io));
        }
        o["inits"] = std::move(a);
      }
      o["body"] = S(fd->getBody());
    }
    funcs_[std::to_string(id_of(fd0))] = std::move(o);
  }

  void dump_record(const CXXRecordDecl * rd)
  {
    json::Object o;
    o["n"] = qname(rd);
    o["t"] = type_id(ctx.getRecordType(rd));
    if (rd->isLambda()) {o["lambda"] = true;}
    bool root = in_roots(rd);
    o["root"] = root;
    if (rd->hasDefinition() && !rd->isDependentContext()) {
      json::Array fs;
      for (auto * f : rd->fields()) {
        json::Object fo;
        fo["n"] = f->getNameAsString();
        fo["t"] = type_id(f->getType());
        fo["id"] = id_of(f);
        if (f->hasInClassInitializer() && root) {fo["init"] = S(f->getInClassInitializer());}
        fs.push_back(std::move(fo));
      }
      if (root || fs.size() < 8) {o["fields"] = std::move(fs);}
      if (root) {
        json::Array bs;
        for (auto & b : rd->bases()) {bs.push_back(type_id(b.getType()));}
        o["bases"] = std::move(bs);
        for (auto * m : rd->methods()) {
          if (m->isUserProvided() && !m->isDependentContext() && m->hasBody()) {queue_func(m);}
        }
        if (auto * dd = rd->getDestructor()) {
          if (dd->isUserProvided()) {
            o["dtor"] = id_of(dd);
            queue_func(dd);
          }
        }
        if (rd->isLambda() && rd->getLambdaCallOperator()) {
          o["call"] = id_of(rd->getLambdaCallOperator());
          queue_func(rd->getLambdaCallOperator());
        }
      }
    }
    records_[std::to_string(id_of(rd))] = std::move(o);
  }

  void dump_global(const VarDecl * vd)
  {
    json::Object o;
    const VarDecl * def = vd;
    const Expr * init = vd->getAnyInitializer(def);
    o["n"] = vd->getNameAsString();
    o["q"] = qname(vd);
    o["t"] = type_id(vd->getType());
    if (init && in_roots(def)) {o["init"] = S(init);}
    globals_[std::to_string(id_of(vd))] = std::move(o);
  }

  void drain()
  {
    while (!fqueue.empty() || !rqueue.empty() || !gqueue.empty()) {
      if (!fqueue.empty()) {auto * f = fqueue.front(); fqueue.pop_front(); dump_func(f); continue;}
      if (!rqueue.empty()) {auto * r = rqueue.front(); rqueue.pop_front(); dump_record(r); continue;}
      auto * g = gqueue.front(); gqueue.pop_front(); dump_global(g);
    }
  }
};

class Finder : public RecursiveASTVisitor<Finder>
{
public:
  Dumper & d;
  explicit Finder(Dumper & dd)
  : d(dd) {}
  bool shouldVisitTemplateInstantiations() const {return true;}
  bool shouldVisitImplicitCode() const {return false;}
  bool VisitFunctionDecl(FunctionDecl * fd)
  {
    if (fd->isThisDeclarationADefinition() && !fd->isDependentContext() && d.in_roots(fd)) {
      d.queue_func(fd);
    }
    return true;
  }
  bool VisitVarDecl(VarDecl * vd)
  {
    if (vd->hasGlobalStorage() && !vd->isStaticLocal() && d.in_roots(vd) &&
      !vd->getDeclContext()->isDependentContext())
    {
      d.queue_global(vd);
    }
    return true;
  }
};

class Consumer : public ASTConsumer
{
public:
  void HandleTranslationUnit(ASTContext & ctx) override
  {
    if (ctx.getDiagnostics().hasErrorOccurred()) {return;}
    Dumper d(ctx);
    Finder f(d);
    f.TraverseDecl(ctx.getTranslationUnitDecl());
    d.drain();
    json::Object o;
    o["types"] = std::move(d.types_);
    o["funcs"] = std::move(d.funcs_);
    o["globals"] = std::move(d.globals_);
    o["records"] = std::move(d.records_);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction
{
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

static llvm::cl::OptionCategory cat("astdump");

int main(int argc, const char ** argv)
{
  if (const char * r = std::getenv("ASTDUMP_ROOTS")) {
    std::string s(r), cur;
    for (char c : s + ":") {
      if (c == ':') {if (!cur.empty()) {roots.push_back(cur);} cur.clear();} else {cur += c;}
    }
  }
  auto p = tooling::CommonOptionsParser::create(argc, argv, cat);
  if (!p) {llvm::errs() << p.takeError(); return 2;}
  tooling::ClangTool tool(p->getCompilations(), p->getSourcePathList());
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
