// pidx: dumps the type-resolved program (functions, records, globals) of one
// translation unit as JSON, for the analyses in /verif/vf.  Only declarations
// whose location lies under the repository root are dumped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string gRoot;
static std::string gOut;

struct Dumper : RecursiveASTVisitor<Dumper>
{
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    Array fns, recs, globals, enums;
    std::set<std::string> seenFn, seenRec, seenGlob;
    std::map<std::string, int> typeIdx;
    Array types;
    std::map<const Decl*, int> varId;
    int nextVar = 1;

    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.SuppressInlineNamespace = PrintingPolicy{LangOptions()}.SuppressInlineNamespace;
        PP.SuppressInlineNamespace = true;
        PP.SuppressDefaultTemplateArgs = true;
        PP.Bool = true;
        PP.UseVoidForZeroParams = false;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    std::string file(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        if (l.isInvalid()) return "";
        auto f = SM.getFileEntryRefForID(SM.getFileID(l));
        if (!f) return "";
        auto rp = f->getFileEntry().tryGetRealPathName();
        std::string p = rp.empty() ? f->getName().str() : rp.str();
        if (p.rfind(gRoot + "/", 0) == 0) return p.substr(gRoot.size() + 1);
        return "";
    }
    bool inRepo(SourceLocation l)
    {
        auto f = file(l);
        return !f.empty() && f.rfind("test/", 0) != 0 && f.rfind("_build/", 0) != 0;
    }
    int line(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        return l.isValid() ? (int)SM.getExpansionLineNumber(l) : 0;
    }
    int typ(QualType q)
    {
        if (q.isNull()) return -1;
        QualType c = q.getCanonicalType();
        std::string s;
        std::string suffix;
        if (c->isReferenceType()) { suffix = c->isRValueReferenceType() ? "&&" : "&"; c = c->getPointeeType(); }
        std::string cv = c.isConstQualified() ? "const " : "";
        c = c.getUnqualifiedType();
        if (auto* rd = c->getAsCXXRecordDecl(); rd && rd->isLambda()) s = "lambda";
        else s = c.getAsString(PP);
        if (s.size() > 300) s = s.substr(0, 300);
        s = cv + s + suffix;
        auto it = typeIdx.find(s);
        if (it != typeIdx.end()) return it->second;
        int i = types.size();
        types.push_back(s);
        typeIdx[s] = i;
        return i;
    }
    std::string usr(const Decl* d)
    {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(d, b)) return "?" + std::to_string(d->getID());
        return b.str().str();
    }
    std::string qn(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream o(s);
        d->printQualifiedName(o, PP);
        return o.str();
    }
    int vid(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = varId.find(d);
        if (it != varId.end()) return it->second;
        return varId[d] = nextVar++;
    }
    std::string argStr(const TemplateArgumentList* l)
    {
        std::string s;
        llvm::raw_string_ostream o(s);
        bool first = true;
        for (auto& a : l->asArray())
        {
            if (!first) o << ", ";
            first = false;
            if (a.getKind() == TemplateArgument::Type) o << a.getAsType().getCanonicalType().getAsString(PP);
            else a.print(PP, o, true);
        }
        return o.str();
    }

    // ---------- constants
    bool strConst(const APValue& v, Value& out)
    {
        if (!v.isLValue()) return false;
        if (v.isNullPointer()) { out = Object{{"k", "null"}}; return true; }
        auto b = v.getLValueBase();
        if (b.is<const Expr*>())
            if (auto* sl = dyn_cast<StringLiteral>(b.get<const Expr*>()))
                if (sl->getCharByteWidth() == 1 && v.getLValueOffset().isZero())
                {
                    out = Object{{"k", "str"}, {"v", json::fixUTF8(sl->getString())}};
                    return true;
                }
        return false;
    }
    bool tryConst(const Expr* e, Value& out)
    {
        if (e->isValueDependent() || e->isTypeDependent() || e->containsErrors()) return false;
        QualType t = e->getType();
        if (t->isReferenceType()) return false;
        Expr::EvalResult r;
        if (t->isBooleanType() || t->isIntegralOrEnumerationType() || t->isRealFloatingType())
        {
            if (e->isGLValue())
            {
                auto* d = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts());
                auto* m = dyn_cast<MemberExpr>(e->IgnoreParenImpCasts());
                const VarDecl* vd = nullptr;
                if (d) vd = dyn_cast<VarDecl>(d->getDecl());
                else if (m) vd = dyn_cast<VarDecl>(m->getMemberDecl());
                if (!vd || !vd->isUsableInConstantExpressions(C)) return false;
            }
            if (!e->EvaluateAsRValue(r, C) || r.HasSideEffects) return false;
            if (r.Val.isInt())
            {
                auto v = r.Val.getInt();
                if (t->isBooleanType()) out = Object{{"k", "bool"}, {"v", v.getBoolValue()}};
                else
                {
                    llvm::SmallString<32> s;
                    v.toString(s, 10);
                    out = Object{{"k", "int"}, {"v", s.str().str()}, {"t", typ(t)}};
                }
                return true;
            }
            if (r.Val.isFloat())
            {
                auto f = r.Val.getFloat();
                bool li;
                f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
                double d = f.convertToDouble();
                std::string s;
                if (d != d) s = "nan";
                else { char b[64]; snprintf(b, 64, "%.17g", d); s = b; }
                out = Object{{"k", "flt"}, {"v", s}};
                return true;
            }
            return false;
        }
        if (t->isPointerType() && t->getPointeeType()->isCharType())
        {
            if (e->EvaluateAsRValue(r, C) && !r.HasSideEffects) return strConst(r.Val, out);
            return false;
        }
        if (t->isPointerType() || t->isNullPtrType())
        {
            if (e->EvaluateAsRValue(r, C) && !r.HasSideEffects && r.Val.isLValue() && r.Val.isNullPointer())
            {
                out = Object{{"k", "null"}};
                return true;
            }
        }
        return false;
    }

    Object mk(const char* k, const Expr* e)
    {
        Object o{{"k", k}};
        o["l"] = line(e->getBeginLoc());
        o["t"] = typ(e->getType());
        return o;
    }

    const Expr* strip(const Expr* e)
    {
        while (e)
        {
            if (auto* x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
            if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
            if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
            if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { e = x->getSourceExpr(); continue; } }
            break;
        }
        return e;
    }

    std::string paramFlags(const FunctionDecl* f)
    {
        std::string s;
        for (auto* p : f->parameters()) s += flag(p->getType());
        if (f->isVariadic()) s += "*";
        return s;
    }
    char flag(QualType t)
    {
        if (t->isRValueReferenceType()) return 'x';
        if (t->isLValueReferenceType()) return t->getPointeeType().isConstQualified() ? 'r' : 'm';
        if (t->isPointerType()) return t->getPointeeType().isConstQualified() || t->getPointeeType()->isFunctionType() ? 'c' : 'p';
        return 'v';
    }

    Value callInfo(Object o, const FunctionDecl* f)
    {
        if (!f) return Value(std::move(o));
        o["fn"] = usr(f);
        o["name"] = qn(f);
        o["pf"] = paramFlags(f);
        if (auto* ta = f->getTemplateSpecializationArgs()) o["ta"] = argStr(ta);
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            if (m->isConst()) o["cm"] = true;
            if (m->isStatic()) o["sm"] = true;
            o["oc"] = qn(m->getParent());
        }
        if (inRepo(f->getLocation())) o["repo"] = true;
        if (auto* d = f->getDefinition(); d && d->getBody() && inRepo(d->getLocation())) o["repo"] = true;
        if (f->isNoReturn()) o["nr"] = true;
        if (f->getType()->castAs<FunctionProtoType>() && f->getType()->castAs<FunctionProtoType>()->isNothrow()) o["nt"] = true;
        return Value(std::move(o));
    }

    Array args(llvm::ArrayRef<const Expr*> as)
    {
        Array r;
        for (auto* a : as) r.push_back(ex(a));
        return r;
    }
    template <typename R>
    Array argsR(R range)
    {
        Array r;
        for (auto* a : range) r.push_back(ex(a));
        return r;
    }

    Value ex(const Expr* e0)
    {
        if (!e0) return nullptr;
        const Expr* e = strip(e0);
        if (!e) return nullptr;
        if (e->containsErrors() && isa<RecoveryExpr>(e)) { auto o = mk("err", e); return o; }
        Value cv = nullptr;
        if (!isa<InitListExpr>(e) && !isa<CXXScalarValueInitExpr>(e) && tryConst(e, cv))
        {
            auto* o = cv.getAsObject();
            (*o)["l"] = line(e->getBeginLoc());
            if (!o->get("t")) (*o)["t"] = typ(e->getType());
            const Expr* s = e->IgnoreParenImpCasts();
            if (auto* d = dyn_cast<DeclRefExpr>(s)) (*o)["n"] = qn(d->getDecl());
            return cv;
        }
        if (auto* x = dyn_cast<IntegerLiteral>(e))
        {
            auto o = mk("int", e);
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            o["v"] = s.str().str();
            return o;
        }
        if (auto* x = dyn_cast<StringLiteral>(e))
        {
            auto o = mk("str", e);
            o["v"] = x->getCharByteWidth() == 1 ? json::fixUTF8(x->getString()) : std::string("?");
            return o;
        }
        if (isa<PredefinedExpr>(e)) { auto o = mk("str", e); o["v"] = "__func__"; return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return mk("null", e);
        if (auto* x = dyn_cast<SourceLocExpr>(e)) { auto o = mk("srcloc", e); return o; }
        if (auto* x = dyn_cast<DeclRefExpr>(e))
        {
            const ValueDecl* d = x->getDecl();
            if (auto* b = dyn_cast<BindingDecl>(d))
            {
                auto o = mk("var", e);
                o["id"] = vid(b);
                o["n"] = b->getNameAsString();
                return o;
            }
            if (auto* v = dyn_cast<VarDecl>(d))
            {
                // constexpr char arrays used as strings
                if (v->getType()->isArrayType() && v->getAnyInitializer())
                    if (auto* sl = dyn_cast<StringLiteral>(v->getAnyInitializer()->IgnoreParenImpCasts()))
                        if (v->getType().isConstQualified() || v->getType()->getAsArrayTypeUnsafe()->getElementType().isConstQualified())
                        {
                            auto o = mk("str", e);
                            o["v"] = json::fixUTF8(sl->getString());
                            o["n"] = qn(v);
                            return o;
                        }
                bool local = v->isLocalVarDeclOrParm() && !v->isStaticLocal();
                auto o = mk(local ? "var" : "gvar", e);
                if (local) o["id"] = vid(v);
                else o["key"] = usr(v->getCanonicalDecl());
                o["n"] = local ? v->getNameAsString() : qn(v);
                if (v->getType()->isReferenceType()) o["ref"] = true;
                return o;
            }
            if (auto* f = dyn_cast<FunctionDecl>(d))
            {
                auto o = mk("fnref", e);
                return callInfo(std::move(o), f);
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d))
            {
                auto o = mk("int", e);
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                o["v"] = s.str().str();
                o["n"] = qn(ec);
                return o;
            }
            auto o = mk("opq", e);
            o["n"] = d->getNameAsString();
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e))
        {
            const ValueDecl* d = x->getMemberDecl();
            if (auto* v = dyn_cast<VarDecl>(d))
            {
                auto o = mk("gvar", e);
                o["key"] = usr(v->getCanonicalDecl());
                o["n"] = qn(v);
                return o;
            }
            if (auto* f = dyn_cast<FunctionDecl>(d))
            {
                auto o = mk("fnref", e);
                return callInfo(std::move(o), f);
            }
            auto o = mk("mem", e);
            o["b"] = ex(x->getBase());
            o["a"] = x->isArrow();
            o["f"] = d->getNameAsString();
            if (auto* fd = dyn_cast<FieldDecl>(d)) { o["fc"] = qn(fd->getParent()); if (fd->getType()->isReferenceType()) o["ref"] = true; }
            return o;
        }
        if (isa<CXXThisExpr>(e)) return mk("this", e);
        if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e))
        {
            auto d = x->getDecomposedForm();
            auto o = mk("bin", e);
            o["op"] = BinaryOperator::getOpcodeStr(d.Opcode).str();
            o["a"] = ex(d.LHS);
            o["b"] = ex(d.RHS);
            o["rw"] = true;
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            auto o = mk("call", e);
            o["op"] = getOperatorSpelling(x->getOperator());
            Array as;
            for (auto* a : x->arguments()) as.push_back(ex(a));
            const FunctionDecl* f = x->getDirectCallee();
            if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic())
            {
                Value obj = as[0];
                Array rest;
                for (size_t i = 1; i < as.size(); ++i) rest.push_back(as[i]);
                o["obj"] = std::move(obj);
                o["args"] = std::move(rest);
                o["oc_t"] = typ(x->getArg(0)->getType());
            }
            else
            {
                o["args"] = std::move(as);
                if (x->getNumArgs()) o["oc_t"] = typ(x->getArg(0)->getType());
            }
            if (!f) o["calleeE"] = nullptr;
            return callInfo(std::move(o), f);
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e))
        {
            auto o = mk("call", e);
            auto* m = x->getMethodDecl();
            o["args"] = args(llvm::ArrayRef(x->getArgs(), x->getNumArgs()));
            if (auto* ob = x->getImplicitObjectArgument())
            {
                o["obj"] = ex(ob);
                o["oc_t"] = typ(ob->getType());
                if (ob->getType()->isPointerType()) o["arrow"] = true;
            }
            if (m && m->isVirtual())
            {
                auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
                if (!me || me->performsVirtualDispatch(C.getLangOpts())) o["virt"] = true;
            }
            if (m && isa<CXXConversionDecl>(m)) o["conv"] = true;
            return callInfo(std::move(o), m);
        }
        if (auto* x = dyn_cast<UserDefinedLiteral>(e))
        {
            auto o = mk("call", e);
            o["args"] = args(llvm::ArrayRef(x->getArgs(), x->getNumArgs()));
            o["udl"] = true;
            return callInfo(std::move(o), x->getDirectCallee());
        }
        if (auto* x = dyn_cast<CallExpr>(e))
        {
            auto o = mk("call", e);
            o["args"] = args(llvm::ArrayRef(x->getArgs(), x->getNumArgs()));
            const FunctionDecl* f = x->getDirectCallee();
            if (!f) o["callee"] = ex(x->getCallee());
            return callInfo(std::move(o), f);
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { return mk("opq", e); }
        if (auto* x = dyn_cast<CXXConstructExpr>(e))
        {
            auto* cd = x->getConstructor();
            // copy/move constructions are transparent, except that moves are marked
            if (cd->isCopyOrMoveConstructor() && x->getNumArgs() >= 1)
            {
                auto o = mk("copy", e);
                o["e"] = ex(x->getArg(0));
                if (cd->isMoveConstructor()) o["mv"] = true;
                o["oc"] = qn(cd->getParent());
                return o;
            }
            auto o = mk("new_", e);
            o["k"] = "ctor";
            Array as;
            for (unsigned i = 0; i < x->getNumArgs(); ++i) as.push_back(ex(x->getArg(i)));
            o["args"] = std::move(as);
            if (x->isListInitialization()) o["list"] = true;
            if (x->isStdInitListInitialization()) o["sil"] = true;
            if (!isa<CXXTemporaryObjectExpr>(x) && x->getParenOrBraceRange().isInvalid()) o["imp"] = true;
            if (cd->isTrivial()) o["triv"] = true;
            if (x->requiresZeroInitialization()) o["zi"] = true;
            return callInfo(std::move(o), cd);
        }
        if (auto* x = dyn_cast<CastExpr>(e))
        {
            switch (x->getCastKind())
            {
                case CK_IntegralCast:
                case CK_FloatingToIntegral:
                case CK_IntegralToFloating:
                case CK_IntegralToBoolean:
                case CK_FloatingToBoolean:
                case CK_PointerToBoolean:
                case CK_FloatingCast:
                case CK_BooleanToSignedIntegral:
                case CK_ToVoid:
                case CK_Dynamic:
                case CK_BitCast:
                case CK_BaseToDerived:
                case CK_IntegralToPointer:
                case CK_PointerToIntegral:
                case CK_ReinterpretMemberPointer:
                case CK_LValueBitCast:
                {
                    auto o = mk("cast", e);
                    o["ck"] = x->getCastKindName();
                    o["e"] = ex(x->getSubExpr());
                    o["ft"] = typ(x->getSubExpr()->getType());
                    return o;
                }
                default:
                    return ex(x->getSubExpr());
            }
        }
        if (auto* x = dyn_cast<UnaryOperator>(e))
        {
            auto o = mk("un", e);
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "p" + op;
            o["op"] = op;
            o["e"] = ex(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e))
        {
            auto o = mk("casg", e);
            std::string op = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["op"] = op.substr(0, op.size() - 1);
            o["a"] = ex(x->getLHS());
            o["b"] = ex(x->getRHS());
            return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e))
        {
            auto o = mk(x->isAssignmentOp() ? "asg" : "bin", e);
            o["op"] = x->getOpcodeStr().str();
            o["a"] = ex(x->getLHS());
            o["b"] = ex(x->getRHS());
            return o;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e))
        {
            auto o = mk("cond", e);
            o["c"] = ex(x->getCond());
            o["a"] = ex(x->getTrueExpr());
            o["b"] = ex(x->getFalseExpr());
            return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
        {
            auto o = mk("idx", e);
            o["b"] = ex(x->getBase());
            o["i"] = ex(x->getIdx());
            return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(e))
        {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            auto o = mk("ilist", e);
            o["e"] = argsR(x->inits());
            if (auto* rd = x->getType()->getAsCXXRecordDecl())
            {
                Array fs;
                for (unsigned i = 0; i < rd->getNumBases(); ++i) fs.push_back("<base>");
                for (auto* f : rd->fields()) fs.push_back(f->getNameAsString());
                if (!rd->isUnion()) o["fs"] = std::move(fs);
                o["rec"] = qn(rd);
            }
            else if (auto* at = C.getAsConstantArrayType(x->getType()))
            {
                o["n"] = (int64_t)at->getSize().getZExtValue();
                if (x->hasArrayFiller()) o["fill"] = ex(x->getArrayFiller());
            }
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) return lambda(x);
        if (auto* x = dyn_cast<CXXNewExpr>(e))
        {
            auto o = mk("new", e);
            if (x->getInitializer()) o["e"] = ex(x->getInitializer());
            else if (x->getConstructExpr()) o["e"] = ex(x->getConstructExpr());
            o["at"] = typ(x->getAllocatedType());
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e))
        {
            auto o = mk("delete", e);
            o["e"] = ex(x->getArgument());
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e))
        {
            auto o = mk("throw", e);
            if (x->getSubExpr()) { o["e"] = ex(x->getSubExpr()); o["et"] = typ(x->getSubExpr()->getType()); }
            return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return mk("zero", e);
        auto o = mk("opq", e);
        o["cls"] = e->getStmtClassName();
        Array ch;
        for (auto* c : e->children())
            if (auto* ce = dyn_cast_or_null<Expr>(c)) ch.push_back(ex(ce));
        o["ch"] = std::move(ch);
        return o;
    }

    Value lambda(const LambdaExpr* x)
    {
        auto o = mk("lambda", x);
        Array caps;
        for (auto& c : x->captures())
        {
            Object co;
            if (c.capturesThis()) { co["this"] = true; if (c.getCaptureKind() == LCK_StarThis) co["copy"] = true; }
            else if (c.capturesVariable())
            {
                auto* v = c.getCapturedVar();
                co["id"] = vid(v);
                co["n"] = v->getNameAsString();
                co["ref"] = c.getCaptureKind() == LCK_ByRef;
                if (auto* vd = dyn_cast<VarDecl>(v); vd && vd->isInitCapture()) co["init"] = ex(vd->getInit());
            }
            caps.push_back(std::move(co));
        }
        o["caps"] = std::move(caps);
        auto* op = x->getCallOperator();
        const FunctionDecl* use = op;
        if (x->isGenericLambda())
        {
            o["generic"] = true;
            if (auto* t = op->getDescribedFunctionTemplate())
            {
                const FunctionDecl* only = nullptr;
                int n = 0;
                for (auto* s : t->specializations()) { if (s->getBody()) { only = s; ++n; } }
                if (n >= 1) use = only;
            }
        }
        o["key"] = usr(op);
        o["params"] = params(use);
        o["body"] = st(use->getBody());
        o["file"] = file(x->getBeginLoc());
        o["ret"] = typ(use->getReturnType());
        return o;
    }

    Array params(const FunctionDecl* f)
    {
        Array ps;
        for (auto* p : f->parameters())
        {
            Object o{{"id", vid(p)}, {"n", p->getNameAsString()}, {"t", typ(p->getType())}, {"f", std::string(1, flag(p->getType()))}};
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
                o["dv"] = ex(p->getDefaultArg());
            ps.push_back(std::move(o));
        }
        return ps;
    }

    Value vardecl(const VarDecl* v)
    {
        Object o{{"k", "decl"}, {"n", v->getNameAsString()}, {"t", typ(v->getType())}, {"l", line(v->getLocation())}};
        if (v->isStaticLocal())
        {
            o["k"] = "sdecl";
            o["key"] = usr(v->getCanonicalDecl());
            globalVar(v);
        }
        else o["id"] = vid(v);
        if (v->getType()->isReferenceType()) o["ref"] = true;
        if (auto* at = C.getAsConstantArrayType(v->getType())) o["arr"] = (int64_t)at->getSize().getZExtValue();
        if (v->getInit()) o["init"] = ex(v->getInit());
        if (v->getInit() && v->getInitStyle() != VarDecl::CInit) o["direct"] = true;
        if (auto* dd = dyn_cast<DecompositionDecl>(v))
        {
            o["k"] = "decomp";
            Array bs;
            int i = 0;
            for (auto* b : dd->bindings())
            {
                Object bo{{"id", vid(b)}, {"n", b->getNameAsString()}, {"i", i++}};
                if (auto* me = dyn_cast_or_null<MemberExpr>(b->getBinding() ? b->getBinding()->IgnoreParenImpCasts() : nullptr))
                    if (!b->getHoldingVar()) bo["f"] = me->getMemberDecl()->getNameAsString();
                bs.push_back(std::move(bo));
            }
            o["bs"] = std::move(bs);
        }
        return o;
    }

    Array stList(const Stmt* s)
    {
        Array r;
        if (!s) return r;
        if (auto* c = dyn_cast<CompoundStmt>(s)) { for (auto* x : c->body()) r.push_back(st(x)); }
        else r.push_back(st(s));
        return r;
    }

    Value st(const Stmt* s)
    {
        if (!s) return nullptr;
        auto L = line(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s))
        {
            Array b;
            for (auto* c : x->body()) b.push_back(st(c));
            return Object{{"k", "blk"}, {"b", std::move(b)}, {"l", L}, {"e", line(s->getEndLoc())}};
        }
        if (auto* x = dyn_cast<DeclStmt>(s))
        {
            Array b;
            for (auto* d : x->decls())
                if (auto* v = dyn_cast<VarDecl>(d)) b.push_back(vardecl(v));
            return Object{{"k", "decls"}, {"b", std::move(b)}, {"l", L}};
        }
        if (auto* x = dyn_cast<IfStmt>(s))
        {
            Object o{{"k", "if"}, {"l", L}};
            if (x->getInit()) o["init"] = st(x->getInit());
            if (x->getConditionVariableDeclStmt()) o["cv"] = st(x->getConditionVariableDeclStmt());
            if (x->isConstexpr())
            {
                if (auto nd = x->getNondiscardedCase(C))
                {
                    Array b;
                    if (x->getInit()) b.push_back(st(x->getInit()));
                    if (*nd) b.push_back(st(*nd));
                    return Object{{"k", "blk"}, {"b", std::move(b)}, {"l", L}, {"ce", true}};
                }
            }
            o["c"] = ex(x->getCond());
            o["th"] = st(x->getThen());
            if (x->getElse()) o["el"] = st(x->getElse());
            return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s))
        {
            Object o{{"k", "while"}, {"l", L}};
            if (x->getConditionVariableDeclStmt()) o["cv"] = st(x->getConditionVariableDeclStmt());
            o["c"] = ex(x->getCond());
            o["b"] = st(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) return Object{{"k", "do"}, {"l", L}, {"c", ex(x->getCond())}, {"b", st(x->getBody())}};
        if (auto* x = dyn_cast<ForStmt>(s))
        {
            Object o{{"k", "for"}, {"l", L}};
            if (x->getInit()) o["init"] = st(x->getInit());
            if (x->getConditionVariableDeclStmt()) o["cv"] = st(x->getConditionVariableDeclStmt());
            if (x->getCond()) o["c"] = ex(x->getCond());
            if (x->getInc()) o["inc"] = ex(x->getInc());
            o["b"] = st(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s))
        {
            Object o{{"k", "rfor"}, {"l", L}};
            if (x->getInit()) o["init"] = st(x->getInit());
            auto* rv = dyn_cast<VarDecl>(cast<DeclStmt>(x->getRangeStmt())->getSingleDecl());
            o["r"] = ex(rv->getInit());
            o["rt"] = typ(rv->getInit()->getType());
            o["v"] = vardecl(x->getLoopVariable());
            o["b"] = st(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s))
        {
            Object o{{"k", "switch"}, {"l", L}};
            if (x->getInit()) o["init"] = st(x->getInit());
            if (x->getConditionVariableDeclStmt()) o["cv"] = st(x->getConditionVariableDeclStmt());
            o["c"] = ex(x->getCond());
            o["b"] = st(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CaseStmt>(s))
            return Object{{"k", "case"}, {"l", L}, {"v", ex(x->getLHS())}, {"s", st(x->getSubStmt())}};
        if (auto* x = dyn_cast<DefaultStmt>(s)) return Object{{"k", "default"}, {"l", L}, {"s", st(x->getSubStmt())}};
        if (auto* x = dyn_cast<ReturnStmt>(s))
        {
            Object o{{"k", "ret"}, {"l", L}};
            if (x->getRetValue()) o["e"] = ex(x->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(s)) return Object{{"k", "break"}, {"l", L}};
        if (isa<ContinueStmt>(s)) return Object{{"k", "cont"}, {"l", L}};
        if (isa<NullStmt>(s)) return Object{{"k", "blk"}, {"b", Array{}}, {"l", L}};
        if (auto* x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
        if (auto* x = dyn_cast<LabelStmt>(s)) return Object{{"k", "opqs"}, {"l", L}, {"s", st(x->getSubStmt())}};
        if (auto* x = dyn_cast<CXXTryStmt>(s))
        {
            Array cs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i)
            {
                auto* h = x->getHandler(i);
                Object c;
                c["t"] = h->getCaughtType().isNull() ? Value("...") : Value(h->getCaughtType().getNonReferenceType().getUnqualifiedType().getCanonicalType().getAsString(PP));
                if (h->getExceptionDecl()) { c["id"] = vid(h->getExceptionDecl()); c["n"] = h->getExceptionDecl()->getNameAsString(); }
                c["b"] = st(h->getHandlerBlock());
                c["l"] = line(h->getBeginLoc());
                cs.push_back(std::move(c));
            }
            return Object{{"k", "try"}, {"l", L}, {"b", st(x->getTryBlock())}, {"cs", std::move(cs)}};
        }
        if (auto* x = dyn_cast<Expr>(s)) return Object{{"k", "ex"}, {"l", L}, {"e", ex(x)}};
        return Object{{"k", "opqs"}, {"l", L}, {"cls", s->getStmtClassName()}};
    }

    void globalVar(const VarDecl* v)
    {
        auto k = usr(v->getCanonicalDecl());
        if (!inRepo(v->getLocation())) return;
        if (auto* d = v->getDefinition()) v = d;
        else if (!v->isThisDeclarationADefinition()) return;
        if (v->getDeclContext()->isDependentContext()) return;
        if (!seenGlob.insert(k).second) return;
        Object o{{"key", k}, {"n", qn(v)}, {"t", typ(v->getType())}, {"file", file(v->getLocation())}, {"l", line(v->getLocation())}};
        if (v->getInit() && !v->getInit()->isValueDependent()) o["init"] = ex(v->getInit());
        if (v->isStaticLocal()) o["sl"] = true;
        if (v->getType().isConstQualified() || v->isConstexpr()) o["const"] = true;
        globals.push_back(std::move(o));
    }

    bool VisitVarDecl(VarDecl* v)
    {
        if (v->isLocalVarDeclOrParm()) return true;
        if (isa<ParmVarDecl>(v) || !v->hasGlobalStorage()) return true;
        if (inRepo(v->getLocation())) globalVar(v);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (!inRepo(e->getLocation()) || !e->isThisDeclarationADefinition()) return true;
        Array es;
        for (auto* c : e->enumerators())
        {
            llvm::SmallString<32> s;
            c->getInitVal().toString(s, 10);
            es.push_back(Object{{"n", qn(c)}, {"v", s.str().str()}});
        }
        enums.push_back(Object{{"n", qn(e)}, {"e", std::move(es)}});
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isLambda() || r->isDependentContext()) return true;
        if (!inRepo(r->getLocation())) return true;
        auto k = usr(r);
        if (!seenRec.insert(k).second) return true;
        Object o{{"key", k}, {"n", qn(r)}, {"file", file(r->getLocation())}, {"l", line(r->getLocation())}};
        Array bs;
        for (auto& b : r->bases())
            if (auto* bd = b.getType()->getAsCXXRecordDecl()) bs.push_back(qn(bd));
        o["bases"] = std::move(bs);
        Array fs;
        for (auto* f : r->fields())
        {
            Object fo{{"n", f->getNameAsString()}, {"t", typ(f->getType())}, {"l", line(f->getLocation())}};
            if (f->getInClassInitializer()) fo["init"] = ex(f->getInClassInitializer());
            if (f->isMutable()) fo["mut"] = true;
            if (f->getType()->isReferenceType()) fo["ref"] = true;
            if (auto* at = C.getAsConstantArrayType(f->getType())) fo["arr"] = (int64_t)at->getSize().getZExtValue();
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array ms;
        for (auto* m : r->methods())
        {
            if (m->isImplicit() && !isa<CXXDestructorDecl>(m)) continue;
            Object mo{{"n", m->getNameAsString()}, {"key", usr(m)}, {"virt", m->isVirtual()}, {"pure", m->isPureVirtual()}, {"const", m->isConst()}};
            Array ov;
            for (auto* x : m->overridden_methods()) ov.push_back(usr(x));
            mo["ov"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        o["agg"] = r->isAggregate();
        recs.push_back(std::move(o));
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->isThisDeclarationADefinition() || f->isDependentContext()) return true;
        if (f->isDeleted()) return true;
        if (!inRepo(f->getLocation())) return true;
        auto* m = dyn_cast<CXXMethodDecl>(f);
        if (m && m->getParent()->isLambda()) return true;
        if (!f->hasBody() && !isa<CXXConstructorDecl>(f)) return true;
        if (f->isImplicit()) return true;
        auto k = usr(f);
        if (!seenFn.insert(k).second) return true;
        Object o{{"key", k}, {"n", qn(f)}, {"file", file(f->getLocation())}, {"l", line(f->getLocation())}};
        o["e"] = line(f->getEndLoc());
        if (m)
        {
            o["cls"] = qn(m->getParent());
            if (m->isVirtual()) o["virt"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
            Array ov;
            for (auto* x : m->overridden_methods()) ov.push_back(usr(x));
            o["ov"] = std::move(ov);
        }
        if (auto* ta = f->getTemplateSpecializationArgs()) o["ta"] = argStr(ta);
        o["params"] = params(f);
        o["ret"] = typ(f->getReturnType());
        if (f->isDefaulted()) o["defaulted"] = true;
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
        {
            o["kind"] = "ctor";
            Array is;
            for (auto* i : c->inits())
            {
                Object io{{"l", line(i->getSourceLocation())}, {"w", i->isWritten()}};
                if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
                else if (i->isDelegatingInitializer()) io["del"] = true;
                else if (i->getBaseClass()) io["b"] = i->getBaseClass()->getAsCXXRecordDecl() ? qn(i->getBaseClass()->getAsCXXRecordDecl()) : "?";
                io["e"] = ex(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
        else o["kind"] = m ? "method" : "fn";
        if (f->getBody()) o["body"] = st(f->getBody());
        fns.push_back(std::move(o));
        return true;
    }
};

static int gErrors = 0;
struct Consumer : ASTConsumer
{
    CompilerInstance& CI;
    Consumer(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        Dumper d(ctx);
        d.TraverseDecl(ctx.getTranslationUnitDecl());
        Object o;
        o["fns"] = std::move(d.fns);
        o["recs"] = std::move(d.recs);
        o["globals"] = std::move(d.globals);
        o["enums"] = std::move(d.enums);
        o["types"] = std::move(d.types);
        gErrors = CI.getDiagnostics().getClient()->getNumErrors();
        o["errors"] = gErrors;
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << json::Value(std::move(o));
    }
};
struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override
    {
        return std::make_unique<Consumer>(ci);
    }
};
int main(int argc, const char** argv)
{
    // pidx ROOT OUT FILE FLAGS...
    gRoot = argv[1];
    gOut = argv[2];
    std::string f = argv[3];
    std::vector<std::string> flags(argv + 4, argv + argc);
    tooling::FixedCompilationDatabase db(gRoot, flags);
    tooling::ClangTool tool(db, {f});
    tool.run(tooling::newFrontendActionFactory<Action>().get());
    return 0;
}
