// mcx : fact extractor over the type-checked program (clang 18 libTooling).
// For every function with a body below one of the --root prefixes it writes one JSON line holding the
// clang CFG of the function, every CFG element being an expression tree whose callees, fields, variables and types
// are resolved.  Records, enums and initialised global variables are written as well.
// Nothing of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace clang;

static std::vector<std::string> Roots;
static std::vector<std::string> Skips;
static llvm::raw_ostream *OS = nullptr;
static std::unordered_map<std::string, int> Intern;
static std::unordered_set<std::string> SeenFn, SeenRec, SeenEnum, SeenVar, SeenDeclOnly;
static unsigned NbErrors = 0, NbFns = 0;

static std::string
esc(llvm::StringRef s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}

static int
intern(const std::string &s)
{
    auto it = Intern.find(s);
    if (it != Intern.end())
        return it->second;
    int n = (int)Intern.size();
    Intern[s] = n;
    *OS << "{\"k\":\"S\",\"v\":" << esc(s) << "}\n";
    return n;
}

class Emit
{
   public:
    ASTContext &C;
    PrintingPolicy PP;
    Emit(ASTContext &c) : C(c), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
        PP.TerseOutput = true;
    }
    std::string typeStr(QualType t)
    {
        if (t.isNull())
            return "?";
        return t.getCanonicalType().getAsString(PP);
    }
    int ty(QualType t) { return intern(typeStr(t)); }
    std::string file(SourceLocation l)
    {
        l = C.getSourceManager().getExpansionLoc(l);
        auto p = C.getSourceManager().getPresumedLoc(l);
        if (p.isInvalid())
            return "";
        std::string f = p.getFilename();
        llvm::SmallString<256> s(f);
        return f;
    }
    std::string realFile(SourceLocation l)
    {
        l = C.getSourceManager().getExpansionLoc(l);
        auto fid = C.getSourceManager().getFileID(l);
        auto fe = C.getSourceManager().getFileEntryRefForID(fid);
        if (!fe)
            return "";
        llvm::StringRef rp = fe->getFileEntry().tryGetRealPathName();
        if (!rp.empty())
            return rp.str();
        return fe->getName().str();
    }
    unsigned line(SourceLocation l)
    {
        l = C.getSourceManager().getExpansionLoc(l);
        return C.getSourceManager().getExpansionLineNumber(l);
    }
    bool inRoot(SourceLocation l)
    {
        if (l.isInvalid())
            return false;
        std::string f = realFile(l);
        for (auto &r : Skips)
            if (f.compare(0, r.size(), r) == 0)
                return false;
        for (auto &r : Roots)
            if (f.compare(0, r.size(), r) == 0)
                return true;
        return false;
    }
    std::string declName(const NamedDecl *d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return s;
    }
    // class-qualified name including template arguments
    std::string ctxName(const DeclContext *dc)
    {
        if (!dc || dc->isTranslationUnit())
            return "";
        if (dc->isInlineNamespace())
            return ctxName(dc->getParent());
        if (auto *r = dyn_cast<CXXRecordDecl>(dc))
        {
            if (r->isLambda())
                return ctxName(dc->getParent()) + "(lambda@" + std::to_string(line(r->getBeginLoc())) + ":" +
                       std::to_string(C.getSourceManager().getExpansionColumnNumber(r->getBeginLoc())) + ")::";
            return typeStr(C.getRecordType(r)) + "::";
        }
        if (auto *ns = dyn_cast<NamespaceDecl>(dc))
            return ctxName(dc->getParent()) + (ns->isAnonymousNamespace() ? "(anon)" : ns->getNameAsString()) + "::";
        if (auto *f = dyn_cast<FunctionDecl>(dc))
            return fnName(f) + "::";
        return ctxName(dc->getParent());
    }
    std::map<const FunctionDecl *, std::string> fnCache;
    std::string fnName(const FunctionDecl *f)
    {
        f = f->getCanonicalDecl();
        auto it = fnCache.find(f);
        if (it != fnCache.end())
            return it->second;
        std::string s = ctxName(f->getDeclContext());
        if (isa<CXXConstructorDecl>(f))
            s += cast<CXXRecordDecl>(f->getParent())->getNameAsString();
        else if (isa<CXXDestructorDecl>(f))
            s += "~" + cast<CXXRecordDecl>(f->getParent())->getNameAsString();
        else
            s += f->getNameAsString();
        if (auto *ta = f->getTemplateSpecializationArgs())
        {
            s += "<";
            bool first = true;
            for (auto &a : ta->asArray())
            {
                if (!first)
                    s += ", ";
                first = false;
                std::string b;
                llvm::raw_string_ostream os(b);
                a.print(PP, os, true);
                s += b;
            }
            s += ">";
        }
        s += "(";
        for (unsigned i = 0; i < f->getNumParams(); i++)
        {
            if (i)
                s += ", ";
            s += typeStr(f->getParamDecl(i)->getType());
        }
        s += ")";
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (m->isConst())
                s += " const";
        if (f->getFormalLinkage() == Linkage::Internal && !isa<CXXMethodDecl>(f))
            s += "@" + realFile(f->getLocation());
        return fnCache[f] = s;
    }
    int fnId(const FunctionDecl *f)
    {
        std::string n = fnName(f);
        declOnly(f, n);
        return intern(n);
    }
    // signature facts of callees (also external ones)
    void declOnly(const FunctionDecl *f, const std::string &n)
    {
        if (!SeenDeclOnly.insert(n).second)
            return;
        int id = intern(n);
        std::string s = "{\"k\":\"D\",\"f\":" + std::to_string(id);
        s += sig(f);
        s += "}\n";
        *OS << s;
    }
    std::string sig(const FunctionDecl *f)
    {
        std::string s;
        s += ",\"rt\":" + std::to_string(ty(f->getReturnType()));
        s += ",\"nm\":" + esc(f->getNameAsString());
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
        {
            s += ",\"cls\":" + std::to_string(ty(C.getRecordType(m->getParent())));
            if (m->isConst())
                s += ",\"const\":1";
            if (m->isStatic())
                s += ",\"static\":1";
            if (m->isVirtual())
                s += ",\"virt\":1";
            if (m->isPureVirtual())
                s += ",\"pure\":1";
            if (isa<CXXConstructorDecl>(m))
            {
                s += ",\"ctor\":1";
                auto *c = cast<CXXConstructorDecl>(m);
                if (c->isCopyConstructor())
                    s += ",\"cctor\":1";
            }
            if (isa<CXXDestructorDecl>(m))
                s += ",\"dtor\":1";
            if (m->size_overridden_methods())
            {
                s += ",\"ov\":[";
                bool first = true;
                for (auto *o : m->overridden_methods())
                {
                    if (!first)
                        s += ",";
                    first = false;
                    s += std::to_string(intern(fnName(o)));
                }
                s += "]";
            }
            const CXXRecordDecl *r = m->getParent();
            if (r->isLambda())
                s += ",\"lambda\":1";
        }
        s += ",\"acc\":" + std::to_string((int)f->getAccess());
        if (f->isImplicit() || f->isDefaulted())
            s += ",\"impl\":1";
        if (f->isNoReturn())
            s += ",\"noret\":1";
        {
            auto *fpt = f->getType()->getAs<FunctionProtoType>();
            if (fpt && fpt->getExceptionSpecType() != EST_Unevaluated &&
                fpt->getExceptionSpecType() != EST_Uninstantiated && fpt->getExceptionSpecType() != EST_Unparsed &&
                fpt->getExceptionSpecType() != EST_DependentNoexcept && fpt->canThrow() == CT_Cannot)
                s += ",\"nothrow\":1";
        }
        s += ",\"file\":" + std::to_string(intern(realFile(f->getLocation())));
        s += ",\"ps\":[";
        for (unsigned i = 0; i < f->getNumParams(); i++)
        {
            if (i)
                s += ",";
            auto *p = f->getParamDecl(i);
            s += "[" + esc(p->getNameAsString()) + "," + std::to_string(ty(p->getType())) + "," +
                 (p->hasDefaultArg() ? "1" : "0") + "]";
        }
        s += "]";
        return s;
    }
};

class FnEmitter
{
   public:
    Emit &E;
    ASTContext &C;
    const FunctionDecl *F;
    std::map<const VarDecl *, int> vars;
    std::vector<std::string> varDefs;
    std::unordered_map<const Stmt *, int> elemOf;  // already emitted as element
    std::vector<const LambdaExpr *> lambdas;
    FnEmitter(Emit &e, const FunctionDecl *f) : E(e), C(e.C), F(f) {}

    int var(const VarDecl *v)
    {
        v = v->getCanonicalDecl();
        auto it = vars.find(v);
        if (it != vars.end())
            return it->second;
        int n = (int)vars.size();
        vars[v] = n;
        std::string k = isa<ParmVarDecl>(v) ? "p" : (v->isStaticLocal() ? "s" : "l");
        if (v->getDeclContext() != F && !v->getDeclContext()->Encloses(const_cast<FunctionDecl *>(F)))
            ;
        varDefs.push_back(
            "[" + esc(v->getNameAsString()) + "," + std::to_string(E.ty(v->getType())) + ",\"" + k + "\"," +
            std::to_string(E.line(v->getLocation())) + "]"
        );
        return n;
    }

    static const Expr *skip(const Expr *e)
    {
        for (;;)
        {
            if (auto *p = dyn_cast<ParenExpr>(e))
                e = p->getSubExpr();
            else if (auto *p = dyn_cast<ExprWithCleanups>(e))
                e = p->getSubExpr();
            else if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e))
                e = p->getSubExpr();
            else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e))
                e = p->getSubExpr();
            else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
                e = p->getReplacement();
            else if (auto *p = dyn_cast<ConstantExpr>(e))
                e = p->getSubExpr();
            else if (auto *p = dyn_cast<FullExpr>(e))
                e = p->getSubExpr();
            else if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e))
                e = p->getSubExpr();
            else if (auto *p = dyn_cast<ImplicitCastExpr>(e))
            {
                switch (p->getCastKind())
                {
                    case CK_LValueToRValue:
                    case CK_NoOp:
                    case CK_FunctionToPointerDecay:
                    case CK_ArrayToPointerDecay:
                    case CK_ConstructorConversion:
                    case CK_UserDefinedConversion:
                        e = p->getSubExpr();
                        continue;
                    default:
                        return e;
                }
            }
            else
                return e;
        }
    }
    static const Stmt *skipS(const Stmt *s)
    {
        if (auto *e = dyn_cast<Expr>(s))
            return skip(e);
        return s;
    }

    std::string x(const Stmt *s0, bool top = false)
    {
        if (!s0)
            return "null";
        const Stmt *s = s0;
        if (auto *e = dyn_cast<Expr>(s))
            s = skip(e);
        if (!top)
        {
            // any wrapper of it may have been registered
            auto it = elemOf.find(s);
            if (it != elemOf.end())
                return "[\"r\"," + std::to_string(it->second) + "]";
        }
        return xx(s);
    }
    std::string args(llvm::iterator_range<CallExpr::const_arg_iterator> r)
    {
        std::string o = "[";
        bool first = true;
        for (auto *a : r)
        {
            if (!first)
                o += ",";
            first = false;
            o += x(a);
        }
        return o + "]";
    }
    std::string intval(const llvm::APSInt &v)
    {
        llvm::SmallString<40> s;
        v.toString(s, 10);
        return std::string(s.str());
    }
    std::string callee(const Expr *fnExpr, const FunctionDecl *fd)
    {
        if (fd)
            return std::to_string(E.fnId(fd));
        return "null";
    }
    std::string xx(const Stmt *s)
    {
        switch (s->getStmtClass())
        {
            case Stmt::IntegerLiteralClass:
            {
                auto *e = cast<IntegerLiteral>(s);
                llvm::APSInt v(e->getValue(), !e->getType()->isSignedIntegerOrEnumerationType());
                return "[\"i\"," + intval(v) + "]";
            }
            case Stmt::CharacterLiteralClass:
                return "[\"i\"," + std::to_string(cast<CharacterLiteral>(s)->getValue()) + "]";
            case Stmt::CXXBoolLiteralExprClass:
                return cast<CXXBoolLiteralExpr>(s)->getValue() ? "[\"i\",1]" : "[\"i\",0]";
            case Stmt::FloatingLiteralClass:
            {
                llvm::SmallString<40> b;
                cast<FloatingLiteral>(s)->getValue().toString(b, 0, 0);
                return "[\"f\"," + esc(b) + "]";
            }
            case Stmt::StringLiteralClass:
            {
                auto *e = cast<StringLiteral>(s);
                if (e->getCharByteWidth() == 1)
                    return "[\"s\"," + esc(e->getString()) + "]";
                return "[\"s\",\"?\"]";
            }
            case Stmt::PredefinedExprClass:
                return "[\"s\",\"__func__\"]";
            case Stmt::CXXThisExprClass:
                return "[\"this\"]";
            case Stmt::CXXNullPtrLiteralExprClass:
            case Stmt::GNUNullExprClass:
                return "[\"null\"]";
            case Stmt::DeclRefExprClass:
            {
                auto *d = cast<DeclRefExpr>(s)->getDecl();
                if (auto *v = dyn_cast<VarDecl>(d))
                {
                    if (v->isLocalVarDeclOrParm())
                        return "[\"v\"," + std::to_string(var(v)) + "]";
                    return "[\"g\"," + std::to_string(intern(E.ctxName(v->getDeclContext()) + v->getNameAsString())) +
                           "]";
                }
                if (auto *f = dyn_cast<FunctionDecl>(d))
                    return "[\"fn\"," + std::to_string(E.fnId(f)) + "]";
                if (auto *ec = dyn_cast<EnumConstantDecl>(d))
                    return "[\"e\"," + esc(ec->getNameAsString()) + "," + intval(ec->getInitVal()) + "]";
                if (auto *b = dyn_cast<BindingDecl>(d))
                    return b->getBinding() ? x(b->getBinding()) : "[\"?\",\"binding\"]";
                return "[\"?\",\"declref\"]";
            }
            case Stmt::MemberExprClass:
            {
                auto *e = cast<MemberExpr>(s);
                auto *d = e->getMemberDecl();
                if (auto *f = dyn_cast<FieldDecl>(d))
                    return "[\"m\"," + x(e->getBase()) + "," +
                           std::to_string(intern(E.ctxName(f->getDeclContext()) + f->getNameAsString())) + "," +
                           (e->isArrow() ? "1" : "0") + "]";
                if (auto *v = dyn_cast<VarDecl>(d))
                    return "[\"g\"," + std::to_string(intern(E.ctxName(v->getDeclContext()) + v->getNameAsString())) +
                           "]";
                if (auto *f = dyn_cast<FunctionDecl>(d))
                    return "[\"bm\"," + std::to_string(E.fnId(f)) + "," + x(e->getBase()) + "]";
                if (auto *ec = dyn_cast<EnumConstantDecl>(d))
                    return "[\"e\"," + esc(ec->getNameAsString()) + "," + intval(ec->getInitVal()) + "]";
                return "[\"?\",\"member\"]";
            }
            case Stmt::CXXMemberCallExprClass:
            {
                auto *e = cast<CXXMemberCallExpr>(s);
                auto *md = e->getMethodDecl();
                std::string base = e->getImplicitObjectArgument() ? x(e->getImplicitObjectArgument()) : "null";
                bool qual = false, arrow = false;
                if (auto *me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens()))
                {
                    qual = me->hasQualifier();
                    arrow = me->isArrow();
                }
                if (!md)
                    return "[\"cp\"," + x(e->getCallee()) + "," + args(e->arguments()) + "]";
                // static type of the object expression, useful with virtual calls
                QualType ot = e->getImplicitObjectArgument()->IgnoreParenImpCasts()->getType();
                if (ot->isPointerType())
                    ot = ot->getPointeeType();
                return "[\"c\"," + std::to_string(E.fnId(md)) + "," + args(e->arguments()) + "," + base + "," +
                       (qual ? "1" : "0") + "," + std::to_string(E.ty(ot)) + "," + std::to_string(E.line(e->getExprLoc())) +
                       "]";
            }
            case Stmt::CXXOperatorCallExprClass:
            {
                auto *e = cast<CXXOperatorCallExpr>(s);
                auto *fd = dyn_cast_or_null<FunctionDecl>(e->getCalleeDecl());
                if (!fd)
                    return "[\"cp\"," + x(e->getCallee()) + "," + args(e->arguments()) + "]";
                if (auto *md = dyn_cast<CXXMethodDecl>(fd))
                    if (!md->isStatic())
                    {
                        std::string o = "[";
                        for (unsigned i = 1; i < e->getNumArgs(); i++)
                        {
                            if (i > 1)
                                o += ",";
                            o += x(e->getArg(i));
                        }
                        o += "]";
                        QualType ot = e->getArg(0)->IgnoreParenImpCasts()->getType();
                        return "[\"c\"," + std::to_string(E.fnId(fd)) + "," + o + "," + x(e->getArg(0)) + ",0," +
                               std::to_string(E.ty(ot)) + "," + std::to_string(E.line(e->getExprLoc())) + "]";
                    }
                return "[\"c\"," + std::to_string(E.fnId(fd)) + "," + args(e->arguments()) + ",null,0,null," +
                       std::to_string(E.line(e->getExprLoc())) + "]";
            }
            case Stmt::UserDefinedLiteralClass:
            case Stmt::CallExprClass:
            {
                auto *e = cast<CallExpr>(s);
                auto *fd = dyn_cast_or_null<FunctionDecl>(e->getCalleeDecl());
                if (!fd)
                    return "[\"cp\"," + x(e->getCallee()) + "," + args(e->arguments()) + "]";
                return "[\"c\"," + std::to_string(E.fnId(fd)) + "," + args(e->arguments()) + ",null,0,null," +
                       std::to_string(E.line(e->getExprLoc())) + "]";
            }
            case Stmt::CXXTemporaryObjectExprClass:
            case Stmt::CXXConstructExprClass:
            {
                auto *e = cast<CXXConstructExpr>(s);
                // elide copies of temporaries
                if (e->isElidable() && e->getNumArgs() == 1)
                    return x(e->getArg(0));
                std::string o = "[";
                bool first = true;
                for (auto *a : e->arguments())
                {
                    if (!first)
                        o += ",";
                    first = false;
                    o += x(a);
                }
                o += "]";
                return "[\"k\"," + std::to_string(E.fnId(e->getConstructor())) + "," + o + "," +
                       std::to_string(E.ty(e->getType())) + "," + std::to_string(E.line(e->getExprLoc())) + "]";
            }
            case Stmt::CXXInheritedCtorInitExprClass:
                return "[\"k\"," + std::to_string(E.fnId(cast<CXXInheritedCtorInitExpr>(s)->getConstructor())) + ",[]," +
                       std::to_string(E.ty(cast<Expr>(s)->getType())) + ",0]";
            case Stmt::CXXNewExprClass:
            {
                auto *e = cast<CXXNewExpr>(s);
                std::string init = e->getInitializer() ? x(e->getInitializer()) : "null";
                std::string sz =
                    e->isArray() && e->getArraySize() && *e->getArraySize() ? x(*e->getArraySize()) : "null";
                return "[\"new\"," + std::to_string(E.ty(e->getAllocatedType())) + "," + (e->isArray() ? "1" : "0") +
                       "," + init + "," + sz + "," + (e->getNumPlacementArgs() ? "1" : "0") + "]";
            }
            case Stmt::CXXDeleteExprClass:
            {
                auto *e = cast<CXXDeleteExpr>(s);
                return std::string("[\"del\",") + (e->isArrayForm() ? "1" : "0") + "," + x(e->getArgument()) + "]";
            }
            case Stmt::UnaryOperatorClass:
            {
                auto *e = cast<UnaryOperator>(s);
                std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
                if (e->isPostfix())
                    op = "p" + op;
                return "[\"u\"," + esc(op) + "," + x(e->getSubExpr()) + "]";
            }
            case Stmt::CompoundAssignOperatorClass:
            case Stmt::BinaryOperatorClass:
            {
                auto *e = cast<BinaryOperator>(s);
                return "[\"b\"," + esc(e->getOpcodeStr()) + "," + x(e->getLHS()) + "," + x(e->getRHS()) + "," +
                       std::to_string(E.ty(e->getType())) + "]";
            }
            case Stmt::ConditionalOperatorClass:
            {
                auto *e = cast<ConditionalOperator>(s);
                return "[\"?:\"," + x(e->getCond()) + "," + x(e->getTrueExpr()) + "," + x(e->getFalseExpr()) + "]";
            }
            case Stmt::ArraySubscriptExprClass:
            {
                auto *e = cast<ArraySubscriptExpr>(s);
                return "[\"x\"," + x(e->getBase()) + "," + x(e->getIdx()) + "," + std::to_string(E.ty(e->getType())) +
                       "]";
            }
            case Stmt::ImplicitCastExprClass:
            case Stmt::CStyleCastExprClass:
            case Stmt::CXXFunctionalCastExprClass:
            case Stmt::CXXStaticCastExprClass:
            case Stmt::CXXDynamicCastExprClass:
            case Stmt::CXXConstCastExprClass:
            case Stmt::CXXReinterpretCastExprClass:
            {
                auto *e = cast<CastExpr>(s);
                std::string k;
                switch (s->getStmtClass())
                {
                    case Stmt::ImplicitCastExprClass:
                        k = "i";
                        break;
                    case Stmt::CStyleCastExprClass:
                    case Stmt::CXXFunctionalCastExprClass:
                        k = "C";
                        break;
                    case Stmt::CXXStaticCastExprClass:
                        k = "s";
                        break;
                    case Stmt::CXXDynamicCastExprClass:
                        k = "d";
                        break;
                    case Stmt::CXXConstCastExprClass:
                        k = "c";
                        break;
                    default:
                        k = "r";
                }
                if (e->getCastKind() == CK_NullToPointer)
                    return "[\"null\"]";
                // a conversion function / constructor below an explicit cast is the real node
                if (k != "i" && (e->getCastKind() == CK_ConstructorConversion))
                    return x(e->getSubExpr());
                return "[\"cast\",\"" + k + "\"," + esc(e->getCastKindName()) + "," + std::to_string(E.ty(e->getType())) +
                       "," + x(e->getSubExpr()) + "," + std::to_string(E.ty(e->getSubExpr()->getType())) + "," +
                       std::to_string(E.line(e->getExprLoc())) + "]";
            }
            case Stmt::InitListExprClass:
            {
                auto *e = cast<InitListExpr>(s);
                if (e->isSemanticForm() == false && e->getSemanticForm())
                    e = e->getSemanticForm();
                std::string o = "[";
                bool first = true;
                for (auto *a : e->inits())
                {
                    if (!first)
                        o += ",";
                    first = false;
                    o += x(a);
                }
                std::string fill = "";
                return "[\"il\"," + o + "]," + std::to_string(E.ty(e->getType())) + "]";
            }
            case Stmt::ImplicitValueInitExprClass:
            case Stmt::CXXScalarValueInitExprClass:
                return "[\"i\",0]";
            case Stmt::CXXDefaultArgExprClass:
                return x(cast<CXXDefaultArgExpr>(s)->getExpr());
            case Stmt::CXXDefaultInitExprClass:
                return x(cast<CXXDefaultInitExpr>(s)->getExpr());
            case Stmt::UnaryExprOrTypeTraitExprClass:
            {
                auto *e = cast<UnaryExprOrTypeTraitExpr>(s);
                return "[\"sz\"," + std::to_string(E.ty(e->getTypeOfArgument())) + "]";
            }
            case Stmt::LambdaExprClass:
            {
                auto *e = cast<LambdaExpr>(s);
                lambdas.push_back(e);
                std::string caps = "[";
                bool first = true;
                for (auto &c : e->captures())
                {
                    if (!first)
                        caps += ",";
                    first = false;
                    if (c.capturesThis())
                        caps += "[\"this\"]";
                    else if (c.capturesVariable() && isa<VarDecl>(c.getCapturedVar()))
                        caps += "[\"cap\"," + std::to_string(var(cast<VarDecl>(c.getCapturedVar()))) + "," +
                                (c.getCaptureKind() == LCK_ByRef ? "1" : "0") + "]";
                    else
                        caps += "null";
                }
                caps += "]";
                return "[\"lam\"," + std::to_string(intern(E.fnName(e->getCallOperator()))) + "," + caps + "]";
            }
            case Stmt::CXXThrowExprClass:
            {
                auto *e = cast<CXXThrowExpr>(s);
                if (!e->getSubExpr())
                    return "[\"thr\",null,null]";
                return "[\"thr\"," + x(e->getSubExpr()) + "," + std::to_string(E.ty(e->getSubExpr()->getType())) + "]";
            }
            case Stmt::ReturnStmtClass:
            {
                auto *e = cast<ReturnStmt>(s);
                return "[\"ret\"," + (e->getRetValue() ? x(e->getRetValue()) : std::string("null")) + "]";
            }
            case Stmt::DeclStmtClass:
            {
                std::string o = "[\"decl\"";
                for (auto *d : cast<DeclStmt>(s)->decls())
                    if (auto *v = dyn_cast<VarDecl>(d))
                    {
                        std::string init = v->getInit() ? x(v->getInit()) : "null";
                        o += ",[" + std::to_string(var(v)) + "," + init + "]";
                    }
                return o + "]";
            }
            case Stmt::CXXTypeidExprClass:
                return "[\"tid\"]";
            case Stmt::CXXNoexceptExprClass:
            case Stmt::TypeTraitExprClass:
            case Stmt::SizeOfPackExprClass:
                return "[\"?\",\"trait\"]";
            case Stmt::OpaqueValueExprClass:
                if (cast<OpaqueValueExpr>(s)->getSourceExpr())
                    return x(cast<OpaqueValueExpr>(s)->getSourceExpr());
                return "[\"?\",\"opaque\"]";
            case Stmt::ArrayInitLoopExprClass:
            {
                auto *e = cast<ArrayInitLoopExpr>(s);
                return "[\"ail\"," + x(e->getCommonExpr()->getSourceExpr()) + "]";
            }
            default:
            {
                std::string o = std::string("[\"?\",\"") + s->getStmtClassName() + "\"";
                for (auto *c : s->children())
                    if (c)
                        o += "," + x(c);
                return o + "]";
            }
        }
    }

    std::string emit()
    {
        CFG::BuildOptions BO;
        BO.AddEHEdges = true;
        BO.AddInitializers = true;
        BO.AddImplicitDtors = false;
        BO.AddTemporaryDtors = false;
        BO.PruneTriviallyFalseEdges = false;
        BO.AddCXXNewAllocator = false;
        const FunctionDecl *def = F;
        for (auto *p : def->parameters()) var(p);
        std::unique_ptr<CFG> cfg = CFG::buildCFG(def, def->getBody(), &C, BO);
        std::string o;
        if (!cfg)
        {
            return ",\"nocfg\":1";
        }
        // number the elements in an order where sub-elements come first: reverse post order is not needed since
        // references are only to sub expressions; register all of them first.
        std::vector<std::pair<const CFGBlock *, std::vector<std::pair<int, std::string>>>> res;
        int n = 0;
        std::map<std::pair<const CFGBlock *, unsigned>, int> ids;
        for (auto *B : *cfg)
        {
            unsigned i = 0;
            for (auto &el : *B)
            {
                if (auto cs = el.getAs<CFGStmt>())
                {
                    elemOf[skipS(cs->getStmt())] = n;
                    ids[{B, i}] = n++;
                }
                else if (el.getAs<CFGInitializer>())
                    ids[{B, i}] = n++;
                i++;
            }
        }
        std::string els = ",\"els\":[";
        bool firstE = true;
        std::string blocks = ",\"bl\":[";
        bool firstB = true;
        for (auto *B : *cfg)
        {
            std::string elist = "[";
            bool fe = true;
            unsigned i = 0;
            for (auto &el : *B)
            {
                std::string ex;
                unsigned ln = 0;
                int id = -1;
                if (auto cs = el.getAs<CFGStmt>())
                {
                    id = ids[{B, i}];
                    const Stmt *st = skipS(cs->getStmt());
                    ln = E.line(cs->getStmt()->getBeginLoc());
                    if (elemOf[st] != id)
                        ex = "[\"r\"," + std::to_string(elemOf[st]) + "]";
                    else
                        ex = x(st, true);
                }
                else if (auto ci = el.getAs<CFGInitializer>())
                {
                    id = ids[{B, i}];
                    auto *in = ci->getInitializer();
                    ln = E.line(in->getSourceLocation());
                    if (in->isAnyMemberInitializer())
                    {
                        auto *f = in->getAnyMember();
                        ex = "[\"finit\"," +
                             std::to_string(intern(E.ctxName(f->getDeclContext()) + f->getNameAsString())) + "," +
                             x(in->getInit()) + "," + (in->isWritten() ? "1" : "0") + "]";
                    }
                    else
                        ex = "[\"binit\"," + std::to_string(E.ty(C.getTypeDeclType(
                                 in->isBaseInitializer()
                                     ? (const TypeDecl *)in->getBaseClass()->getAsCXXRecordDecl()
                                     : (const TypeDecl *)cast<CXXConstructorDecl>(F)->getParent()
                             ))) +
                             "," + x(in->getInit()) + "," + (in->isWritten() ? "1" : "0") + "]";
                }
                else
                {
                    i++;
                    continue;
                }
                i++;
                if (!firstE)
                    els += ",";
                firstE = false;
                els += "[" + std::to_string(id) + "," + std::to_string(ln) + "," + ex + "]";
                if (!fe)
                    elist += ",";
                fe = false;
                elist += std::to_string(id);
            }
            elist += "]";
            std::string term = "null";
            if (const Stmt *t = B->getTerminatorStmt())
            {
                std::string cond = "null";
                if (const Stmt *tc = B->getTerminatorCondition(false))
                    cond = x(tc);
                std::string k = t->getStmtClassName();
                if (auto *bo = dyn_cast<BinaryOperator>(t))
                    k = bo->getOpcodeStr().str();
                term = "[\"" + k + "\"," + cond + "," + std::to_string(E.line(t->getBeginLoc())) + "]";
            }
            std::string label = "null";
            if (const Stmt *l = B->getLabel())
            {
                if (auto *cse = dyn_cast<CaseStmt>(l))
                {
                    Expr::EvalResult r;
                    std::string v = "null", nm = "null";
                    if (cse->getLHS()->EvaluateAsInt(r, C))
                        v = intval(r.Val.getInt());
                    std::string v2 = v;
                    Expr::EvalResult r2;
                    if (cse->getRHS() && cse->getRHS()->EvaluateAsInt(r2, C))
                        v2 = intval(r2.Val.getInt());
                    if (auto *dr = dyn_cast<DeclRefExpr>(cse->getLHS()->IgnoreParenImpCasts()))
                        nm = esc(dr->getDecl()->getNameAsString());
                    label = "[\"case\"," + v + "," + v2 + "," + nm + "]";
                }
                else if (isa<DefaultStmt>(l))
                    label = "[\"default\"]";
                else if (auto *cs = dyn_cast<CXXCatchStmt>(l))
                {
                    label = "[\"catch\"," +
                            (cs->getExceptionDecl() ? std::to_string(E.ty(cs->getExceptionDecl()->getType()))
                                                    : std::string("null")) +
                            "]";
                    if (cs->getExceptionDecl())
                        var(cs->getExceptionDecl());
                }
                else if (isa<LabelStmt>(l))
                    label = "[\"label\"]";
            }
            std::string succ = "[";
            bool fs = true;
            for (auto &a : B->succs())
            {
                if (!fs)
                    succ += ",";
                fs = false;
                if (const CFGBlock *r = a.getReachableBlock())
                    succ += std::to_string(r->getBlockID());
                else if (const CFGBlock *r = a.getPossiblyUnreachableBlock())
                    succ += std::to_string(r->getBlockID());
                else
                    succ += "null";
            }
            succ += "]";
            if (!firstB)
                blocks += ",";
            firstB = false;
            blocks += "[" + std::to_string(B->getBlockID()) + "," + elist + "," + term + "," + succ + "," + label + "," +
                      (B->hasNoReturnElement() ? "1" : "0") + "]";
        }
        els += "]";
        blocks += "]";
        o += els + blocks + ",\"en\":" + std::to_string(cfg->getEntry().getBlockID()) +
             ",\"ex\":" + std::to_string(cfg->getExit().getBlockID());
        o += ",\"vars\":[";
        for (size_t i = 0; i < varDefs.size(); i++) o += (i ? "," : "") + varDefs[i];
        o += "]";
        return o;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
   public:
    Emit E;
    Visitor(ASTContext &c) : E(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    void emitFn(const FunctionDecl *f)
    {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || f->isInvalidDecl())
            return;
        if (!f->getBody())
            return;
        const DeclContext *dc = f->getDeclContext();
        SourceLocation loc = f->getBody()->getBeginLoc();
        if (loc.isInvalid())
            loc = f->getLocation();
        if (!E.inRoot(loc) && !E.inRoot(f->getLocation()))
            return;
        std::string n = E.fnName(f);
        if (!SeenFn.insert(n).second)
            return;
        NbFns++;
        int id = E.fnId(f);
        FnEmitter fe(E, f);
        std::string body = fe.emit();
        std::string s = "{\"k\":\"F\",\"f\":" + std::to_string(id);
        s += E.sig(f);
        std::string bf = E.realFile(loc);
        s += ",\"bfile\":" + std::to_string(intern(bf));
        s += ",\"line\":" + std::to_string(E.line(f->getLocation()));
        s += ",\"eline\":" + std::to_string(E.line(f->getBody()->getEndLoc()));
        if (f->isTemplateInstantiation())
            s += ",\"tinst\":1";
        s += body + "}\n";
        *OS << s;
        for (auto *l : fe.lambdas)
            emitLambda(l);
    }
    void emitLambda(const LambdaExpr *l)
    {
        const CXXMethodDecl *op = l->getCallOperator();
        if (op->isDependentContext())
        {
            return;
        }
        if (l->isGenericLambda())
        {
            if (auto *ft = l->getDependentCallOperator())
                for (auto *sp : ft->specializations())
                    if (sp->getBody())
                        emitFn(sp);
            return;
        }
        emitFn(op);
    }
    bool VisitFunctionDecl(FunctionDecl *f)
    {
        emitFn(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (!r->isCompleteDefinition() || r->isDependentContext() || r->isLambda())
            return true;
        if (!E.inRoot(r->getLocation()))
            return true;
        std::string n = E.typeStr(E.C.getRecordType(r));
        if (!SeenRec.insert(n).second)
            return true;
        std::string s = "{\"k\":\"R\",\"n\":" + std::to_string(intern(n)) +
                        ",\"file\":" + std::to_string(intern(E.realFile(r->getLocation()))) +
                        ",\"line\":" + std::to_string(E.line(r->getLocation())) + ",\"bases\":[";
        bool first = true;
        for (auto &b : r->bases())
        {
            if (!first)
                s += ",";
            first = false;
            s += std::to_string(E.ty(b.getType()));
        }
        s += "],\"fields\":[";
        first = true;
        for (auto *f : r->fields())
        {
            if (!first)
                s += ",";
            first = false;
            s += "[" + std::to_string(intern(E.ctxName(f->getDeclContext()) + f->getNameAsString())) + "," +
                 std::to_string(E.ty(f->getType())) + "," + (f->isMutable() ? "1" : "0") + "," +
                 std::to_string((int)f->getAccess()) + "," + std::to_string(E.line(f->getLocation())) + "]";
        }
        s += "],\"ms\":[";
        first = true;
        for (auto *m : r->methods())
        {
            int id = E.fnId(m);
            if (!first)
                s += ",";
            first = false;
            s += std::to_string(id);
        }
        s += "]";
        if (r->isAbstract())
            s += ",\"abs\":1";
        s += "}\n";
        *OS << s;
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e)
    {
        if (!e->isCompleteDefinition() || !E.inRoot(e->getLocation()) || e->isDependentContext())
            return true;
        std::string n = E.typeStr(E.C.getEnumType(e));
        if (!SeenEnum.insert(n).second)
            return true;
        std::string s = "{\"k\":\"E\",\"n\":" + std::to_string(intern(n)) +
                        ",\"file\":" + std::to_string(intern(E.realFile(e->getLocation()))) +
                        ",\"line\":" + std::to_string(E.line(e->getLocation())) + ",\"cs\":[";
        bool first = true;
        for (auto *c : e->enumerators())
        {
            if (!first)
                s += ",";
            first = false;
            llvm::SmallString<40> b;
            c->getInitVal().toString(b, 10);
            s += "[" + esc(c->getNameAsString()) + "," + std::string(b.str()) + "]";
        }
        s += "]}\n";
        *OS << s;
        return true;
    }
    bool VisitVarDecl(VarDecl *v)
    {
        if (v->isLocalVarDeclOrParm() || !v->getInit() || v->getDeclContext()->isDependentContext())
            return true;
        if (!E.inRoot(v->getLocation()) || v->isInvalidDecl())
            return true;
        if (isa<VarTemplateSpecializationDecl>(v) || v->getInit()->isValueDependent() || v->getInit()->isTypeDependent())
            return true;
        std::string n = E.ctxName(v->getDeclContext()) + v->getNameAsString();
        if (!SeenVar.insert(n).second)
            return true;
        FnEmitter fe(E, nullptr);
        std::string in = fe.x(v->getInit());
        std::string s = "{\"k\":\"V\",\"n\":" + std::to_string(intern(n)) + ",\"t\":" +
                        std::to_string(E.ty(v->getType())) + ",\"file\":" +
                        std::to_string(intern(E.realFile(v->getLocation()))) + ",\"line\":" +
                        std::to_string(E.line(v->getLocation())) + ",\"init\":" + in + "}\n";
        *OS << s;
        return true;
    }
};

class Consumer : public ASTConsumer
{
   public:
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (C.getDiagnostics().hasErrorOccurred())
            NbErrors++;
        Visitor v(C);
        v.TraverseDecl(C.getTranslationUnitDecl());
        auto &sm = C.getSourceManager();
        // the list of project files this unit is made of
        std::string s = "{\"k\":\"U\",\"files\":[";
        bool first = true;
        for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it)
        {
            std::string f = it->first.getFileEntry().tryGetRealPathName().str();
            bool ok = false;
            for (auto &r : Roots)
                if (f.compare(0, r.size(), r) == 0)
                    ok = true;
            if (!ok)
                continue;
            if (!first)
                s += ",";
            first = false;
            s += esc(f);
        }
        *OS << s << "],\"err\":" << (C.getDiagnostics().hasErrorOccurred() ? 1 : 0) << "}\n";
    }
};

class Action : public ASTFrontendAction
{
   public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

int
main(int argc, const char **argv)
{
    // mcx OUT --root=P --skip=P file... -- flags
    std::vector<std::string> files, flags;
    std::string out;
    bool inFlags = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if (inFlags)
            flags.push_back(a);
        else if (a == "--")
            inFlags = true;
        else if (a.rfind("--root=", 0) == 0)
            Roots.push_back(a.substr(7));
        else if (a.rfind("--skip=", 0) == 0)
            Skips.push_back(a.substr(7));
        else if (out.empty())
            out = a;
        else
            files.push_back(a);
    }
    std::error_code ec;
    llvm::raw_fd_ostream fo(out, ec);
    if (ec)
        return 3;
    OS = &fo;
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, files);
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    fo << "{\"k\":\"END\",\"errors\":" << NbErrors << ",\"fns\":" << NbFns << "}\n";
    fo.close();
    llvm::errs() << "mcx: " << files.size() << " files, " << NbFns << " functions, errors in " << NbErrors
                 << " units, rc " << rc << "\n";
    return NbErrors ? 2 : 0;
}
