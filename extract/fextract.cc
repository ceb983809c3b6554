// fextract: dumps the resolved (template-instantiated) syntax trees of all
// functions defined below a root directory as JSON lines.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/Builtins.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Frontend/CompilerInvocation.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("fextract");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("directory whose code is exported"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::desc("output"), llvm::cl::init("-"), llvm::cl::cat(Cat));

namespace {

class Exporter : public RecursiveASTVisitor<Exporter>
{
public:
    Exporter(ASTContext& C, llvm::raw_ostream& OS)
    : Ctx(C), SM(C.getSourceManager()), OS(OS), PP(C.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.SuppressUnwrittenScope = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.TerseOutput = true;
        PP.PolishForDeclaration = true;
        PP.AnonymousTagLocations = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    bool VisitFunctionDecl(FunctionDecl* FD)
    {
        if (FD->isDependentContext()) return true;
        if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return true;
        if (!FD->isThisDeclarationADefinition()) return true;
        if (!inRoot(fnLoc(FD))) return true;
        if (!Done.insert(FD->getCanonicalDecl()).second) return true;
        emitFunction(FD);
        return true;
    }

    static SourceLocation recLoc(const CXXRecordDecl* RD)
    {
        if (auto* P = RD->getTemplateInstantiationPattern()) return P->getLocation();
        return RD->getLocation();
    }

    // the implicit members of an explicitly instantiated class have the place of the instantiation
    static SourceLocation fnLoc(const FunctionDecl* FD)
    {
        if (FD->isImplicit())
            if (auto* MD = dyn_cast<CXXMethodDecl>(FD))
                return recLoc(MD->getParent());
        return FD->getLocation();
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* RD)
    {
        if (!RD->isThisDeclarationADefinition() || RD->isDependentContext()) return true;
        if (!inRoot(recLoc(RD))) return true;
        if (!DoneRec.insert(RD->getCanonicalDecl()).second) return true;
        emitRecord(RD);
        return true;
    }

    bool VisitVarDecl(VarDecl* VD)
    {
        if (VD->getDeclContext()->isDependentContext() || !VD->hasGlobalStorage()) return true;
        if (VD->isTemplated()) return true;
        if (!inRoot(VD->getLocation())) return true;
        if (!DoneVar.insert(VD->getCanonicalDecl()).second) return true;
        Object o;
        o["kind"] = "global";
        o["name"] = VD->getQualifiedNameAsString();
        o["id"] = did(VD);
        o["type"] = ty(VD->getType());
        o["const"] = VD->getType().isConstQualified();
        o["constexpr"] = VD->isConstexpr();
        o["inline"] = VD->isInline();
        o["staticLocal"] = VD->isStaticLocal();
        o["staticMember"] = VD->isStaticDataMember();
        o["inst"] = isInstantiated(VD);
        o["linkage"] = (int) VD->getFormalLinkage();
        o["def"] = VD->isThisDeclarationADefinition() == VarDecl::Definition;
        putLoc(o, VD->getLocation());
        if (VD->hasInit()) o["init"] = expr(VD->getInit());
        line(std::move(o));
        return true;
    }

    // index of templates (pattern declarations): used for overload inventories
    bool VisitFunctionTemplateDecl(FunctionTemplateDecl* TD)
    {
        if (!inRoot(TD->getLocation())) return true;
        Object o;
        o["kind"] = "template";
        o["name"] = TD->getQualifiedNameAsString();
        o["hasBody"] = TD->getTemplatedDecl()->hasBody();
        Array ps;
        for (auto* P : TD->getTemplatedDecl()->parameters())
            ps.push_back(Object{{"name", P->getNameAsString()}, {"type", P->getType().getAsString(PP)}});
        o["params"] = std::move(ps);
        std::size_t n = 0;
        for (auto* S : TD->specializations()) { (void)S; n++; }
        o["numInst"] = (int64_t) n;
        putLoc(o, TD->getLocation());
        line(std::move(o));
        return true;
    }

private:
    ASTContext& Ctx;
    SourceManager& SM;
    llvm::raw_ostream& OS;
    PrintingPolicy PP;
    std::set<const Decl*> Done, DoneRec, DoneVar;
    std::map<const Decl*, int> Ids;

    void line(Object o) { OS << Value(std::move(o)) << "\n"; }

    bool inRoot(SourceLocation L)
    {
        if (L.isInvalid()) return false;
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        for (auto& R : Roots)
            if (F.starts_with(R)) return true;
        return false;
    }

    static bool isInstantiated(const VarDecl* VD)
    {
        auto k = VD->getTemplateSpecializationKind();
        return k == TSK_ImplicitInstantiation || k == TSK_ExplicitInstantiationDefinition;
    }

    int idOf(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = Ids.find(D);
        if (it != Ids.end()) return it->second;
        int n = (int) Ids.size() + 1;
        Ids[D] = n;
        return n;
    }
    std::string did(const Decl* D) { return "d" + std::to_string(idOf(D)); }

    std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }
    // type with cv and references removed
    std::string tyv(QualType T) { return T.getNonReferenceType().getCanonicalType().getUnqualifiedType().getAsString(PP); }

    void putLoc(Object& o, SourceLocation L)
    {
        if (L.isInvalid()) return;
        L = SM.getExpansionLoc(L);
        o["file"] = SM.getFilename(L).str();
        o["line"] = (int64_t) SM.getExpansionLineNumber(L);
    }
    void el(Object& o, const Stmt* S)
    {
        auto L = SM.getExpansionLoc(S->getBeginLoc());
        if (L.isValid()) o["l"] = (int64_t) SM.getExpansionLineNumber(L);
    }

    std::string templArgs(const TemplateArgumentList* L)
    {
        if (!L) return "";
        std::string s;
        llvm::raw_string_ostream os(s);
        printTemplateArgumentList(os, L->asArray(), PP);
        return os.str();
    }

    std::string qname(const NamedDecl* ND)
    {
        if (auto* MD = dyn_cast<CXXMethodDecl>(ND))
        {
            auto* P = MD->getParent();
            if (P->isLambda()) return "lambda#" + did(P) + "::" + MD->getNameAsString();
            return tyv(Ctx.getRecordType(P)) + "::" + MD->getDeclName().getAsString();
        }
        return ND->getQualifiedNameAsString();
    }
    // name without template arguments of enclosing classes
    std::string bname(const NamedDecl* ND)
    {
        if (auto* MD = dyn_cast<CXXMethodDecl>(ND))
        {
            auto* P = MD->getParent();
            if (P->isLambda()) return "lambda::" + MD->getNameAsString();
            if (isa<CXXConstructorDecl>(MD)) return P->getQualifiedNameAsString() + "::" + P->getNameAsString();
            if (isa<CXXDestructorDecl>(MD)) return P->getQualifiedNameAsString() + "::~";
            return P->getQualifiedNameAsString() + "::" + MD->getDeclName().getAsString();
        }
        return ND->getQualifiedNameAsString();
    }

    Object fnRef(const FunctionDecl* FD)
    {
        Object o;
        const FunctionDecl* Def = nullptr;
        FD->getBody(Def);
        o["id"] = did(FD);
        o["q"] = qname(FD);
        o["b"] = bname(FD);
        if (auto* A = FD->getTemplateSpecializationArgs()) o["ta"] = templArgs(A);
        Array ps;
        for (auto* P : FD->parameters()) ps.push_back(ty(P->getType()));
        o["pt"] = std::move(ps);
        o["rt"] = ty(FD->getReturnType());
        o["repo"] = inRoot(fnLoc(FD));
        if (auto* MD = dyn_cast<CXXMethodDecl>(FD))
        {
            o["m"] = true;
            if (MD->isConst()) o["const"] = true;
            if (MD->isStatic()) o["static"] = true;
            if (MD->isVirtual()) o["virtual"] = true;
        }
        return o;
    }

    void emitFunction(const FunctionDecl* FD)
    {
        Object o = fnRef(FD);
        o["kind"] = "fn";
        putLoc(o, fnLoc(FD));
        o["inline"] = FD->isInlined();
        o["constexpr"] = FD->isConstexpr();
        o["inst"] = FD->isTemplateInstantiation();
        o["linkage"] = (int) FD->getFormalLinkage();
        o["implicit"] = FD->isImplicit();
        o["defaulted"] = FD->isDefaulted();
        o["deleted"] = FD->isDeleted();
        o["explicitspec"] = FD->getTemplateSpecializationKind() == TSK_ExplicitSpecialization;
        if (auto* Pat = FD->getTemplateInstantiationPattern()) o["patline"] = (int64_t) SM.getExpansionLineNumber(Pat->getLocation());
        Array ps;
        for (auto* P : FD->parameters())
        {
            Object p{{"id", did(P)}, {"name", P->getNameAsString()}, {"type", ty(P->getType())}};
            if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() && P->getDefaultArg())
                p["def"] = expr(P->getDefaultArg());
            else if (P->hasDefaultArg()) p["hasdef"] = true;
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (auto* MD = dyn_cast<CXXMethodDecl>(FD))
        {
            auto* P = MD->getParent();
            o["cls"] = did(P);
            o["clsname"] = tyv(Ctx.getRecordType(P));
            o["clsq"] = P->getQualifiedNameAsString();
            o["lambda"] = P->isLambda();
            o["access"] = (int) MD->getAccess();
        }
        if (auto* CD = dyn_cast<CXXConstructorDecl>(FD))
        {
            o["ctor"] = true;
            if (CD->isCopyConstructor()) o["copy"] = true;
            if (CD->isMoveConstructor()) o["move"] = true;
            o["delegating"] = CD->isDelegatingConstructor();
            Array in;
            for (auto* I : CD->inits())
            {
                Object i;
                if (I->isAnyMemberInitializer())
                { i["field"] = did(I->getAnyMember()); i["name"] = I->getAnyMember()->getNameAsString(); }
                else if (I->isBaseInitializer()) i["base"] = tyv(QualType(I->getBaseClass(), 0));
                else i["delegate"] = true;
                i["written"] = I->isWritten();
                if (I->getInit()) i["init"] = expr(I->getInit());
                in.push_back(std::move(i));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(FD)) o["dtor"] = true;
        if (FD->hasBody()) o["body"] = stmt(FD->getBody());
        line(std::move(o));
    }

    void emitRecord(const CXXRecordDecl* RD)
    {
        Object o;
        o["kind"] = "rec";
        o["id"] = did(RD);
        o["name"] = tyv(Ctx.getRecordType(RD));
        o["q"] = RD->getQualifiedNameAsString();
        putLoc(o, recLoc(RD));
        o["lambda"] = RD->isLambda();
        Array bs;
        for (auto& B : RD->bases()) bs.push_back(tyv(B.getType()));
        o["bases"] = std::move(bs);
        Array fs;
        for (auto* F : RD->fields())
        {
            Object f{{"id", did(F)}, {"name", F->getNameAsString()}, {"type", ty(F->getType())}, {"access", (int) F->getAccess()}};
            if (F->isMutable()) f["mutable"] = true;
            if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
            f["line"] = (int64_t) SM.getExpansionLineNumber(F->getLocation());
            fs.push_back(std::move(f));
        }
        o["fields"] = std::move(fs);
        o["abstract"] = RD->isAbstract();
        o["trivDefault"] = RD->hasTrivialDefaultConstructor();
        Array ms;
        for (auto* M : RD->methods())
        {
            Object m = fnRef(M);
            m["access"] = (int) M->getAccess();
            m["name"] = M->getNameAsString();
            m["pure"] = M->isPureVirtual();
            m["implicit"] = M->isImplicit();
            m["deleted"] = M->isDeleted();
            ms.push_back(std::move(m));
        }
        o["methods"] = std::move(ms);
        line(std::move(o));
    }

    // ------------------------------------------------------------------ stmts
    Value stmtOrNull(const Stmt* S) { return S ? stmt(S) : Value(nullptr); }

    Value varDecl(const VarDecl* V)
    {
        Object v{{"id", did(V)}, {"name", V->getNameAsString()}, {"type", ty(V->getType())}};
        v["line"] = (int64_t) SM.getExpansionLineNumber(V->getLocation());
        if (V->isStaticLocal()) v["static"] = true;
        if (V->hasInit()) v["init"] = expr(V->getInit());
        if (V->isConstexpr() || (V->hasInit() && V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType()))
            if (auto* ev = const_cast<VarDecl*>(V)->evaluateValue())
                if (ev->isInt()) v["cv"] = ev->getInt().getExtValue();
        if (auto* DD = dyn_cast<DecompositionDecl>(V))
        {
            Array bs;
            for (auto* B : DD->bindings())
            {
                Object b{{"id", did(B)}, {"name", B->getNameAsString()}};
                if (auto* HV = B->getHoldingVar()) { b["hv"] = did(HV); if (HV->hasInit()) b["hinit"] = expr(HV->getInit()); }
                else if (B->getBinding()) b["e"] = expr(B->getBinding());
                bs.push_back(std::move(b));
            }
            v["bindings"] = std::move(bs);
        }
        return v;
    }

    Value stmt(const Stmt* S)
    {
        Object o;
        if (!S) return nullptr;
        if (auto* E = dyn_cast<Expr>(S)) { Object x{{"k", "expr"}, {"e", expr(E)}}; el(x, S); return x; }
        el(o, S);
        if (auto* C = dyn_cast<CompoundStmt>(S))
        {
            o["k"] = "block";
            Array a;
            for (auto* c : C->body()) a.push_back(stmt(c));
            o["s"] = std::move(a);
        }
        else if (auto* D = dyn_cast<DeclStmt>(S))
        {
            o["k"] = "decl";
            Array a;
            for (auto* d : D->decls())
                if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
            o["v"] = std::move(a);
        }
        else if (auto* I = dyn_cast<IfStmt>(S))
        {
            o["k"] = "if";
            if (I->getInit()) o["init"] = stmt(I->getInit());
            if (I->getConditionVariableDeclStmt()) o["cvar"] = stmt(I->getConditionVariableDeclStmt());
            o["constexpr"] = I->isConstexpr();
            o["c"] = expr(I->getCond());
            o["t"] = stmtOrNull(I->getThen());
            o["f"] = stmtOrNull(I->getElse());
        }
        else if (auto* W = dyn_cast<WhileStmt>(S))
        {
            o["k"] = "while";
            if (W->getConditionVariableDeclStmt()) o["cvar"] = stmt(W->getConditionVariableDeclStmt());
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
        }
        else if (auto* W = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); }
        else if (auto* F = dyn_cast<ForStmt>(S))
        {
            o["k"] = "for";
            o["init"] = stmtOrNull(F->getInit());
            if (F->getCond()) o["c"] = expr(F->getCond());
            if (F->getInc()) o["inc"] = expr(F->getInc());
            o["b"] = stmt(F->getBody());
        }
        else if (auto* F = dyn_cast<CXXForRangeStmt>(S))
        {
            o["k"] = "rfor";
            o["v"] = varDecl(F->getLoopVariable());
            o["r"] = expr(F->getRangeInit());
            o["b"] = stmt(F->getBody());
        }
        else if (auto* R = dyn_cast<ReturnStmt>(S)) { o["k"] = "return"; if (R->getRetValue()) o["e"] = expr(R->getRetValue()); }
        else if (isa<BreakStmt>(S)) o["k"] = "break";
        else if (isa<ContinueStmt>(S)) o["k"] = "continue";
        else if (isa<NullStmt>(S)) o["k"] = "null";
        else if (auto* W = dyn_cast<SwitchStmt>(S))
        {
            o["k"] = "switch";
            if (W->getInit()) o["init"] = stmt(W->getInit());
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
        }
        else if (auto* C = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["v"] = expr(C->getLHS()); o["s"] = stmt(C->getSubStmt()); }
        else if (auto* C = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["s"] = stmt(C->getSubStmt()); }
        else if (auto* T = dyn_cast<CXXTryStmt>(S))
        {
            o["k"] = "try";
            o["b"] = stmt(T->getTryBlock());
            Array a;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i)
            {
                Object h;
                auto* H = T->getHandler(i);
                if (H->getExceptionDecl()) h["v"] = varDecl(H->getExceptionDecl());
                h["b"] = stmt(H->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
        }
        else if (auto* A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
        else if (auto* L = dyn_cast<LabelStmt>(S)) return stmt(L->getSubStmt());
        else { o["k"] = "unknown"; o["cls"] = S->getStmtClassName(); }
        return o;
    }

    // ------------------------------------------------------------------ exprs
    Value cvOf(const Expr* E)
    {
        if (E->isValueDependent() || E->isTypeDependent()) return nullptr;
        QualType T = E->getType();
        if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return nullptr;
        Expr::EvalResult R;
        if (E->EvaluateAsRValue(R, Ctx) && !R.HasSideEffects)
        {
            if (R.Val.isInt()) return R.Val.getInt().getExtValue();
            if (R.Val.isFloat())
            {
                bool li;
                auto f = R.Val.getFloat();
                f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
                double d = f.convertToDouble();
                if (d == d && d < 1e300 && d > -1e300) return d;
            }
        }
        return nullptr;
    }

    Array args(llvm::ArrayRef<const Expr*> as)
    {
        Array a;
        for (auto* e : as) a.push_back(expr(e));
        return a;
    }

    Value expr(const Expr* E)
    {
        if (!E) return nullptr;
        // transparent wrappers
        if (auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E))
        {
            Object o; o["k"] = "stdinit"; o["t"] = tyv(E->getType()); o["e"] = expr(X->getSubExpr()); el(o, E); return o;
        }
        if (auto* X = dyn_cast<CXXDefaultInitExpr>(E))
        {
            Object o; o["k"] = "definit"; o["t"] = tyv(E->getType()); o["e"] = expr(X->getExpr()); el(o, E); return o;
        }
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E))
        {
            Object o; o["k"] = "defarg"; o["t"] = tyv(E->getType()); o["e"] = expr(X->getExpr()); el(o, E);
            o["p"] = X->getParam()->getNameAsString(); return o;
        }
        if (auto* X = dyn_cast<PackExpansionExpr>(E)) return expr(X->getPattern());

        Object o;
        o["t"] = tyv(E->getType());
        el(o, E);

        if (auto* C = dyn_cast<CastExpr>(E))
        {
            switch (C->getCastKind())
            {
                case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
                case CK_BuiltinFnToFnPtr: case CK_ArrayToPointerDecay: case CK_UserDefinedConversion:
                case CK_ConstructorConversion: case CK_ToVoid:
                    return expr(C->getSubExpr());
                default: break;
            }
            o["k"] = "cast";
            o["ck"] = C->getCastKindName();
            o["imp"] = isa<ImplicitCastExpr>(C);
            o["e"] = expr(C->getSubExpr());
            auto cv = cvOf(E);
            if (cv.kind() != Value::Null) o["cv"] = std::move(cv);
            return o;
        }
        if (auto* L = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; o["v"] = L->getValue().getLimitedValue(); return o; }
        if (auto* L = dyn_cast<FloatingLiteral>(E)) { o["k"] = "float"; o["v"] = L->getValueAsApproximateDouble(); return o; }
        if (auto* L = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = L->getValue(); return o; }
        if (auto* L = dyn_cast<CharacterLiteral>(E)) { o["k"] = "char"; o["v"] = L->getValue(); return o; }
        if (auto* L = dyn_cast<clang::StringLiteral>(E))
        { o["k"] = "str"; if (L->getCharByteWidth() == 1 && llvm::json::isUTF8(L->getBytes())) o["v"] = L->getBytes().str(); return o; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return o; }
        if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return o; }
        if (auto* D = dyn_cast<DeclRefExpr>(E))
        {
            auto* VD = D->getDecl();
            o["k"] = "ref";
            o["id"] = did(VD);
            o["n"] = VD->getNameAsString();
            if (auto* FD = dyn_cast<FunctionDecl>(VD)) { o["rk"] = "fn"; o["f"] = fnRef(FD); }
            else if (isa<ParmVarDecl>(VD)) o["rk"] = "param";
            else if (auto* V = dyn_cast<VarDecl>(VD))
            {
                o["rk"] = V->hasGlobalStorage() ? "global" : "var";
                if (V->hasGlobalStorage()) o["q"] = V->getQualifiedNameAsString();
                auto cv = cvOf(E);
                if (cv.kind() != Value::Null) o["cv"] = std::move(cv);
            }
            else if (isa<EnumConstantDecl>(VD)) { o["rk"] = "enum"; o["q"] = VD->getQualifiedNameAsString(); }
            else if (auto* BD = dyn_cast<BindingDecl>(VD))
            {
                o["rk"] = "binding";
                if (BD->getHoldingVar()) o["hv"] = did(BD->getHoldingVar());
                else if (BD->getBinding()) o["e"] = expr(BD->getBinding());
            }
            else o["rk"] = "other";
            return o;
        }
        if (auto* M = dyn_cast<MemberExpr>(E))
        {
            auto* MD = M->getMemberDecl();
            if (auto* FD = dyn_cast<FunctionDecl>(MD)) { o["k"] = "mref"; o["f"] = fnRef(FD); o["o"] = expr(M->getBase()); return o; }
            o["k"] = "member";
            o["n"] = MD->getNameAsString();
            o["id"] = did(MD);
            o["arrow"] = M->isArrow();
            o["o"] = expr(M->getBase());
            if (auto* V = dyn_cast<VarDecl>(MD))
            { o["rk"] = "global"; auto cv = cvOf(E); if (cv.kind() != Value::Null) o["cv"] = std::move(cv); (void)V; }
            return o;
        }
        if (auto* C = dyn_cast<CXXMemberCallExpr>(E))
        {
            o["k"] = "call";
            auto* ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens());
            if (auto* MD = C->getMethodDecl())
            {
                o["f"] = fnRef(MD);
                o["o"] = expr(C->getImplicitObjectArgument());
                if (ME && ME->isArrow()) o["arrow"] = true;
            }
            else o["callee"] = expr(C->getCallee());
            o["a"] = args(llvm::ArrayRef(C->getArgs(), C->getNumArgs()));
            auto cv = cvOf(E);
            if (cv.kind() != Value::Null) o["cv"] = std::move(cv);
            return o;
        }
        if (auto* C = dyn_cast<CXXOperatorCallExpr>(E))
        {
            o["k"] = "call";
            o["op"] = getOperatorSpelling(C->getOperator());
            auto* FD = C->getDirectCallee();
            if (FD)
            {
                o["f"] = fnRef(FD);
                unsigned n = 0;
                auto* MD = dyn_cast<CXXMethodDecl>(FD);
                if (MD && !MD->isStatic()) { o["o"] = expr(C->getArg(0)); n = 1; }
                Array a;
                for (unsigned i = n; i < C->getNumArgs(); ++i) a.push_back(expr(C->getArg(i)));
                o["a"] = std::move(a);
            }
            else { o["callee"] = expr(C->getCallee()); o["a"] = args(llvm::ArrayRef(C->getArgs(), C->getNumArgs())); }
            return o;
        }
        if (auto* C = dyn_cast<CallExpr>(E))
        {
            o["k"] = "call";
            if (auto* FD = C->getDirectCallee()) o["f"] = fnRef(FD);
            else o["callee"] = expr(C->getCallee());
            o["a"] = args(llvm::ArrayRef(C->getArgs(), C->getNumArgs()));
            auto cv = cvOf(E);
            if (cv.kind() != Value::Null) o["cv"] = std::move(cv);
            return o;
        }
        if (auto* C = dyn_cast<CXXConstructExpr>(E))
        {
            auto* CD = C->getConstructor();
            o["k"] = "construct";
            o["f"] = fnRef(CD);
            if (CD->isCopyConstructor()) o["copy"] = true;
            if (CD->isMoveConstructor()) o["move"] = true;
            if (CD->isDefaultConstructor()) o["dflt"] = true;
            if (isa<CXXTemporaryObjectExpr>(E)) o["tmp"] = true;
            if (C->isListInitialization()) o["list"] = true;
            if (C->requiresZeroInitialization()) o["zero"] = true;
            o["a"] = args(llvm::ArrayRef(C->getArgs(), C->getNumArgs()));
            return o;
        }
        if (auto* B = dyn_cast<BinaryOperator>(E))
        {
            o["k"] = "bin";
            o["op"] = B->getOpcodeStr().str();
            o["a"] = expr(B->getLHS());
            o["b"] = expr(B->getRHS());
            auto cv = cvOf(E);
            if (cv.kind() != Value::Null) o["cv"] = std::move(cv);
            return o;
        }
        if (auto* U = dyn_cast<UnaryOperator>(E))
        {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            o["post"] = U->isPostfix();
            o["e"] = expr(U->getSubExpr());
            return o;
        }
        if (auto* C = dyn_cast<ConditionalOperator>(E))
        { o["k"] = "cond"; o["c"] = expr(C->getCond()); o["a"] = expr(C->getTrueExpr()); o["b"] = expr(C->getFalseExpr()); return o; }
        if (auto* I = dyn_cast<InitListExpr>(E))
        {
            o["k"] = "initlist";
            auto* S = I->isSemanticForm() ? I : (I->getSemanticForm() ? I->getSemanticForm() : I);
            Array a;
            for (unsigned i = 0; i < S->getNumInits(); ++i) a.push_back(expr(S->getInit(i)));
            if (S->hasArrayFiller()) o["filler"] = true;
            o["a"] = std::move(a);
            return o;
        }
        if (auto* A = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "index"; o["a"] = expr(A->getBase()); o["b"] = expr(A->getIdx()); return o; }
        if (auto* L = dyn_cast<LambdaExpr>(E))
        {
            o["k"] = "lambda";
            o["cls"] = did(L->getLambdaClass());
            Array caps;
            auto ci = L->capture_init_begin();
            for (auto it = L->capture_begin(); it != L->capture_end(); ++it, ++ci)
            {
                Object c;
                if (it->capturesThis()) c["this"] = true;
                else if (it->capturesVariable())
                {
                    c["id"] = did(it->getCapturedVar());
                    c["n"] = it->getCapturedVar()->getNameAsString();
                    c["ref"] = it->getCaptureKind() == LCK_ByRef;
                    if (*ci) c["e"] = expr(*ci);
                }
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            if (auto* CO = L->getCallOperator())
            {
                Array ops;
                if (auto* FT = CO->getDescribedFunctionTemplate())
                { for (auto* S : FT->specializations()) ops.push_back(did(S)); }
                else ops.push_back(did(CO));
                o["ops"] = std::move(ops);
            }
            return o;
        }
        if (auto* N = dyn_cast<CXXNewExpr>(E))
        {
            o["k"] = "new";
            o["at"] = tyv(N->getAllocatedType());
            if (N->getInitializer()) o["e"] = expr(N->getInitializer());
            return o;
        }
        if (auto* D = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "delete"; o["e"] = expr(D->getArgument()); return o; }
        if (auto* T = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; if (T->getSubExpr()) o["e"] = expr(T->getSubExpr()); return o; }
        if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { o["k"] = "zero"; return o; }
        if (auto* T = dyn_cast<CXXTypeidExpr>(E)) { (void)T; o["k"] = "typeid"; return o; }
        if (auto* P = dyn_cast<PseudoObjectExpr>(E)) return expr(P->getResultExpr());
        if (auto* P = dyn_cast<OpaqueValueExpr>(E)) return expr(P->getSourceExpr());
        if (auto* P = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "arraycopy"; o["e"] = expr(P->getCommonExpr()); return o; }
        if (auto* F = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "inhctor"; o["f"] = fnRef(F->getConstructor()); return o; }

        auto cv = cvOf(E);
        o["k"] = cv.kind() != Value::Null ? "const" : "unknown";
        if (cv.kind() != Value::Null) o["cv"] = std::move(cv);
        o["cls"] = E->getStmtClassName();
        return o;
    }
};

class Consumer : public ASTConsumer
{
public:
    Consumer(llvm::raw_ostream& OS) : OS(OS) {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
        Exporter E(C, OS);
        E.TraverseDecl(C.getTranslationUnitDecl());
        OS << "{\"kind\":\"end\"}\n";
    }
private:
    llvm::raw_ostream& OS;
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
    {
        std::error_code EC;
        OS = std::make_unique<llvm::raw_fd_ostream>(OutFile, EC);
        return std::make_unique<Consumer>(*OS);
    }
private:
    std::unique_ptr<llvm::raw_fd_ostream> OS;
};

} // namespace

int main(int argc, const char** argv)
{
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
    tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
