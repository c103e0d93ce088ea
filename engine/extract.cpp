// Fact extractor: parses one translation unit of /repo with clang's front end and writes the
// type-checked program (function bodies with resolved callees, constructor initialisers, records,
// enums, global variables) as JSON lines. It runs nothing and interprets nothing.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;   // directories whose definitions are dumped
static llvm::raw_fd_ostream* Out = nullptr;

namespace {

class Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, int> var_ids;
    std::set<std::string> done;

public:
    explicit Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    std::string file(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto P = SM.getPresumedLoc(L);
        return P.isValid() ? std::string(P.getFilename()) : "";
    }
    std::string realfile(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!F)
            return "";
        llvm::StringRef R = F->getFileEntry().tryGetRealPathName();
        return R.empty() ? std::string(F->getName()) : R.str();
    }
    int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
    bool in_root(SourceLocation L)
    {
        auto f = realfile(L);
        for (auto& r : Roots)
            if (f.rfind(r, 0) == 0)
                return true;
        return false;
    }
    std::string ty(QualType T)
    {
        if (T.isNull())
            return "?";
        return T.getCanonicalType().getAsString(PP);
    }
    int vid(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = var_ids.find(D);
        if (it != var_ids.end())
            return it->second;
        int n = (int)var_ids.size() + 1;
        var_ids[D] = n;
        return n;
    }
    std::string qname(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os);
        os.flush();
        // drop inline std namespaces
        for (const char* p : {"std::__cxx11::", "std::__1::"}) {
            size_t pos;
            while ((pos = s.find(p)) != std::string::npos)
                s.replace(pos, strlen(p), "std::");
        }
        return s;
    }
    std::string usr(const Decl* D)
    {
        llvm::SmallString<128> buf;
        if (index::generateUSRForDecl(D, buf))
            return "";
        return std::string(buf);
    }
    std::string fid(const FunctionDecl* F)
    {
        std::string u = usr(F);
        // instantiations: the USR of a member of a class template specialisation names the arguments.
        if (auto* args = F->getTemplateSpecializationArgs()) {
            std::string s;
            llvm::raw_string_ostream os(s);
            printTemplateArgumentList(os, args->asArray(), PP);
            os.flush();
            u += "#T" + s;
        }
        return u;
    }
    std::string rec_targs(const CXXRecordDecl* R)
    {
        if (auto* S = dyn_cast_or_null<ClassTemplateSpecializationDecl>(R)) {
            std::string s;
            llvm::raw_string_ostream os(s);
            printTemplateArgumentList(os, S->getTemplateArgs().asArray(), PP);
            os.flush();
            return s;
        }
        return "";
    }

    // ---------------------------------------------------------------- expressions
    static const Expr* peel(const Expr* E)
    {
        while (E) {
            if (auto* x = dyn_cast<ParenExpr>(E)) { E = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ExprWithCleanups>(E)) { E = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<MaterializeTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXBindTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ConstantExpr>(E)) { E = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = x->getReplacement(); continue; }
            if (auto* x = dyn_cast<CXXStdInitializerListExpr>(E)) { E = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = x->getSemanticForm(); continue; }
            if (auto* x = dyn_cast<OpaqueValueExpr>(E)) { if (x->getSourceExpr()) { E = x->getSourceExpr(); continue; } return E; }
            if (auto* x = dyn_cast<ImplicitCastExpr>(E)) {
                switch (x->getCastKind()) {
                case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
                case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_FloatingCast:
                    return E;
                default:
                    E = x->getSubExpr();
                    continue;
                }
            }
            if (auto* x = dyn_cast<CXXConstructExpr>(E)) {
                if (x->isElidable() && x->getNumArgs() >= 1) { E = x->getArg(0); continue; }
            }
            return E;
        }
        return E;
    }

    json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R)
    {
        json::Array a;
        for (auto* x : R)
            a.push_back(expr(x));
        return a;
    }

    json::Value node(const char* k, const Expr* E, json::Object o)
    {
        o["e"] = k;
        o["l"] = line(E->getBeginLoc());
        o["t"] = ty(E->getType());
        if (isa<CallExpr>(E) && E->isGLValue())
            o["lv"] = true;
        return json::Value(std::move(o));
    }

    json::Object callee_info(const FunctionDecl* F)
    {
        json::Object o;
        o["f"] = fid(F);
        o["n"] = qname(F);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isVirtual())
                o["virt"] = true;
            if (M->isConst())
                o["const"] = true;
            if (M->isStatic())
                o["static"] = true;
        }
        json::Array pt;
        for (auto* p : F->parameters())
            pt.push_back(ty(p->getType()));
        o["pt"] = std::move(pt);
        if (F->isNoReturn())
            o["noret"] = true;
        if (in_root(F->getLocation()))
            o["repo"] = true;
        return o;
    }

    json::Value expr(const Expr* E0)
    {
        const Expr* E = peel(E0);
        if (!E)
            return nullptr;
        // literals
        if (auto* x = dyn_cast<IntegerLiteral>(E)) {
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            return node("int", E, json::Object{{"v", std::string(s)}});
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(E))
            return node("bool", E, json::Object{{"v", x->getValue()}});
        if (auto* x = dyn_cast<CharacterLiteral>(E))
            return node("int", E, json::Object{{"v", std::to_string(x->getValue())}});
        if (auto* x = dyn_cast<FloatingLiteral>(E))
            return node("float", E, json::Object{{"v", std::to_string(x->getValueAsApproximateDouble())}});
        if (auto* x = dyn_cast<clang::StringLiteral>(E)) {
            std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : "";
            if (!json::isUTF8(s))
                s = json::fixUTF8(s);
            return node("str", E, json::Object{{"v", s}});
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
            return node("null", E, json::Object{});
        if (auto* x = dyn_cast<PredefinedExpr>(E))
            return node("str", E, json::Object{{"v", "__func__"}});
        if (isa<CXXThisExpr>(E))
            return node("this", E, json::Object{});
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
                llvm::SmallString<32> s;
                R.Val.getInt().toString(s, 10);
                return node("int", E, json::Object{{"v", std::string(s)}});
            }
            return node("opaque", E, json::Object{{"why", "sizeof"}});
        }
        if (auto* x = dyn_cast<TypeTraitExpr>(E))
            return node("bool", E, json::Object{{"v", x->isValueDependent() ? false : x->getValue()}});
        if (isa<RequiresExpr>(E) || isa<ConceptSpecializationExpr>(E) || isa<CXXNoexceptExpr>(E)) {
            bool r = false;
            if (!E->isValueDependent())
                (void)E->EvaluateAsBooleanCondition(r, C);
            return node("bool", E, json::Object{{"v", r}});
        }
        // references
        if (auto* x = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl* D = x->getDecl();
            if (auto* ec = dyn_cast<EnumConstantDecl>(D)) {
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                return node("enum", E, json::Object{{"n", qname(ec)}, {"v", std::string(s)}});
            }
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                auto o = callee_info(F);
                return node("fnref", E, std::move(o));
            }
            if (auto* B = dyn_cast<BindingDecl>(D)) {
                json::Object o{{"id", vid(B)}, {"n", B->getNameAsString()}};
                return node("var", E, std::move(o));
            }
            if (auto* V = dyn_cast<VarDecl>(D)) {
                json::Object o{{"n", V->isLocalVarDeclOrParm() ? V->getNameAsString() : qname(V)}};
                if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
                    o["id"] = vid(V);
                }
                else {
                    o["g"] = true;
                    o["q"] = qname(V);
                }
                if ((V->isConstexpr() || (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType())) &&
                    !V->getType()->isDependentType() && V->getType()->isIntegralOrEnumerationType()) {
                    Expr::EvalResult R;
                    if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
                        llvm::SmallString<32> s;
                        R.Val.getInt().toString(s, 10);
                        o["cv"] = std::string(s);
                    }
                }
                return node("var", E, std::move(o));
            }
            return node("opaque", E, json::Object{{"why", "declref"}, {"n", qname(D)}});
        }
        if (auto* x = dyn_cast<MemberExpr>(E)) {
            const ValueDecl* D = x->getMemberDecl();
            if (auto* F = dyn_cast<FieldDecl>(D)) {
                json::Object o{{"n", F->getNameAsString()}, {"q", qname(F)}, {"o", expr(x->getBase())}};
                if (x->isArrow())
                    o["arrow"] = true;
                return node("mem", E, std::move(o));
            }
            if (auto* V = dyn_cast<VarDecl>(D)) {
                json::Object o{{"n", qname(V)}, {"g", true}, {"q", qname(V)}};
                if (V->getType()->isIntegralOrEnumerationType()) {
                    Expr::EvalResult R;
                    if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
                        llvm::SmallString<32> s;
                        R.Val.getInt().toString(s, 10);
                        o["cv"] = std::string(s);
                    }
                }
                return node("var", E, std::move(o));
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(D)) {
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                return node("enum", E, json::Object{{"n", qname(ec)}, {"v", std::string(s)}});
            }
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                auto o = callee_info(F);
                o["o"] = expr(x->getBase());
                return node("fnref", E, std::move(o));
            }
        }
        // calls
        if (auto* x = dyn_cast<CXXMemberCallExpr>(E)) {
            const CXXMethodDecl* M = x->getMethodDecl();
            if (M) {
                auto o = callee_info(M);
                o["o"] = expr(x->getImplicitObjectArgument());
                o["a"] = exprs(x->arguments());
                if (auto* ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                    if (ME->isArrow())
                        o["arrow"] = true;
                    if (ME->hasQualifier())
                        o["qual"] = true;   // explicitly qualified: not dispatched virtually
                }
                return node("mcall", E, std::move(o));
            }
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(E)) {
            if (auto* F = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl())) {
                auto o = callee_info(F);
                o["op"] = getOperatorSpelling(x->getOperator());
                auto* M = dyn_cast<CXXMethodDecl>(F);
                json::Array a;
                unsigned i = 0;
                if (M && !M->isStatic()) {
                    o["o"] = expr(x->getArg(0));
                    i = 1;
                }
                for (; i < x->getNumArgs(); ++i)
                    a.push_back(expr(x->getArg(i)));
                o["a"] = std::move(a);
                return node(M && !M->isStatic() ? "mcall" : "call", E, std::move(o));
            }
        }
        if (auto* x = dyn_cast<CallExpr>(E)) {
            if (auto* F = x->getDirectCallee()) {
                auto o = callee_info(F);
                o["a"] = exprs(x->arguments());
                return node("call", E, std::move(o));
            }
            json::Object o{{"c", expr(x->getCallee())}};
            o["a"] = exprs(x->arguments());
            return node("icall", E, std::move(o));
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(E)) {
            auto* D = x->getConstructor();
            json::Object o = callee_info(D);
            o["cls"] = qname(D->getParent());
            o["ctargs"] = rec_targs(D->getParent());
            if (D->isCopyConstructor())
                o["copy"] = true;
            if (D->isMoveConstructor())
                o["move"] = true;
            if (D->isDefaultConstructor())
                o["dflt"] = true;
            json::Array a;
            for (auto* y : x->arguments())
                a.push_back(expr(y));
            o["a"] = std::move(a);
            return node("ctor", E, std::move(o));
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            json::Object o = callee_info(x->getConstructor());
            o["cls"] = qname(x->getConstructor()->getParent());
            o["a"] = json::Array{};
            return node("ctor", E, std::move(o));
        }
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(E))
            return expr(x->getExpr());
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(E))
            return expr(x->getExpr());
        if (auto* x = dyn_cast<CastExpr>(E)) {
            switch (x->getCastKind()) {
            case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
            case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_FloatingCast: {
                json::Object o{{"x", expr(x->getSubExpr())}, {"ck", x->getCastKindName()}};
                if (!isa<ImplicitCastExpr>(x))
                    o["expl"] = true;
                return node("cast", E, std::move(o));
            }
            case CK_Dynamic:
                return node("cast", E, json::Object{{"x", expr(x->getSubExpr())}, {"ck", "Dynamic"}, {"expl", true}});
            case CK_ToVoid:
                return expr(x->getSubExpr());
            default:
                return expr(x->getSubExpr());
            }
        }
        if (auto* x = dyn_cast<UnaryOperator>(E))
            return node("un", E, json::Object{{"op", UnaryOperator::getOpcodeStr(x->getOpcode())}, {"post", x->isPostfix()}, {"x", expr(x->getSubExpr())}});
        if (auto* x = dyn_cast<CompoundAssignOperator>(E))
            return node("asg", E, json::Object{{"op", x->getOpcodeStr()}, {"x", expr(x->getLHS())}, {"y", expr(x->getRHS())}});
        if (auto* x = dyn_cast<BinaryOperator>(E)) {
            if (x->getOpcode() == BO_Assign)
                return node("asg", E, json::Object{{"op", "="}, {"x", expr(x->getLHS())}, {"y", expr(x->getRHS())}});
            return node("bin", E, json::Object{{"op", x->getOpcodeStr()}, {"x", expr(x->getLHS())}, {"y", expr(x->getRHS())}});
        }
        if (auto* x = dyn_cast<BinaryConditionalOperator>(E))
            return node("cond", E, json::Object{{"c", expr(x->getCond())}, {"x", expr(x->getTrueExpr())}, {"y", expr(x->getFalseExpr())}});
        if (auto* x = dyn_cast<ConditionalOperator>(E))
            return node("cond", E, json::Object{{"c", expr(x->getCond())}, {"x", expr(x->getTrueExpr())}, {"y", expr(x->getFalseExpr())}});
        if (auto* x = dyn_cast<ArraySubscriptExpr>(E))
            return node("idx", E, json::Object{{"x", expr(x->getBase())}, {"y", expr(x->getIdx())}});
        if (auto* x = dyn_cast<InitListExpr>(E)) {
            if (auto* s = x->getSemanticForm())
                x = s;
            json::Array a;
            for (auto* y : x->inits())
                a.push_back(expr(y));
            json::Object o{{"a", std::move(a)}};
            if (auto* R = x->getType()->getAsCXXRecordDecl()) {
                o["cls"] = qname(R);
                json::Array fs;
                for (auto* f : R->fields())
                    fs.push_back(f->getNameAsString());
                o["fs"] = std::move(fs);
            }
            return node("list", E, std::move(o));
        }
        if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E))
            return node("zero", E, json::Object{});
        if (auto* x = dyn_cast<CXXNewExpr>(E)) {
            json::Object o{{"at", ty(x->getAllocatedType())}};
            if (x->getInitializer())
                o["x"] = expr(x->getInitializer());
            return node("new", E, std::move(o));
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(E))
            return node("delete", E, json::Object{{"x", expr(x->getArgument())}});
        if (auto* x = dyn_cast<CXXThrowExpr>(E)) {
            json::Object o;
            if (x->getSubExpr())
                o["x"] = expr(x->getSubExpr());
            return node("throw", E, std::move(o));
        }
        if (auto* x = dyn_cast<LambdaExpr>(E)) {
            json::Object o;
            json::Array caps;
            auto ci = x->capture_init_begin();
            for (auto& c : x->captures()) {
                json::Object co;
                if (c.capturesThis()) {
                    co["k"] = "this";
                }
                else if (c.capturesVariable()) {
                    auto* V = c.getCapturedVar();
                    co["k"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                    co["id"] = vid(V);
                    co["n"] = V->getNameAsString();
                    if (V->isInitCapture()) {
                        if (auto* VD = dyn_cast<VarDecl>(V))
                            if (VD->getInit())
                                co["init"] = expr(VD->getInit());
                    }
                }
                caps.push_back(std::move(co));
                ++ci;
            }
            o["caps"] = std::move(caps);
            const CXXMethodDecl* M = x->getCallOperator();
            const FunctionDecl* body = M;
            if (auto* T = x->getDependentCallOperator()) {
                for (auto* S : T->specializations()) {
                    if (S->hasBody()) {
                        body = S;
                        break;
                    }
                }
            }
            o["fid"] = fid(body);
            o["ps"] = params(body);
            if (body->getBody() && !body->isDependentContext())
                o["b"] = stmt(body->getBody());
            return node("lambda", E, std::move(o));
        }
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmPackExpr>(E))
            return node("opaque", E, json::Object{{"why", "pack"}});
        if (auto* x = dyn_cast<CXXTypeidExpr>(E))
            return node("opaque", E, json::Object{{"why", "typeid"}});
        if (auto* x = dyn_cast<ArrayInitLoopExpr>(E))
            return node("opaque", E, json::Object{{"why", "arrayinit"}});
        if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(E))
            return node("opaque", E, json::Object{{"why", "pseudodtor"}});
        json::Array kids;
        for (auto* c : E->children())
            if (auto* ce = dyn_cast_or_null<Expr>(c))
                kids.push_back(expr(ce));
        return node("opaque", E, json::Object{{"why", E->getStmtClassName()}, {"a", std::move(kids)}});
    }

    // ---------------------------------------------------------------- statements
    json::Value snode(const char* k, const Stmt* S, json::Object o)
    {
        o["s"] = k;
        o["l"] = line(S->getBeginLoc());
        return json::Value(std::move(o));
    }

    json::Value var_decl(const VarDecl* V)
    {
        json::Object o{{"id", vid(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())}};
        if (V->isStaticLocal()) {
            o["static"] = true;
            o["q"] = qname(V);
        }
        if (V->getType()->isReferenceType())
            o["ref"] = true;
        if (V->getInit())
            o["x"] = expr(V->getInit());
        if (auto* D = dyn_cast<DecompositionDecl>(V)) {
            json::Array b;
            int i = 0;
            for (auto* bd : D->bindings()) {
                json::Object bo{{"id", vid(bd)}, {"n", bd->getNameAsString()}, {"i", i++}};
                // struct bindings name the field
                if (auto* e = bd->getBinding()) {
                    if (auto* me = dyn_cast<MemberExpr>(e->IgnoreParenImpCasts()))
                        bo["field"] = me->getMemberDecl()->getNameAsString();
                }
                b.push_back(std::move(bo));
            }
            o["bind"] = std::move(b);
        }
        return json::Value(std::move(o));
    }

    json::Value stmt(const Stmt* S)
    {
        if (!S)
            return nullptr;
        if (auto* x = dyn_cast<CompoundStmt>(S)) {
            json::Array a;
            for (auto* c : x->body())
                a.push_back(stmt(c));
            return snode("block", S, json::Object{{"a", std::move(a)}});
        }
        if (auto* x = dyn_cast<Expr>(S))
            return snode("expr", S, json::Object{{"x", expr(x)}});
        if (auto* x = dyn_cast<DeclStmt>(S)) {
            json::Array a;
            for (auto* d : x->decls())
                if (auto* V = dyn_cast<VarDecl>(d))
                    a.push_back(var_decl(V));
            return snode("decl", S, json::Object{{"a", std::move(a)}});
        }
        if (auto* x = dyn_cast<IfStmt>(S)) {
            json::Object o;
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            if (x->getConditionVariable())
                o["cv"] = var_decl(x->getConditionVariable());
            if (x->isConstexpr()) {
                if (auto nd = x->getNondiscardedCase(C)) {
                    if (*nd == nullptr)
                        return snode("null", S, json::Object{});
                    return stmt(*nd);
                }
            }
            o["c"] = expr(x->getCond());
            o["x"] = stmt(x->getThen());
            if (x->getElse())
                o["y"] = stmt(x->getElse());
            return snode("if", S, std::move(o));
        }
        if (auto* x = dyn_cast<WhileStmt>(S)) {
            json::Object o{{"c", expr(x->getCond())}, {"x", stmt(x->getBody())}};
            if (x->getConditionVariable())
                o["cv"] = var_decl(x->getConditionVariable());
            return snode("while", S, std::move(o));
        }
        if (auto* x = dyn_cast<DoStmt>(S))
            return snode("do", S, json::Object{{"c", expr(x->getCond())}, {"x", stmt(x->getBody())}});
        if (auto* x = dyn_cast<ForStmt>(S)) {
            json::Object o{{"x", stmt(x->getBody())}};
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            if (x->getCond())
                o["c"] = expr(x->getCond());
            if (x->getInc())
                o["inc"] = expr(x->getInc());
            return snode("for", S, std::move(o));
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(S)) {
            json::Object o{{"var", var_decl(x->getLoopVariable())}, {"rng", expr(x->getRangeInit())}, {"x", stmt(x->getBody())}};
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            return snode("range", S, std::move(o));
        }
        if (auto* x = dyn_cast<SwitchStmt>(S)) {
            json::Object o{{"c", expr(x->getCond())}, {"x", stmt(x->getBody())}};
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            if (x->getConditionVariable())
                o["cv"] = var_decl(x->getConditionVariable());
            return snode("switch", S, std::move(o));
        }
        if (auto* x = dyn_cast<CaseStmt>(S))
            return snode("case", S, json::Object{{"v", expr(x->getLHS())}, {"x", stmt(x->getSubStmt())}});
        if (auto* x = dyn_cast<DefaultStmt>(S))
            return snode("default", S, json::Object{{"x", stmt(x->getSubStmt())}});
        if (auto* x = dyn_cast<ReturnStmt>(S)) {
            json::Object o;
            if (x->getRetValue())
                o["x"] = expr(x->getRetValue());
            return snode("ret", S, std::move(o));
        }
        if (isa<BreakStmt>(S))
            return snode("break", S, json::Object{});
        if (isa<ContinueStmt>(S))
            return snode("cont", S, json::Object{});
        if (isa<NullStmt>(S))
            return snode("null", S, json::Object{});
        if (auto* x = dyn_cast<CXXTryStmt>(S)) {
            json::Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* h = x->getHandler(i);
                json::Object ho{{"x", stmt(h->getHandlerBlock())}};
                if (h->getExceptionDecl())
                    ho["var"] = var_decl(h->getExceptionDecl());
                hs.push_back(std::move(ho));
            }
            return snode("try", S, json::Object{{"x", stmt(x->getTryBlock())}, {"hs", std::move(hs)}});
        }
        if (auto* x = dyn_cast<AttributedStmt>(S))
            return stmt(x->getSubStmt());
        if (auto* x = dyn_cast<LabelStmt>(S))
            return snode("label", S, json::Object{{"n", std::string(x->getName())}, {"x", stmt(x->getSubStmt())}});
        if (auto* x = dyn_cast<GotoStmt>(S))
            return snode("goto", S, json::Object{{"n", std::string(x->getLabel()->getName())}});
        return snode("opaque", S, json::Object{{"why", S->getStmtClassName()}});
    }

    json::Array params(const FunctionDecl* F)
    {
        json::Array a;
        for (auto* p : F->parameters()) {
            json::Object o{{"id", vid(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}};
            if (p->getType()->isReferenceType())
                o["ref"] = true;
            a.push_back(std::move(o));
        }
        return a;
    }

    void emit(json::Object o) { *Out << json::Value(std::move(o)) << "\n"; }

    void function(const FunctionDecl* F)
    {
        if (!F->isThisDeclarationADefinition() || F->isDependentContext() || F->isDeleted())
            return;
        if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted())
            return;
        if (!in_root(F->getLocation()))
            return;
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
                return;
        std::string id = fid(F);
        if (!done.insert(id).second)
            return;
        json::Object o{{"k", "fn"}, {"id", id}, {"n", qname(F)}, {"file", realfile(F->getLocation())},
                       {"line", line(F->getLocation())}, {"ret", ty(F->getReturnType())}};
        o["end"] = line(F->getEndLoc());
        if (F->isDefaulted())
            o["defaulted"] = true;
        o["ps"] = params(F);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(M->getParent());
            o["ctargs"] = rec_targs(M->getParent());
            if (M->isVirtual())
                o["virt"] = true;
            if (M->isConst())
                o["const"] = true;
            if (M->isStatic())
                o["static"] = true;
            json::Array ov;
            for (auto* b : M->overridden_methods())
                ov.push_back(fid(b));
            if (!ov.empty())
                o["over"] = std::move(ov);
        }
        if (auto* args = F->getTemplateSpecializationArgs()) {
            std::string s;
            llvm::raw_string_ostream os(s);
            printTemplateArgumentList(os, args->asArray(), PP);
            os.flush();
            o["ftargs"] = s;
        }
        if (isa<CXXConstructorDecl>(F)) {
            auto* K = cast<CXXConstructorDecl>(F);
            o["ctor"] = true;
            if (K->isCopyConstructor())
                o["copy"] = true;
            if (K->isMoveConstructor())
                o["move"] = true;
            json::Array in;
            for (auto* I : K->inits()) {
                json::Object io;
                if (I->isAnyMemberInitializer()) {
                    io["field"] = I->getAnyMember()->getNameAsString();
                    io["q"] = qname(I->getAnyMember());
                }
                else if (I->isBaseInitializer()) {
                    io["base"] = ty(QualType(I->getBaseClass(), 0));
                }
                else {
                    io["delegating"] = true;
                }
                io["written"] = I->isWritten();
                io["x"] = expr(I->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F))
            o["dtor"] = true;
        if (F->getBody())
            o["b"] = stmt(F->getBody());
        emit(std::move(o));
    }

    void record(const CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda())
            return;
        if (!in_root(R->getLocation()))
            return;
        std::string id = usr(R) + rec_targs(R);
        if (!done.insert("R" + id).second)
            return;
        json::Object o{{"k", "rec"}, {"id", id}, {"n", qname(R)}, {"targs", rec_targs(R)}, {"file", realfile(R->getLocation())},
                       {"line", line(R->getLocation())}};
        if (R->isAbstract())
            o["abstract"] = true;
        json::Array bs;
        for (auto& b : R->bases())
            bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* f : R->fields()) {
            json::Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"l", line(f->getLocation())}};
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["x"] = expr(f->getInClassInitializer());
            else if (f->hasInClassInitializer())
                fo["x"] = nullptr;
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* m : R->methods()) {
            json::Object mo{{"id", fid(m)}, {"n", m->getNameAsString()}};
            if (m->isVirtual())
                mo["virt"] = true;
            if (m->isPureVirtual())
                mo["pure"] = true;
            if (m->isDeleted())
                mo["deleted"] = true;
            if (m->isDefaulted())
                mo["defaulted"] = true;
            if (m->isUserProvided())
                mo["user"] = true;
            if (m->isConst())
                mo["const"] = true;
            if (m->isStatic())
                mo["static"] = true;
            mo["acc"] = (int)m->getAccess();
            json::Array ov;
            for (auto* b : m->overridden_methods())
                ov.push_back(fid(b));
            if (!ov.empty())
                mo["over"] = std::move(ov);
            json::Array pt;
            for (auto* p : m->parameters())
                pt.push_back(ty(p->getType()));
            mo["pt"] = std::move(pt);
            mo["ret"] = ty(m->getReturnType());
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        emit(std::move(o));
    }

    void enumeration(const EnumDecl* E)
    {
        if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !in_root(E->getLocation()))
            return;
        if (!done.insert("E" + usr(E)).second)
            return;
        json::Array a;
        for (auto* e : E->enumerators()) {
            llvm::SmallString<32> s;
            e->getInitVal().toString(s, 10);
            a.push_back(json::Object{{"n", e->getNameAsString()}, {"q", qname(e)}, {"v", std::string(s)}});
        }
        emit(json::Object{{"k", "enum"}, {"n", qname(E)}, {"file", realfile(E->getLocation())}, {"line", line(E->getLocation())}, {"es", std::move(a)}});
    }

    void global(const VarDecl* V)
    {
        if (V->isLocalVarDeclOrParm() && !V->isStaticLocal())
            return;
        if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType() || !in_root(V->getLocation()))
            return;
        if (isa<VarTemplateSpecializationDecl>(V))
            return;
        if (!V->getAnyInitializer() && V->isStaticDataMember() && !V->isThisDeclarationADefinition())
            return;
        if (!done.insert("V" + qname(V) + std::to_string(line(V->getLocation()))).second)
            return;
        json::Object o{{"k", "var"}, {"q", qname(V)}, {"t", ty(V->getType())}, {"file", realfile(V->getLocation())}, {"line", line(V->getLocation())}};
        if (V->getType().isConstQualified() || V->isConstexpr())
            o["const"] = true;
        if (auto* I = V->getAnyInitializer())
            if (!I->isValueDependent())
                o["x"] = expr(I);
        emit(std::move(o));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
    Dumper& D;

public:
    explicit Visitor(Dumper& D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F) { D.function(F); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) { D.record(R); return true; }
    bool VisitEnumDecl(EnumDecl* E) { D.enumeration(E); return true; }
    bool VisitVarDecl(VarDecl* V) { D.global(V); return true; }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasErrorOccurred())
            return;
        Dumper D(C);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

} // namespace

// usage: extract OUT.jsonl SOURCE ROOT... -- compiler flags
int main(int argc, const char** argv)
{
    if (argc < 5) {
        llvm::errs() << "usage: extract OUT SOURCE ROOT... -- FLAGS\n";
        return 2;
    }
    int i = 3;
    for (; i < argc && std::string(argv[i]) != "--"; ++i)
        Roots.push_back(argv[i]);
    ++i;
    std::vector<std::string> args;
    for (; i < argc; ++i)
        args.push_back(argv[i]);
    std::error_code ec;
    llvm::raw_fd_ostream os(argv[1], ec);
    if (ec)
        return 2;
    Out = &os;
    tooling::FixedCompilationDatabase DB("/", args);
    tooling::ClangTool Tool(DB, {std::string(argv[2])});
    int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    os.flush();
    return rc;
}
