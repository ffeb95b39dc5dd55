// mzfacts: dumps the type-checked syntax tree of every function defined in the analysed sources as
// compact JSON facts.  One process per translation unit; the rules (in ../checks) read the facts only.
//
// usage: mzfacts OUT.json ROOT1:ROOT2:... -- FILE.cpp CLANG_ARGS...
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;

static std::vector<std::string> roots;
static std::string out_path;

static void jstr(llvm::raw_ostream& o, llvm::StringRef s) {
    o << '"';
    for (unsigned char c : s) {
        switch (c) {
            case '"': o << "\\\""; break;
            case '\\': o << "\\\\"; break;
            case '\n': o << "\\n"; break;
            case '\r': o << "\\r"; break;
            case '\t': o << "\\t"; break;
            default:
                if (c < 0x20 || c >= 0x7f) { static char const* h = "0123456789abcdef"; o << "\\u00" << h[c >> 4] << h[c & 15]; }
                else { o << c; }
        }
    }
    o << '"';
}

class Dumper {
public:
    Dumper(ASTContext& c, llvm::raw_ostream& o) : ctx(c), o(o), sm(c.getSourceManager()), pp(c.getPrintingPolicy()) {
        pp.SuppressTagKeyword = true; pp.Bool = true; pp.FullyQualifiedName = true; pp.SuppressUnwrittenScope = false;
        pp.AnonymousTagLocations = false;
    }
    ASTContext& ctx; llvm::raw_ostream& o; SourceManager& sm; PrintingPolicy pp;

    // ---- tables
    std::unordered_map<std::string, int> files, types; std::vector<std::string> filev, typev;
    std::unordered_map<Decl const*, int> decls; std::vector<Decl const*> declv;

    int file_id(std::string const& f) { auto it = files.find(f); if (it != files.end()) { return it->second; } int i = (int) filev.size(); files[f] = i; filev.push_back(f); return i; }
    int type_id(QualType t) {
        if (t.isNull()) { return -1; }
        std::string s = t.getCanonicalType().getAsString(pp);
        auto it = types.find(s); if (it != types.end()) { return it->second; } int i = (int) typev.size(); types[s] = i; typev.push_back(s); return i;
    }
    int decl_id(Decl const* d) {
        if (!d) { return -1; }
        d = d->getCanonicalDecl();
        auto it = decls.find(d); if (it != decls.end()) { return it->second; }
        int i = (int) declv.size(); decls[d] = i; declv.push_back(d); return i;
    }
    PresumedLoc ploc(SourceLocation l) { return sm.getPresumedLoc(sm.getExpansionLoc(l)); }
    std::string fname(SourceLocation l) { auto p = ploc(l); if (p.isInvalid()) { return ""; } return p.getFilename(); }
    static bool in_roots(llvm::StringRef f) { for (auto& r : roots) { if (f.starts_with(r)) { return true; } } return false; }
    bool analysed(SourceLocation l) {
        if (l.isInvalid()) { return false; }
        auto p = ploc(l); if (p.isInvalid()) { return false; }
        if (in_roots(p.getFilename())) { return true; }
        auto f = sm.getFilename(sm.getExpansionLoc(l));
        return in_roots(f);
    }

    // ---- statements / expressions
    void line(SourceLocation l) {
        auto p = ploc(l);
        if (p.isInvalid()) { return; }
        o << ",\"l\":" << p.getLine();
        int f = file_id(p.getFilename());
        if (f != cur_file) { o << ",\"f\":" << f; }
    }
    int cur_file = -1;

    void kid(char const* k, Stmt const* s) { if (s) { o << ",\"" << k << "\":"; stmt(s); } }

    void open(char const* k, Stmt const* s) { o << "{\"k\":\"" << k << "\""; line(s->getBeginLoc()); }
    void ty(Expr const* e) { o << ",\"t\":" << type_id(e->getType()); if (e->isLValue()) { o << ",\"lv\":1"; } }
    template<class R> void kids(R&& r) {
        o << ",\"c\":["; bool first = true;
        for (Stmt const* s : r) { if (!s) { continue; } if (!first) { o << ','; } first = false; stmt(s); }
        o << ']';
    }
    void vardecl(VarDecl const* v) {
        o << "{\"k\":\"Var\""; line(v->getLocation());
        o << ",\"d\":" << decl_id(v) << ",\"t\":" << type_id(v->getType());
        o << ",\"n\":"; jstr(o, v->getNameAsString());
        if (v->isStaticLocal()) { o << ",\"static\":1"; }
        if (v->isConstexpr()) { o << ",\"constexpr\":1"; }
        if (auto dd = dyn_cast<DecompositionDecl>(v)) {
            o << ",\"bind\":["; bool f = true;
            for (auto b : dd->bindings()) { if (!f) { o << ','; } f = false; o << "{\"d\":" << decl_id(b) << ",\"n\":"; jstr(o, b->getNameAsString()); o << '}'; }
            o << ']';
        }
        if (v->hasInit()) { kid("init", v->getInit()); }
        o << '}';
    }
    void declname(DeclarationName n) { o << ",\"n\":"; jstr(o, n.getAsString()); }

    void targs(llvm::ArrayRef<TemplateArgument> a) {
        o << ",\"ta\":["; bool f = true; targs_in(a, f); o << ']';
    }
    void targs_in(llvm::ArrayRef<TemplateArgument> a, bool& f) {
        for (auto& x : a) {
            if (x.getKind() == TemplateArgument::Pack) { targs_in(x.pack_elements(), f); continue; }
            if (!f) { o << ','; } f = false;
            std::string s;
            if (x.getKind() == TemplateArgument::Type) { s = x.getAsType().getCanonicalType().getAsString(pp); }
            else if (x.getKind() == TemplateArgument::Integral) {
                // name the enumerator if this is one
                if (auto et = x.getIntegralType()->getAs<EnumType>()) {
                    for (auto e : et->getDecl()->enumerators()) { if (llvm::APSInt::isSameValue(e->getInitVal(), x.getAsIntegral())) { s = e->getQualifiedNameAsString(); break; } }
                }
                if (s.empty()) { llvm::SmallString<32> b; x.getAsIntegral().toString(b); s = std::string(b); }
            } else if (x.getKind() == TemplateArgument::Expression) {
                if (auto r = dyn_cast<DeclRefExpr>(x.getAsExpr()->IgnoreParenImpCasts())) { s = r->getDecl()->getQualifiedNameAsString(); }
                else { llvm::raw_string_ostream ss(s); x.print(pp, ss, true); }
            } else { llvm::raw_string_ostream ss(s); x.print(pp, ss, true); }
            jstr(o, s);
        }
    }

    int depth = 0;
    void stmt(Stmt const* s) {
        if (!s) { o << "null"; return; }
        if (++depth > 1500) { o << "{\"k\":\"TooDeep\"}"; --depth; return; }
        stmt_(s);
        --depth;
    }
    void stmt_(Stmt const* s) {
        // transparent nodes
        if (auto e = dyn_cast<Expr>(s)) {
            if (auto x = dyn_cast<ParenExpr>(e)) { return stmt_(x->getSubExpr()); }
            if (auto x = dyn_cast<FullExpr>(e)) { return stmt_(x->getSubExpr()); }
            if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) { return stmt_(x->getSubExpr()); }
            if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) { return stmt_(x->getSubExpr()); }
            if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { return stmt_(x->getReplacement()); }
            if (auto x = dyn_cast<ImplicitCastExpr>(e)) {
                switch (x->getCastKind()) {
                    case CK_UserDefinedConversion: case CK_ConstructorConversion: break;
                    case CK_IntegralCast: case CK_FloatingCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_BooleanToSignedIntegral:
                        open("ICast", e); ty(e); o << ",\"ck\":\"" << x->getCastKindName() << "\""; kid("e", x->getSubExpr()); o << '}'; return;
                    default: break;
                }
                return stmt_(x->getSubExpr());
            }
            if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) { open("DefArg", e); ty(e); kid("e", x->getExpr()); o << '}'; return; }
            if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) { open("DefInit", e); ty(e); kid("e", x->getExpr()); o << '}'; return; }
        }
        switch (s->getStmtClass()) {
            case Stmt::CompoundStmtClass: { open("Block", s); kids(cast<CompoundStmt>(s)->body()); o << '}'; return; }
            case Stmt::DeclStmtClass: {
                open("Decl", s); o << ",\"c\":["; bool f = true;
                for (auto d : cast<DeclStmt>(s)->decls()) {
                    if (auto v = dyn_cast<VarDecl>(d)) { if (!f) { o << ','; } f = false; vardecl(v); }
                }
                o << "]}"; return;
            }
            case Stmt::IfStmtClass: {
                auto x = cast<IfStmt>(s); open("If", s); if (x->isConstexpr()) { o << ",\"constexpr\":1"; }
                kid("init", x->getInit()); if (x->getConditionVariable()) { o << ",\"var\":"; vardecl(x->getConditionVariable()); }
                else { kid("cond", x->getCond()); }
                kid("then", x->getThen()); kid("else", x->getElse()); o << '}'; return;
            }
            case Stmt::SwitchStmtClass: {
                auto x = cast<SwitchStmt>(s); open("Switch", s); kid("init", x->getInit());
                if (x->getConditionVariable()) { o << ",\"var\":"; vardecl(x->getConditionVariable()); }
                kid("cond", x->getCond()); kid("body", x->getBody()); o << '}'; return;
            }
            case Stmt::CaseStmtClass: {
                auto x = cast<CaseStmt>(s); open("Case", s); kid("e", x->getLHS()); 
                Expr::EvalResult r; if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, ctx)) { llvm::SmallString<32> b; r.Val.getInt().toString(b); o << ",\"v\":" << b; }
                kid("sub", x->getSubStmt()); o << '}'; return;
            }
            case Stmt::DefaultStmtClass: { open("Default", s); kid("sub", cast<DefaultStmt>(s)->getSubStmt()); o << '}'; return; }
            case Stmt::WhileStmtClass: {
                auto x = cast<WhileStmt>(s); open("While", s); if (x->getConditionVariable()) { o << ",\"var\":"; vardecl(x->getConditionVariable()); } else { kid("cond", x->getCond()); }
                kid("body", x->getBody()); o << '}'; return;
            }
            case Stmt::DoStmtClass: { auto x = cast<DoStmt>(s); open("Do", s); kid("cond", x->getCond()); kid("body", x->getBody()); o << '}'; return; }
            case Stmt::ForStmtClass: { auto x = cast<ForStmt>(s); open("For", s); kid("init", x->getInit()); if (x->getConditionVariable()) { o << ",\"var\":"; vardecl(x->getConditionVariable()); } kid("cond", x->getCond()); kid("inc", x->getInc()); kid("body", x->getBody()); o << '}'; return; }
            case Stmt::CXXForRangeStmtClass: {
                auto x = cast<CXXForRangeStmt>(s); open("ForRange", s); kid("init", x->getInit());
                kid("range", x->getRangeInit()); o << ",\"var\":"; vardecl_noinit(x->getLoopVariable()); kid("body", x->getBody()); o << '}'; return;
            }
            case Stmt::ReturnStmtClass: { open("Return", s); kid("e", cast<ReturnStmt>(s)->getRetValue()); o << '}'; return; }
            case Stmt::BreakStmtClass: { open("Break", s); o << '}'; return; }
            case Stmt::ContinueStmtClass: { open("Continue", s); o << '}'; return; }
            case Stmt::NullStmtClass: { open("Null", s); o << '}'; return; }
            case Stmt::GotoStmtClass: { open("Goto", s); o << ",\"n\":"; jstr(o, cast<GotoStmt>(s)->getLabel()->getName()); o << '}'; return; }
            case Stmt::LabelStmtClass: { auto x = cast<LabelStmt>(s); open("Label", s); o << ",\"n\":"; jstr(o, x->getName()); kid("sub", x->getSubStmt()); o << '}'; return; }
            case Stmt::CXXTryStmtClass: {
                auto x = cast<CXXTryStmt>(s); open("Try", s); kid("body", x->getTryBlock()); o << ",\"c\":[";
                for (unsigned i = 0; i < x->getNumHandlers(); ++i) { if (i) { o << ','; } stmt(x->getHandler(i)); }
                o << "]}"; return;
            }
            case Stmt::CXXCatchStmtClass: { auto x = cast<CXXCatchStmt>(s); open("Catch", s); if (x->getExceptionDecl()) { o << ",\"var\":"; vardecl_noinit(x->getExceptionDecl()); } kid("body", x->getHandlerBlock()); o << '}'; return; }
            case Stmt::AttributedStmtClass: { auto x = cast<AttributedStmt>(s); return stmt_(x->getSubStmt()); }
            default: break;
        }
        auto e = dyn_cast<Expr>(s);
        if (!e) { open(s->getStmtClassName(), s); kids(s->children()); o << '}'; return; }
        expr(e);
    }
    void vardecl_noinit(VarDecl const* v) {
        o << "{\"k\":\"Var\""; line(v->getLocation());
        o << ",\"d\":" << decl_id(v) << ",\"t\":" << type_id(v->getType()) << ",\"n\":"; jstr(o, v->getNameAsString());
        if (auto dd = dyn_cast<DecompositionDecl>(v)) {
            o << ",\"bind\":["; bool f = true;
            for (auto b : dd->bindings()) { if (!f) { o << ','; } f = false; o << "{\"d\":" << decl_id(b) << ",\"n\":"; jstr(o, b->getNameAsString()); o << '}'; }
            o << ']';
        }
        o << '}';
    }
    void constval(Expr const* e) {
        // record compile-time integer value when trivially available
        if (e->isValueDependent() || e->isTypeDependent()) { return; }
        if (!e->getType()->isIntegralOrEnumerationType()) { return; }
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) { llvm::SmallString<32> b; r.Val.getInt().toString(b); o << ",\"cv\":" << b; }
    }
    void expr(Expr const* e) {
        switch (e->getStmtClass()) {
            case Stmt::DeclRefExprClass: {
                auto x = cast<DeclRefExpr>(e); open("Ref", e); ty(e); o << ",\"d\":" << decl_id(x->getDecl());
                if (isa<VarDecl>(x->getDecl())) { constval(e); }
                if (x->hasExplicitTemplateArgs() && isa<FunctionDecl>(x->getDecl())) {
                    if (auto fa = cast<FunctionDecl>(x->getDecl())->getTemplateSpecializationArgs()) { targs(fa->asArray()); }
                }
                o << '}'; return;
            }
            case Stmt::MemberExprClass: {
                auto x = cast<MemberExpr>(e); open("Mem", e); ty(e); o << ",\"d\":" << decl_id(x->getMemberDecl()); if (x->isArrow()) { o << ",\"arrow\":1"; }
                kid("e", x->getBase()); o << '}'; return;
            }
            case Stmt::CXXThisExprClass: { open("This", e); ty(e); o << '}'; return; }
            case Stmt::CXXNullPtrLiteralExprClass: { open("Nullptr", e); ty(e); o << '}'; return; }
            case Stmt::StringLiteralClass: { auto x = cast<StringLiteral>(e); open("Str", e); ty(e); o << ",\"v\":"; if (x->getCharByteWidth() == 1) { jstr(o, x->getString()); } else { o << "\"\""; } o << '}'; return; }
            case Stmt::IntegerLiteralClass: { llvm::SmallString<32> b; cast<IntegerLiteral>(e)->getValue().toStringUnsigned(b); open("Int", e); ty(e); o << ",\"v\":" << b << '}'; return; }
            case Stmt::CharacterLiteralClass: { open("Char", e); ty(e); o << ",\"v\":" << cast<CharacterLiteral>(e)->getValue() << '}'; return; }
            case Stmt::CXXBoolLiteralExprClass: { open("Bool", e); ty(e); o << ",\"v\":" << (cast<CXXBoolLiteralExpr>(e)->getValue() ? "true" : "false") << '}'; return; }
            case Stmt::FloatingLiteralClass: { open("Float", e); ty(e); o << '}'; return; }
            case Stmt::UserDefinedLiteralClass: {
                auto x = cast<UserDefinedLiteral>(e); 
                if (x->getNumArgs() > 0) { if (auto l = dyn_cast<StringLiteral>(x->getArg(0)->IgnoreParenImpCasts())) { open("Str", e); ty(e); o << ",\"udl\":1,\"v\":"; jstr(o, l->getString()); o << '}'; return; } }
                break;
            }
            case Stmt::CXXOperatorCallExprClass: {
                auto x = cast<CXXOperatorCallExpr>(e); open("Op", e); ty(e); o << ",\"op\":"; jstr(o, getOperatorSpelling(x->getOperator()));
                if (auto c = x->getCalleeDecl()) { o << ",\"d\":" << decl_id(c); }
                else { o << ",\"unres\":1"; }
                kids(x->arguments()); o << '}'; return;
            }
            case Stmt::CXXMemberCallExprClass:
            case Stmt::CallExprClass: {
                auto x = cast<CallExpr>(e); open("Call", e); ty(e);
                if (auto c = x->getCalleeDecl()) {
                    o << ",\"d\":" << decl_id(c);
                    if (auto fd = dyn_cast<FunctionDecl>(c)) { if (auto fa = fd->getTemplateSpecializationArgs()) { targs(fa->asArray()); } }
                }
                kid("fn", x->getCallee()); kids(x->arguments()); o << '}'; return;
            }
            case Stmt::CXXTemporaryObjectExprClass:
            case Stmt::CXXConstructExprClass: {
                auto x = cast<CXXConstructExpr>(e);
                auto c = x->getConstructor();
                open("New", e); ty(e); o << ",\"d\":" << decl_id(c);
                if (c->isCopyConstructor()) { o << ",\"cc\":\"copy\""; } else if (c->isMoveConstructor()) { o << ",\"cc\":\"move\""; } else if (c->isDefaultConstructor() && x->getNumArgs() == 0) { o << ",\"cc\":\"default\""; }
                if (x->isListInitialization()) { o << ",\"li\":1"; } if (x->isStdInitListInitialization()) { o << ",\"sil\":1"; }
                if (x->isElidable()) { o << ",\"el\":1"; }
                kids(x->arguments()); o << '}'; return;
            }
            case Stmt::CXXInheritedCtorInitExprClass: { open("InheritedCtor", e); ty(e); o << '}'; return; }
            case Stmt::CXXNewExprClass: { auto x = cast<CXXNewExpr>(e); open("CxxNew", e); ty(e); kid("e", x->getInitializer()); o << '}'; return; }
            case Stmt::CXXThrowExprClass: { open("Throw", e); kid("e", cast<CXXThrowExpr>(e)->getSubExpr()); o << '}'; return; }
            case Stmt::LambdaExprClass: {
                auto x = cast<LambdaExpr>(e); open("Lambda", e); ty(e); o << ",\"params\":["; bool f = true;
                for (auto p : x->getCallOperator()->parameters()) { if (!f) { o << ','; } f = false; o << "{\"d\":" << decl_id(p) << ",\"n\":"; jstr(o, p->getNameAsString()); o << ",\"t\":" << type_id(p->getType()) << '}'; }
                o << "],\"rt\":" << type_id(x->getCallOperator()->getReturnType());
                o << ",\"op\":" << decl_id(x->getCallOperator());
                o << ",\"inits\":["; f = true;
                for (auto& c : x->captures()) { if (c.capturesVariable()) { if (auto v = dyn_cast<VarDecl>(c.getCapturedVar()); v && v->isInitCapture()) { if (!f) { o << ','; } f = false; vardecl(v); } } }
                o << ']';
                if (auto ft = x->getDependentCallOperator()) {
                    o << ",\"insts\":["; f = true;
                    for (auto sp : ft->specializations()) {
                        if (!sp->doesThisDeclarationHaveABody()) { continue; }
                        if (!f) { o << ','; } f = false;
                        o << "{\"params\":["; bool f2 = true;
                        for (auto p : sp->parameters()) { if (!f2) { o << ','; } f2 = false; o << "{\"d\":" << decl_id(p) << ",\"n\":"; jstr(o, p->getNameAsString()); o << ",\"t\":" << type_id(p->getType()) << '}'; }
                        o << "],\"rt\":" << type_id(sp->getReturnType()); kid("body", sp->getBody()); o << '}';
                    }
                    o << ']';
                }
                kid("body", x->getBody()); o << '}'; return;
            }
            case Stmt::UnaryOperatorClass: { auto x = cast<UnaryOperator>(e); open("Un", e); ty(e); constval(e); o << ",\"op\":"; jstr(o, UnaryOperator::getOpcodeStr(x->getOpcode())); if (x->isPostfix()) { o << ",\"post\":1"; } kid("e", x->getSubExpr()); o << '}'; return; }
            case Stmt::BinaryOperatorClass:
            case Stmt::CompoundAssignOperatorClass: { auto x = cast<BinaryOperator>(e); open("Bin", e); ty(e); constval(e); o << ",\"op\":"; jstr(o, x->getOpcodeStr()); o << ",\"c\":["; stmt(x->getLHS()); o << ','; stmt(x->getRHS()); o << "]}"; return; }
            case Stmt::ConditionalOperatorClass: { auto x = cast<ConditionalOperator>(e); open("Cond", e); ty(e); kid("cond", x->getCond()); kid("then", x->getTrueExpr()); kid("else", x->getFalseExpr()); o << '}'; return; }
            case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXDynamicCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: {
                auto x = cast<ExplicitCastExpr>(e); open("Cast", e); ty(e); constval(e); o << ",\"ck\":\"" << x->getStmtClassName() << "\",\"sk\":\"" << x->getCastKindName() << "\""; kid("e", x->getSubExpr()); o << '}'; return;
            }
            case Stmt::InitListExprClass: { auto x = cast<InitListExpr>(e); if (x->getSyntacticForm() && x->isSyntacticForm()) { if (x->getSemanticForm()) { x = x->getSemanticForm(); } } open("IList", e); ty(e); kids(x->inits()); o << '}'; return; }
            case Stmt::ArraySubscriptExprClass: { auto x = cast<ArraySubscriptExpr>(e); open("Idx", e); ty(e); o << ",\"c\":["; stmt(x->getBase()); o << ','; stmt(x->getIdx()); o << "]}"; return; }
            case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: { open("ValueInit", e); ty(e); o << '}'; return; }
            case Stmt::CXXDependentScopeMemberExprClass: { auto x = cast<CXXDependentScopeMemberExpr>(e); open("DepMem", e); declname(x->getMember()); if (!x->isImplicitAccess()) { kid("e", x->getBase()); } o << '}'; return; }
            case Stmt::UnresolvedMemberExprClass: { auto x = cast<UnresolvedMemberExpr>(e); open("DepMem", e); declname(x->getMemberName()); if (!x->isImplicitAccess()) { kid("e", x->getBase()); } o << '}'; return; }
            case Stmt::UnresolvedLookupExprClass: { auto x = cast<UnresolvedLookupExpr>(e); open("DepRef", e); declname(x->getName()); if (x->hasExplicitTemplateArgs()) { std::vector<TemplateArgument> v; for (auto& a : x->template_arguments()) { v.push_back(a.getArgument()); } targs(v); } o << '}'; return; }
            case Stmt::DependentScopeDeclRefExprClass: { auto x = cast<DependentScopeDeclRefExpr>(e); open("DepRef", e); declname(x->getDeclName()); o << '}'; return; }
            case Stmt::CXXUnresolvedConstructExprClass: { auto x = cast<CXXUnresolvedConstructExpr>(e); open("DepNew", e); ty(e); kids(x->arguments()); o << '}'; return; }
            case Stmt::SizeOfPackExprClass: case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::TypeTraitExprClass: { open("Const", e); ty(e); constval(e); o << '}'; return; }
            case Stmt::OpaqueValueExprClass: { auto x = cast<OpaqueValueExpr>(e); if (x->getSourceExpr()) { return stmt_(x->getSourceExpr()); } break; }
            default: break;
        }
        open(e->getStmtClassName(), e); ty(e); kids(e->children()); o << '}';
    }

    // ---- declarations
    void meta(Decl const* d) {
        // one line of decl table
        o << "{";
        std::string q;
        if (auto n = dyn_cast<NamedDecl>(d)) { llvm::raw_string_ostream ss(q); n->printQualifiedName(ss, pp); }
        o << "\"q\":"; jstr(o, q);
        o << ",\"k\":\"" << d->getDeclKindName() << "\"";
        if (isa<ParmVarDecl>(d)) {
            auto p = cast<ParmVarDecl>(d); o << ",\"pi\":" << p->getFunctionScopeIndex();
        }
        bool local = isa<VarDecl>(d) && cast<VarDecl>(d)->isLocalVarDeclOrParm();
        auto p = ploc(d->getLocation());
        if (p.isValid()) { o << ",\"f\":" << file_id(p.getFilename()) << ",\"l\":" << p.getLine(); }
        if (!local) {
            llvm::SmallString<128> usr; if (!index::generateUSRForDecl(d, usr)) { o << ",\"u\":"; jstr(o, usr); }
            if (auto n = dyn_cast<NamedDecl>(d)) { o << ",\"n\":"; jstr(o, n->getNameAsString()); }
        }
        if (auto v = dyn_cast<ValueDecl>(d)) { o << ",\"t\":" << type_id(v->getType()); }
        if (auto c = dyn_cast<EnumConstantDecl>(d)) { llvm::SmallString<32> b; c->getInitVal().toString(b); o << ",\"v\":" << b; }
        if (auto f = dyn_cast<FunctionDecl>(d)) {
            o << ",\"rt\":" << type_id(f->getReturnType());
            o << ",\"np\":" << f->getNumParams();
            if (f->isTemplateInstantiation()) { if (auto pt = f->getTemplateInstantiationPattern()) { o << ",\"pat\":" << decl_id(pt); } }
            if (auto fa = f->getTemplateSpecializationArgs()) { targs(fa->asArray()); }
        }
        if (auto m = dyn_cast<CXXMethodDecl>(d)) { std::string r; llvm::raw_string_ostream ss(r); m->getParent()->printQualifiedName(ss, pp); o << ",\"rec\":"; jstr(o, ctx.getRecordType(m->getParent()).getCanonicalType().getAsString(pp)); if (m->isConst()) { o << ",\"const\":1"; } if (m->isStatic()) { o << ",\"static\":1"; } if (m->isVirtual()) { o << ",\"virt\":1"; }
            if (m->getRefQualifier() == RQ_RValue) { o << ",\"rq\":\"&&\""; }
            if (auto c = dyn_cast<CXXConstructorDecl>(m)) { if (c->isCopyConstructor()) { o << ",\"cc\":\"copy\""; } else if (c->isMoveConstructor()) { o << ",\"cc\":\"move\""; } else if (c->isDefaultConstructor()) { o << ",\"cc\":\"default\""; } }
            if (m->size_overridden_methods() > 0) { o << ",\"ov\":["; bool f = true; for (auto b : m->overridden_methods()) { if (!f) { o << ','; } f = false; o << decl_id(b); } o << ']'; }
            if (m->isImplicit() || m->isDefaulted()) { o << ",\"def\":1"; }
            if (m->isDeleted()) { o << ",\"del\":1"; }
        }
        if (auto fd = dyn_cast<FieldDecl>(d)) { o << ",\"rec\":"; jstr(o, ctx.getRecordType(fd->getParent()).getCanonicalType().getAsString(pp)); }
        o << '}';
    }

    void function(FunctionDecl const* f) {
        auto p = ploc(f->getLocation());
        cur_file = file_id(p.getFilename());
        o << "{\"d\":" << decl_id(f) << ",\"f\":" << cur_file << ",\"l\":" << p.getLine();
        { auto pe = ploc(f->getEndLoc()); if (pe.isValid()) { o << ",\"le\":" << pe.getLine(); } }
        if (f->isDependentContext()) { o << ",\"dep\":1"; }
        if (f->isTemplateInstantiation()) { o << ",\"inst\":1"; }
        o << ",\"params\":["; bool first = true;
        for (auto pr : f->parameters()) { if (!first) { o << ','; } first = false; o << "{\"d\":" << decl_id(pr) << ",\"n\":"; jstr(o, pr->getNameAsString()); o << ",\"t\":" << type_id(pr->getType()); o << '}'; }
        o << ']';
        if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
            o << ",\"inits\":["; first = true;
            for (auto i : c->inits()) {
                if (!first) { o << ','; } first = false;
                o << "{\"w\":" << (i->isWritten() ? 1 : 0);
                if (i->isAnyMemberInitializer()) { o << ",\"m\":" << decl_id(i->getAnyMember()); }
                else if (i->isDelegatingInitializer()) { o << ",\"deleg\":1"; }
                else if (i->isBaseInitializer()) { o << ",\"base\":" << type_id(QualType(i->getBaseClass(), 0)); }
                kid("e", i->getInit()); o << '}';
            }
            o << ']';
        }
        o << ",\"body\":"; stmt(f->getBody());
        o << '}';
        cur_file = -1;
    }
};

class Collect : public RecursiveASTVisitor<Collect> {
public:
    explicit Collect(Dumper& d) : d(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    Dumper& d;
    std::vector<FunctionDecl const*> fns; std::vector<CXXRecordDecl const*> recs; std::vector<EnumDecl const*> enums; std::vector<VarDecl const*> vars; std::vector<TypedefNameDecl const*> aliases;
    std::set<Decl const*> seen;
    bool VisitTypedefNameDecl(TypedefNameDecl* t) { if (t->getDeclContext()->isNamespace() && d.analysed(t->getLocation()) && !t->getUnderlyingType()->isDependentType() && seen.insert(t).second) { aliases.push_back(t); } return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->doesThisDeclarationHaveABody()) { return true; }
        if (f->isDefaulted()) { return true; }
        if (auto m = dyn_cast<CXXMethodDecl>(f)) { if (m->getParent()->isLambda()) { return true; } }
        if (!d.analysed(f->getLocation())) { return true; }
        if (seen.insert(f).second) { fns.push_back(f); }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isLambda() || r->isImplicit()) { return true; }
        if (!d.analysed(r->getLocation())) { return true; }
        if (seen.insert(r).second) { recs.push_back(r); }
        return true;
    }
    static bool foreign(EnumDecl const* e) { auto q = e->getQualifiedNameAsString(); return q.rfind("takatori::", 0) == 0 || q.rfind("yugawara::", 0) == 0; }
    bool VisitEnumDecl(EnumDecl* e) { if (e->isThisDeclarationADefinition() && (d.analysed(e->getLocation()) || foreign(e)) && seen.insert(e).second) { enums.push_back(e); } return true; }
    bool VisitVarDecl(VarDecl* v) { if (v->hasGlobalStorage() && v->isThisDeclarationADefinition() && d.analysed(v->getLocation()) && seen.insert(v).second) { vars.push_back(v); } return true; }
};

class Consumer : public ASTConsumer {
public:
    CompilerInstance& ci;
    explicit Consumer(CompilerInstance& ci) : ci(ci) {}
    void HandleTranslationUnit(ASTContext& ctx) override {
        std::string buf; llvm::raw_string_ostream o(buf);
        Dumper d(ctx, o);
        Collect c(d); c.TraverseDecl(ctx.getTranslationUnitDecl());
        o << "{\"functions\":[\n"; bool first = true;
        for (auto f : c.fns) { if (!first) { o << ",\n"; } first = false; d.function(f); }
        o << "],\n\"records\":[\n"; first = true;
        for (auto r : c.recs) {
            if (!first) { o << ",\n"; } first = false;
            auto p = d.ploc(r->getLocation());
            o << "{\"n\":"; jstr(o, ctx.getRecordType(r).getCanonicalType().getAsString(d.pp));
            o << ",\"sn\":"; jstr(o, r->getNameAsString());
            o << ",\"f\":" << d.file_id(p.getFilename()) << ",\"l\":" << p.getLine();
            if (r->isDependentContext()) { o << ",\"dep\":1"; }
            if (r->isAbstract()) { o << ",\"abs\":1"; }
            if (auto ts = dyn_cast<ClassTemplateSpecializationDecl>(r)) { o << ",\"tmpl\":"; jstr(o, ts->getSpecializedTemplate()->getQualifiedNameAsString()); d.targs(ts->getTemplateArgs().asArray()); if (ts->isExplicitSpecialization()) { o << ",\"exp\":1"; } }
            o << ",\"bases\":["; bool f2 = true; for (auto& b : r->bases()) { if (!f2) { o << ','; } f2 = false; o << d.type_id(b.getType()); }
            o << "],\"fields\":["; f2 = true;
            for (auto f : r->fields()) { if (!f2) { o << ','; } f2 = false; o << "{\"d\":" << d.decl_id(f) << ",\"n\":"; jstr(o, f->getNameAsString()); o << ",\"t\":" << d.type_id(f->getType()) << ",\"acc\":" << (int) f->getAccess() << ",\"mut\":" << (f->isMutable() ? 1 : 0) << ",\"l\":" << d.ploc(f->getLocation()).getLine(); if (f->hasInClassInitializer() && f->getInClassInitializer()) { d.kid("init", f->getInClassInitializer()); } o << '}'; }
            o << "],\"methods\":["; f2 = true;
            for (auto m : r->methods()) { if (m->isImplicit()) { continue; } if (!f2) { o << ','; } f2 = false; o << d.decl_id(m); }
            for (auto dd : r->decls()) { if (auto ft = dyn_cast<FunctionTemplateDecl>(dd)) { if (!f2) { o << ','; } f2 = false; o << d.decl_id(ft->getTemplatedDecl()); } }
            o << "],\"statics\":["; f2 = true;
            for (auto dd : r->decls()) { if (auto v = dyn_cast<VarDecl>(dd)) { if (!f2) { o << ','; } f2 = false; o << "{\"d\":" << d.decl_id(v) << ",\"n\":"; jstr(o, v->getNameAsString()); o << ",\"t\":" << d.type_id(v->getType()); if (v->hasInit()) { d.kid("init", v->getInit()); } o << '}'; } }
            o << "],\"types\":["; f2 = true;
            for (auto dd : r->decls()) { if (auto v = dyn_cast<TypedefNameDecl>(dd)) { if (!f2) { o << ','; } f2 = false; o << "{\"n\":"; jstr(o, v->getNameAsString()); o << ",\"t\":" << d.type_id(v->getUnderlyingType()) << '}'; } }
            o << "]}";
        }
        o << "],\n\"enums\":[\n"; first = true;
        for (auto e : c.enums) {
            if (!first) { o << ",\n"; } first = false;
            auto p = d.ploc(e->getLocation());
            std::string q; { llvm::raw_string_ostream ss(q); e->printQualifiedName(ss, d.pp); }
            o << "{\"n\":"; jstr(o, ctx.getEnumType(e).getCanonicalType().getAsString(d.pp)); o << ",\"f\":" << d.file_id(p.getFilename()) << ",\"l\":" << p.getLine() << ",\"scoped\":" << (e->isScoped() ? 1 : 0) << ",\"c\":["; bool f2 = true;
            for (auto k : e->enumerators()) { if (!f2) { o << ','; } f2 = false; llvm::SmallString<32> b; k->getInitVal().toString(b); o << "{\"n\":"; jstr(o, k->getNameAsString()); o << ",\"v\":" << b << ",\"d\":" << d.decl_id(k) << '}'; }
            o << "]}";
        }
        o << "],\n\"vars\":[\n"; first = true;
        for (auto v : c.vars) { if (!first) { o << ",\n"; } first = false; auto p = d.ploc(v->getLocation()); d.cur_file = d.file_id(p.getFilename()); 
            std::string q; { llvm::raw_string_ostream ss(q); v->printQualifiedName(ss, d.pp); }
            o << "{\"d\":" << d.decl_id(v) << ",\"q\":"; jstr(o, q); o << ",\"n\":"; jstr(o, v->getNameAsString()); o << ",\"f\":" << d.cur_file << ",\"l\":" << p.getLine() << ",\"t\":" << d.type_id(v->getType()) << ",\"const\":" << (v->getType().isConstQualified() ? 1 : 0) << ",\"constexpr\":" << (v->isConstexpr() ? 1 : 0) << ",\"loc\":" << (v->isStaticLocal() ? 1 : 0) << ",\"tls\":" << (v->getTLSKind() != VarDecl::TLS_None ? 1 : 0);
            if (v->hasInit()) { d.kid("init", v->getInit()); } o << '}'; d.cur_file = -1; }
        o << "],\n\"aliases\":[\n"; first = true;
        for (auto t : c.aliases) { if (!first) { o << ",\n"; } first = false; auto p = d.ploc(t->getLocation()); std::string q; { llvm::raw_string_ostream ss(q); t->printQualifiedName(ss, d.pp); }
            o << "{\"q\":"; jstr(o, q); o << ",\"f\":" << d.file_id(p.getFilename()) << ",\"l\":" << p.getLine() << ",\"t\":" << d.type_id(t->getUnderlyingType()) << '}'; }
        o << "],\n\"decls\":[\n"; first = true;
        for (std::size_t i = 0; i < d.declv.size(); ++i) { if (!first) { o << ",\n"; } first = false; d.meta(d.declv[i]); }
        o << "],\n\"types\":["; first = true;
        for (std::size_t i = 0; i < d.typev.size(); ++i) { if (!first) { o << ","; } first = false; jstr(o, d.typev[i]); }
        o << "],\n\"files\":["; first = true;
        for (std::size_t i = 0; i < d.filev.size(); ++i) { if (!first) { o << ","; } first = false; jstr(o, d.filev[i]); }
        o << "],\n\"errors\":" << ci.getDiagnostics().getClient()->getNumErrors() << "}\n";
        o.flush();
        std::ofstream f(out_path, std::ios::binary); f << buf;
    }
};

class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override { return std::make_unique<Consumer>(ci); }
};

int main(int argc, char** argv) {
    if (argc < 5) { llvm::errs() << "usage: mzfacts OUT ROOTS -- FILE ARGS...\n"; return 2; }
    out_path = argv[1];
    { std::string r = argv[2]; std::size_t p = 0; while (p <= r.size()) { auto q = r.find(':', p); if (q == std::string::npos) { q = r.size(); } if (q > p) { roots.push_back(r.substr(p, q - p)); } p = q + 1; } }
    std::vector<std::string> args { "clang++", "-fsyntax-only" };
    for (int i = 5; i < argc; ++i) { args.emplace_back(argv[i]); }
    args.emplace_back(argv[4]);
    llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
    bool ok = inv.run();
    return ok ? 0 : 1;
}
