// cxxdump: mechanical extraction of the C++ functions of a translation unit.
//
// Uses clang's own front end (Sema-checked AST) and writes, as JSON, the body of
// every function definition that lives under a given root directory, with all names
// resolved, implicit conversions explicit, default arguments expanded and templates
// instantiated.  Dropped: comments, attributes, source formatting, access
// specifiers, debug-only casts (no-op casts), lifetimes of temporaries, destructors
// of locals, and functions outside the root (system headers).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <set>
using namespace clang;
namespace json = llvm::json;
using json::Object; using json::Array; using json::Value;

static std::string Root;

struct Dumper {
    ASTContext& C;
    PrintingPolicy PP;
    std::map<const Decl*, int64_t> ids;
    Object globals;   // constant globals referenced
    Object records;   // records referenced
    std::set<std::string> enums;
    std::set<const RecordDecl*> recQueue, recDone;
    std::set<const FunctionDecl*> *fnQueue = nullptr;
    explicit Dumper(ASTContext& c) : C(c), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true;
        PP.Bool = true; PP.PrintCanonicalTypes = true;
    }
    int64_t id(const Decl* d) {
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        int64_t n = ids.size() + 1; ids[d] = n; return n;
    }
    int line(SourceLocation l) {
        if (l.isInvalid()) return 0;
        return C.getSourceManager().getExpansionLineNumber(l);
    }
    std::string file(SourceLocation l) {
        auto& SM = C.getSourceManager();
        l = SM.getExpansionLoc(l);
        auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
        if (!fe) return "";
        std::string p = std::string(fe->getFileEntry().tryGetRealPathName());
        return p;
    }
    std::string ty(QualType t) {
        if (t.isNull()) return "?";
        noteType(t);
        return t.getCanonicalType().getAsString(PP);
    }
    void noteType(QualType t) {
        t = t.getCanonicalType();
        while (true) {
            if (t->isPointerType() || t->isReferenceType()) t = t->getPointeeType().getCanonicalType();
            else if (auto at = dyn_cast<clang::ArrayType>(t.getTypePtr())) t = at->getElementType().getCanonicalType();
            else break;
        }
        if (t->isEnumeralType()) enums.insert(t.getUnqualifiedType().getAsString(PP));
        if (auto rd = t->getAsCXXRecordDecl()) {
            if (auto d = rd->getDefinition()) recQueue.insert(d);
            if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
                for (auto& a : sp->getTemplateArgs().asArray())
                    if (a.getKind() == TemplateArgument::Type) {
                        QualType x = a.getAsType().getCanonicalType();
                        if (x->isPointerType()) x = x->getPointeeType().getCanonicalType();
                        if (auto r2 = x->getAsCXXRecordDecl())
                            if (auto d2 = r2->getDefinition()) recQueue.insert(d2);
                    }
        }
    }
    std::string fname(const FunctionDecl* f) {
        std::string s; llvm::raw_string_ostream os(s);
        f->printQualifiedName(os, PP);
        return os.str();
    }
    std::string fsig(const FunctionDecl* f) {
        std::string s = fname(f);
        if (auto ta = f->getTemplateSpecializationArgs()) {
            s += "<";
            bool first = true;
            for (auto& a : ta->asArray()) {
                if (!first) s += ",";
                first = false;
                std::string b; llvm::raw_string_ostream o(b);
                a.print(PP, o, true); s += o.str();
            }
            s += ">";
        }
        // class template args
        if (auto m = dyn_cast<CXXMethodDecl>(f))
            if (isa<ClassTemplateSpecializationDecl>(m->getParent()))
                s = recName(m->getParent()) + "::" + f->getNameAsString() +
                    (s.size() && s.back()=='>' && f->getTemplateSpecializationArgs() ? s.substr(s.find_last_of('<')) : "");
        s += "(";
        for (unsigned i = 0; i < f->getNumParams(); i++) {
            if (i) s += ",";
            s += ty(f->getParamDecl(i)->getType());
        }
        s += ")";
        if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += " const";
        return s;
    }
    std::string recName(const RecordDecl* r) {
        return C.getRecordType(r).getCanonicalType().getUnqualifiedType().getAsString(PP);
    }
    // ------------------------------------------------------------------
    static const Expr* strip(const Expr* e) {
        while (true) {
            const Expr* p = e;
            if (auto x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if (auto x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
            else if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
            else if (auto x = dyn_cast<CXXFunctionalCastExpr>(e)) {
                if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_NoOp) e = x->getSubExpr();
            }
            else if (auto x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) e = x->getSourceExpr(); }
            else if (auto x = dyn_cast<ImplicitCastExpr>(e)) {
                switch (x->getCastKind()) {
                case CK_LValueToRValue: case CK_NoOp: case CK_ConstructorConversion:
                case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
                case CK_UserDefinedConversion:
                case CK_BuiltinFnToFnPtr: case CK_NullToPointer:
                    e = x->getSubExpr(); break;
                default: break;
                }
            }
            if (e == p) return e;
        }
    }
    static const APValue* evalVar(const VarDecl* v) {
        const VarDecl* d = nullptr; const Expr* in = v->getAnyInitializer(d);
        if (!in || !d || in->isValueDependent() || in->isTypeDependent() || !d->getInit()) return nullptr;
        return d->evaluateValue();
    }
    Value constGlobal(const VarDecl* v) {
        Object o;
        if (v->hasInit() || v->getAnyInitializer()) {
            QualType t = v->getType();
            if (t.isConstQualified() || v->isConstexpr()) {
                if (auto* val = (t->isArithmeticType() || t->isEnumeralType()) ? evalVar(v) : nullptr) {
                    if (val->isFloat()) {
                        llvm::SmallString<40> s; val->getFloat().toString(s, 25, 0);
                        o["f"] = s.str().str();
                    } else if (val->isInt()) {
                        o["i"] = llvm::toString(val->getInt(), 10);
                    } 
                }
            }
        }
        return o;
    }
    Value declref(const ValueDecl* d) {
        Object o{{"k","ref"},{"name",d->getNameAsString()},{"id",id(d)},{"t",ty(d->getType())}};
        if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
            o["k"] = "enum"; o["v"] = llvm::toString(ec->getInitVal(), 10);
            std::string s; llvm::raw_string_ostream os(s); ec->printQualifiedName(os, PP); o["q"] = os.str();
        } else if (auto f = dyn_cast<FunctionDecl>(d)) {
            o["k"] = "fn"; o["q"] = fname(f); o["sig"] = fsig(f); noteFn(f);
        } else if (isa<ParmVarDecl>(d)) {
            o["k"] = "ref"; o["kind"] = "param";
        } else if (auto v = dyn_cast<VarDecl>(d)) {
            if (v->isLocalVarDecl() && !v->isStaticLocal()) o["kind"] = "local";
            else {
                o["kind"] = v->isStaticLocal() ? "staticlocal" : "global";
                std::string s; llvm::raw_string_ostream os(s); v->printQualifiedName(os, PP);
                o["q"] = os.str();
                o["const"] = constGlobal(v);
                if (v->isStaticLocal() && v->getInit()) {
                    if (!inInit) { inInit = true; o["init"] = expr(v->getInit()); inInit = false; }
                } else if (auto in = v->getAnyInitializer()) {
                    // constant arrays: emit the initialiser
                    if (!inInit && v->getType().isConstQualified() && !v->getType()->isArithmeticType()) {
                        inInit = true; o["init"] = expr(in); inInit = false;
                    } else if (!inInit && (v->getType()->isArrayType() || (v->getType().isConstQualified() && !(v->getType()->isArithmeticType() && evalVar(v))))) {
                        inInit = true; o["init"] = expr(in); inInit = false;
                    }
                }
            }
        } else if (auto b = dyn_cast<BindingDecl>(d)) {
            o["kind"] = "binding";
        }
        return o;
    }
    bool inInit = false;
    void noteFn(const FunctionDecl* f) { if (fnQueue) fnQueue->insert(f); }

    Array exprs(llvm::ArrayRef<const Expr*> v) { Array a; for (auto e : v) a.push_back(expr(e)); return a; }

    void callee(Object& o, const FunctionDecl* f) {
        if (!f) return;
        o["q"] = fname(f); o["sig"] = fsig(f); noteFn(f);
        o["rt"] = ty(f->getReturnType());
        Array pt; for (auto p : f->parameters()) pt.push_back(ty(p->getType()));
        o["pt"] = std::move(pt);
        if (auto m = dyn_cast<CXXMethodDecl>(f)) {
            o["method"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isVirtual()) o["virt"] = true;
            if (m->isConst()) o["cm"] = true;
            o["cls"] = recName(m->getParent());
        }
        if (f->isVariadic()) o["variadic"] = true;
        o["n"] = f->getNameAsString();
    }
    Value expr(const Expr* e0) {
        if (!e0) return nullptr;
        const Expr* e = strip(e0);
        Object o; o["t"] = ty(e->getType()); o["l"] = line(e->getBeginLoc());
        if (auto x = dyn_cast<IntegerLiteral>(e)) { o["k"]="int"; o["v"]=llvm::toString(x->getValue(),10,true); 
            if (x->getType()->isUnsignedIntegerType()) o["v"]=llvm::toString(x->getValue(),10,false); return o; }
        if (auto x = dyn_cast<FloatingLiteral>(e)) {
            o["k"]="float"; llvm::SmallString<40> s; x->getValue().toString(s, 25, 0);
            o["v"]=s.str().str();
            // exact source spelling
            llvm::StringRef src = Lexer::getSourceText(CharSourceRange::getTokenRange(x->getSourceRange()), C.getSourceManager(), C.getLangOpts());
            o["src"]=src.str(); return o; }
        if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"]="bool"; o["v"]=x->getValue(); return o; }
        if (auto x = dyn_cast<CharacterLiteral>(e)) { o["k"]="char"; o["v"]=(int64_t)x->getValue(); return o; }
        if (auto x = dyn_cast<clang::StringLiteral>(e)) { o["k"]="str"; 
            o["v"] = x->isOrdinary() ? json::fixUTF8(x->getString()) : std::string("?"); return o; }
        if (isa<PredefinedExpr>(e)) { o["k"]="str"; o["v"]="__func__"; return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"]="null"; return o; }
        if (isa<CXXThisExpr>(e)) { o["k"]="this"; return o; }
        if (auto x = dyn_cast<DeclRefExpr>(e)) { 
            if (auto b = dyn_cast<BindingDecl>(x->getDecl())) {
                Value v = declref(b); v.getAsObject()->insert({"l", o["l"]}); return v;
            }
            Value v = declref(x->getDecl()); (*v.getAsObject())["l"] = line(e->getBeginLoc()); return v; }
        if (auto x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* d = x->getMemberDecl();
            if (auto vd = dyn_cast<VarDecl>(d)) { Value v = declref(vd); return v; }
            if (auto ec = dyn_cast<EnumConstantDecl>(d)) { return declref(ec); }
            o["k"]="mem"; o["b"]=expr(x->getBase()); o["f"]=d->getNameAsString(); o["arrow"]=x->isArrow();
            if (auto fd = dyn_cast<FieldDecl>(d)) o["rec"]=recName(fd->getParent());
            if (auto md = dyn_cast<CXXMethodDecl>(d)) { o["k"]="memfn"; o["q"]=fname(md); o["sig"]=fsig(md); noteFn(md);}
            return o; }
        if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"]="mcall"; const CXXMethodDecl* m = x->getMethodDecl(); callee(o, m);
            o["obj"]=expr(x->getImplicitObjectArgument());
            const Expr* ce = strip(x->getCallee());
            if (auto me = dyn_cast<MemberExpr>(ce)) { o["arrow"]=me->isArrow(); if (me->hasQualifier()) o["qual"]=true; }
            o["ot"] = ty(x->getObjectType());
            Array a; for (auto g : x->arguments()) a.push_back(expr(g)); o["a"]=std::move(a); return o; }
        if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"]="opcall"; o["op"]=getOperatorSpelling(x->getOperator());
            callee(o, x->getDirectCallee());
            Array a; for (auto g : x->arguments()) a.push_back(expr(g)); o["a"]=std::move(a); return o; }
        if (auto x = dyn_cast<CallExpr>(e)) {
            o["k"]="call"; callee(o, x->getDirectCallee());
            if (!x->getDirectCallee()) o["fn"]=expr(x->getCallee());
            Array a; for (auto g : x->arguments()) a.push_back(expr(g)); o["a"]=std::move(a); return o; }
        if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
        if (auto x = dyn_cast<CompoundAssignOperator>(e)) {
            o["k"]="assign"; o["op"]=x->getOpcodeStr().str(); o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS());
            o["ct"]=ty(x->getComputationResultType()); return o; }
        if (auto x = dyn_cast<BinaryOperator>(e)) {
            o["k"]= x->isAssignmentOp() ? "assign" : "bin"; o["op"]=x->getOpcodeStr().str();
            o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); return o; }
        if (auto x = dyn_cast<UnaryOperator>(e)) {
            o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) o["post"]=true; o["a"]=expr(x->getSubExpr()); return o; }
        if (auto x = dyn_cast<ConditionalOperator>(e)) {
            o["k"]="cond"; o["c"]=expr(x->getCond()); o["a"]=expr(x->getTrueExpr()); o["b"]=expr(x->getFalseExpr()); return o; }
        if (auto x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"]="idx"; o["a"]=expr(x->getBase()); o["b"]=expr(x->getIdx()); return o; }
        if (auto x = dyn_cast<CXXThrowExpr>(e)) { o["k"]="throw"; if (x->getSubExpr()) { o["a"]=ty(x->getSubExpr()->getType()); } return o; }
        if (auto x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            o["k"]="init"; Array a; for (auto g : x->inits()) a.push_back(expr(g)); o["a"]=std::move(a);
            if (x->hasArrayFiller()) o["filler"]=true;
            return o; }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"]="zero"; return o; }
        if (auto x = dyn_cast<CXXConstructExpr>(e)) {
            // elidable/copy of same type
            o["k"]="ctor"; o["cls"]=recName(x->getConstructor()->getParent());
            o["sig"]=fsig(x->getConstructor()); noteFn(x->getConstructor());
            o["q"]=fname(x->getConstructor());
            if (x->getConstructor()->isCopyOrMoveConstructor()) o["copy"]=true;
            if (x->isStdInitListInitialization()) o["il"]=true;
            Array a; for (auto g : x->arguments()) a.push_back(expr(g)); o["a"]=std::move(a); 
            Array pt; for (auto p : x->getConstructor()->parameters()) pt.push_back(ty(p->getType()));
            o["pt"] = std::move(pt);
            return o; }
        if (auto x = dyn_cast<CXXNewExpr>(e)) { o["k"]="new"; o["nt"]=ty(x->getAllocatedType());
            if (auto ce = x->getConstructExpr()) o["ctor"]=expr(ce); return o; }
        if (auto x = dyn_cast<CXXDeleteExpr>(e)) { o["k"]="delete"; o["a"]=expr(x->getArgument()); return o; }
        if (auto x = dyn_cast<LambdaExpr>(e)) {
            o["k"]="lambda"; 
            Array ps; for (auto p : x->getCallOperator()->parameters()) ps.push_back(Object{{"id",id(p)},{"name",p->getNameAsString()},{"t",ty(p->getType())}});
            o["params"]=std::move(ps);
            const Stmt* body = x->getBody();
            if (x->isGenericLambda()) o["generic"]=true;
            Array caps; for (auto& c : x->captures()) {
                if (c.capturesVariable()) caps.push_back(Object{{"id",id(c.getCapturedVar())},{"ref",c.getCaptureKind()==LCK_ByRef}});
                else if (c.capturesThis()) caps.push_back(Object{{"this",true}});
            }
            o["caps"]=std::move(caps);
            o["sig"]=fsig(x->getCallOperator());
            o["body"]=stmt(body); return o; }
        if (auto x = dyn_cast<CXXTypeidExpr>(e)) { o["k"]="typeid"; return o; }
        if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"]="sizeof"; 
            Expr::EvalResult r; if (x->EvaluateAsInt(r, C)) { o["k"]="int"; o["v"]=llvm::toString(r.Val.getInt(),10);} return o; }
        if (auto x = dyn_cast<CastExpr>(e)) {
            o["k"]="cast"; o["ck"]=x->getCastKindName(); o["a"]=expr(x->getSubExpr());
            o["st"]=ty(x->getSubExpr()->getType());
            if (isa<CXXDynamicCastExpr>(e)) o["dyn"]=true;
            return o; }
        o["k"]="unk"; o["cls"]=e->getStmtClassName(); return o;
    }
    Value var(const VarDecl* v) {
        Object o{{"id",id(v)},{"name",v->getNameAsString()},{"t",ty(v->getType())},{"l",line(v->getBeginLoc())}};
        if (v->isStaticLocal()) o["static"]=true;
        if (v->getType().isConstQualified()) o["cst"]=true;
        if (v->getInit()) o["init"]=expr(v->getInit());
        if (auto dd = dyn_cast<DecompositionDecl>(v)) {
            Array bs; 
            for (auto b : dd->bindings()) {
                Object bo{{"id",id(b)},{"name",b->getNameAsString()},{"t",ty(b->getType())}};
                bs.push_back(std::move(bo));
            }
            o["bindings"]=std::move(bs);
        }
        return o;
    }
    Value stmt(const Stmt* s) {
        if (!s) return nullptr;
        if (auto e = dyn_cast<Expr>(s)) return Object{{"k","expr"},{"l",line(s->getBeginLoc())},{"e",expr(e)}};
        Object o; o["l"]=line(s->getBeginLoc());
        if (auto x = dyn_cast<CompoundStmt>(s)) { o["k"]="block"; Array a; for (auto c : x->body()) a.push_back(stmt(c)); o["a"]=std::move(a); return o; }
        if (auto x = dyn_cast<DeclStmt>(s)) { o["k"]="decl"; Array a; for (auto d : x->decls()) if (auto v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["a"]=std::move(a); return o; }
        if (auto x = dyn_cast<ReturnStmt>(s)) { o["k"]="return"; if (x->getRetValue()) o["e"]=expr(x->getRetValue()); return o; }
        if (auto x = dyn_cast<IfStmt>(s)) { o["k"]="if"; if (x->getInit()) o["init"]=stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"]=var(x->getConditionVariable());
            if (x->isConstexpr()) {
                Expr::EvalResult r; if (x->getCond()->EvaluateAsInt(r, C)) { bool b = r.Val.getInt().getBoolValue(); 
                    const Stmt* t = b ? x->getThen() : x->getElse(); if (!t) return Object{{"k","null"}}; return stmt(t);} }
            o["c"]=expr(x->getCond()); o["a"]=stmt(x->getThen()); o["b"]=stmt(x->getElse()); return o; }
        if (auto x = dyn_cast<ForStmt>(s)) { o["k"]="for"; o["init"]=stmt(x->getInit()); 
            if (x->getConditionVariable()) o["cv"]=var(x->getConditionVariable());
            o["c"]= x->getCond()? expr(x->getCond()) : Value(nullptr);
            o["inc"]= x->getInc()? expr(x->getInc()) : Value(nullptr); o["a"]=stmt(x->getBody()); return o; }
        if (auto x = dyn_cast<WhileStmt>(s)) { o["k"]="while"; 
            if (x->getConditionVariable()) o["cv"]=var(x->getConditionVariable());
            o["c"]=expr(x->getCond()); o["a"]=stmt(x->getBody()); return o; }
        if (auto x = dyn_cast<DoStmt>(s)) { o["k"]="do"; o["c"]=expr(x->getCond()); o["a"]=stmt(x->getBody()); return o; }
        if (auto x = dyn_cast<CXXForRangeStmt>(s)) { o["k"]="range"; o["range"]=expr(x->getRangeInit()); o["rt"]=ty(x->getRangeInit()->getType());
            o["var"]=var(x->getLoopVariable()); o["a"]=stmt(x->getBody()); return o; }
        if (isa<BreakStmt>(s)) { o["k"]="break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"]="continue"; return o; }
        if (isa<NullStmt>(s)) { o["k"]="null"; return o; }
        if (auto x = dyn_cast<SwitchStmt>(s)) { o["k"]="switch"; o["c"]=expr(x->getCond()); o["a"]=stmt(x->getBody()); return o; }
        if (auto x = dyn_cast<CaseStmt>(s)) { o["k"]="case"; o["v"]=expr(x->getLHS()); 
            Expr::EvalResult r; if (x->getLHS()->EvaluateAsInt(r, C)) o["iv"]=llvm::toString(r.Val.getInt(),10);
            o["a"]=stmt(x->getSubStmt()); return o; }
        if (auto x = dyn_cast<DefaultStmt>(s)) { o["k"]="default"; o["a"]=stmt(x->getSubStmt()); return o; }
        if (auto x = dyn_cast<CXXTryStmt>(s)) { o["k"]="try"; o["a"]=stmt(x->getTryBlock()); 
            Array hs; for (unsigned i=0;i<x->getNumHandlers();i++) { auto h=x->getHandler(i); 
                hs.push_back(Object{{"t", h->getCaughtType().isNull()?"...":ty(h->getCaughtType())},{"a",stmt(h->getHandlerBlock())}}); }
            o["h"]=std::move(hs); return o; }
        if (auto x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
        o["k"]="unk"; o["cls"]=s->getStmtClassName(); return o;
    }
    Value func(const FunctionDecl* f) {
        Object o; callee(o, f);
        o["file"]=file(f->getLocation()); o["line"]=line(f->getBeginLoc()); o["endline"]=line(f->getEndLoc());
        Array ps; for (auto p : f->parameters()) {
            Object po{{"id",id(p)},{"name",p->getNameAsString()},{"t",ty(p->getType())}};
            ps.push_back(std::move(po));
        }
        o["params"]=std::move(ps);
        if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
            Array inits;
            for (auto i : c->inits()) {
                Object io;
                if (i->isMemberInitializer()) io["f"]=i->getMember()->getNameAsString();
                else if (i->isBaseInitializer()) io["base"]=ty(QualType(i->getBaseClass(),0));
                else if (i->isDelegatingInitializer()) io["deleg"]=true;
                io["e"]=expr(i->getInit());
                inits.push_back(std::move(io));
            }
            o["inits"]=std::move(inits); o["isctor"]=true;
        }
        o["body"]=stmt(f->getBody());
        return o;
    }
    Value record(const CXXRecordDecl* r) {
        Object o; Array fs;
        for (auto f : r->fields()) {
            Object fo{{"name",f->getNameAsString()},{"t",ty(f->getType())}};
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"]=expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"]=std::move(fs);
        Array bs; for (auto& b : r->bases()) bs.push_back(ty(b.getType()));
        o["bases"]=std::move(bs);
        Array ms;
        for (auto m : r->methods()) if (m->isVirtual() && !isa<CXXDestructorDecl>(m)) {
            Object mo{{"n",m->getNameAsString()},{"sig",fsig(m)},{"pure",m->isPureVirtual()}};
            Array ov; for (auto b : m->overridden_methods()) ov.push_back(fsig(b));
            mo["over"]=std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["virtuals"]=std::move(ms);
        return o;
    }
};

struct V : RecursiveASTVisitor<V> {
    std::vector<const FunctionDecl*> fns;
    ASTContext& C;
    V(ASTContext& c) : C(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || f->isDefaulted() || f->isDeleted()) return true;
        if (f->getBody() == nullptr) return true;
        if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) { return true; }
        auto& SM = C.getSourceManager();
        SourceLocation l = SM.getExpansionLoc(f->getLocation());
        auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
        if (!fe) return true;
        llvm::StringRef p = fe->getFileEntry().tryGetRealPathName();
        if (!p.starts_with(Root)) return true;
        fns.push_back(f);
        return true;
    }
};
struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { exit(3); }
        V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
        Dumper D(C);
        Array fa; std::set<std::string> seen;
        for (auto f : v.fns) {
            std::string s = D.fsig(f);
            if (!seen.insert(s).second) continue;
            fa.push_back(D.func(f));
        }
        Object recs;
        while (!D.recQueue.empty()) {
            auto q = D.recQueue; D.recQueue.clear();
            for (auto r : q) {
                if (!D.recDone.insert(r).second) continue;
                auto cr = dyn_cast<CXXRecordDecl>(r);
                if (!cr || cr->isDependentContext() || cr->isLambda()) continue;
                auto& SM = C.getSourceManager();
                auto fe = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(r->getLocation())));
                if (!fe || !fe->getFileEntry().tryGetRealPathName().starts_with(Root)) continue;
                for (auto& b : cr->bases()) D.noteType(b.getType());
                recs[D.recName(r)] = D.record(cr);
            }
        }
        Object out; out["functions"]=std::move(fa); out["records"]=std::move(recs);
        Array en; for (auto& e : D.enums) en.push_back(e); out["enums"]=std::move(en);
        llvm::outs() << Value(std::move(out)) << "\n";
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char** argv) {
    // cxxdump ROOT FILE -- flags
    if (argc < 4) return 2;
    Root = argv[1]; std::string f = argv[2];
    std::vector<std::string> args;
    int i = 3; if (std::string(argv[i]) == "--") i++;
    for (; i < argc; i++) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {f});
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
