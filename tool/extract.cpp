// jogasaki static-analysis fact extractor.
// Parses one translation unit with clang's front end and dumps, as JSON, the fully resolved
// (overloads, templates, implicit conversions) bodies of every function defined under the
// repository root, plus record, enum and global-variable declarations.  No code is executed.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/ArgumentsAdjusters.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Value;
using llvm::json::Object;
using llvm::json::Array;

static std::string g_root = "/repo";
static std::vector<std::string> g_also;   // extra roots whose definitions are dumped
static bool g_mainonly = false;
static std::string g_out;
static std::vector<std::string> g_args;
static std::string g_file;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
    explicit Dumper(ASTContext& c) : ctx_(c), sm_(c.getSourceManager()), pp_(c.getLangOpts()) {
        pp_.SuppressTagKeyword = true;
        pp_.Bool = true;
        pp_.PrintCanonicalTypes = true;
        pp_.SuppressInlineNamespace = true;
        pp_.FullyQualifiedName = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    ASTContext& ctx_;
    SourceManager& sm_;
    PrintingPolicy pp_;
    Array fns, recs, enums, globals;
    Object types;
    std::set<std::string> seen_fn, seen_rec, seen_enum, seen_glob;
    std::set<std::string> files_;

    std::string fileOf(SourceLocation l) {
        if (l.isInvalid()) return "";
        auto e = sm_.getExpansionLoc(l);
        auto p = sm_.getPresumedLoc(e);
        if (p.isInvalid()) return "";
        std::string f = p.getFilename();
        llvm::SmallString<256> abs(f);
        sm_.getFileManager().makeAbsolutePath(abs);
        llvm::sys::path::remove_dots(abs, true);
        return std::string(abs.str());
    }
    unsigned lineOf(SourceLocation l) {
        if (l.isInvalid()) return 0;
        return sm_.getExpansionLineNumber(l);
    }
    bool inScope(SourceLocation l) {
        if (l.isInvalid()) return false;
        std::string f = fileOf(l);
        if (g_mainonly && !sm_.isInMainFile(sm_.getExpansionLoc(l))) return false;
        if (f.rfind(g_root + "/", 0) == 0) {
            if (f.rfind(g_root + "/_build/", 0) == 0) return false;
            return true;
        }
        for (auto& a : g_also) if (f.rfind(a, 0) == 0) return true;
        return false;
    }
    bool inRepo(SourceLocation l) {
        if (l.isInvalid()) return false;
        std::string f = fileOf(l);
        if (f.rfind(g_root + "/_build/", 0) == 0) return false;
        if (f.rfind(g_root + "/", 0) == 0) return true;
        for (auto& a : g_also) if (f.rfind(a, 0) == 0) return true;
        return false;
    }
    std::string usr(Decl const* d) {
        if (!d) return "";
        llvm::SmallString<256> b;
        if (index::generateUSRForDecl(d, b)) {
            return "anon@" + std::to_string(d->getID());
        }
        return std::string(b.str());
    }
    // unique key of a function: USR plus template arguments for instantiations, plus lambda location
    std::string fkey(FunctionDecl const* f) {
        if (!f) return "";
        f = f->getCanonicalDecl();
        std::string k;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda()) {
                auto l = m->getParent()->getBeginLoc();
                k = "lambda@" + fileOf(l) + ":" + std::to_string(lineOf(l)) + ":" +
                    std::to_string(sm_.getExpansionColumnNumber(l)) + "#" + sigOf(f);
                if (auto* ctxf = dyn_cast_or_null<FunctionDecl>(m->getParent()->getParent())) {
                    if (ctxf->isTemplateInstantiation()) k += "@" + fkey(ctxf);
                }
                return k;
            }
        }
        k = usr(f);
        // instantiation of member of class template etc. : append qualified printed name
        if (f->isTemplateInstantiation() || isInSpec(f)) {
            k += "|" + qname(f, true) + "|" + sigOf(f);
        }
        return k;
    }
    bool isInSpec(DeclContext const* dc) {
        while (dc) {
            if (isa<ClassTemplateSpecializationDecl>(dc)) return true;
            if (auto* f = dyn_cast<FunctionDecl>(dc)) if (f->isTemplateInstantiation()) return true;
            dc = dc->getParent();
        }
        return false;
    }
    bool isInSpec(FunctionDecl const* f) { return isInSpec(f->getDeclContext()); }
    std::string sigOf(FunctionDecl const* f) {
        std::string s = "(";
        for (auto* p : f->parameters()) { s += ty(p->getType()); s += ","; }
        s += ")";
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += "const";
        return s;
    }
    std::string qname(NamedDecl const* d, bool targs = false) {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (targs) {
            d->getNameForDiagnostic(os, pp_, true);
        } else {
            d->printQualifiedName(os, pp_);
        }
        os.flush();
        return s;
    }
    std::string ty(QualType t) {
        if (t.isNull()) return "?";
        QualType c = t.getCanonicalType();
        std::string s = c.getAsString(pp_);
        noteType(c, s);
        return s;
    }
    void noteType(QualType c, std::string const& s) {
        if (types.get(s)) return;
        QualType u = c.getNonReferenceType().getUnqualifiedType();
        Object o;
        if (u->isDependentType()) { o["k"] = "dep"; types[s] = std::move(o); return; }
        if (auto* e = u->getAs<EnumType>()) {
            o["k"] = "enum";
            o["q"] = qname(e->getDecl());
            auto it = e->getDecl()->getIntegerType();
            if (!it.isNull() && e->getDecl()->isComplete()) {
                o["w"] = (int64_t) ctx_.getTypeSize(it);
                o["s"] = it->isSignedIntegerType();
            }
        } else if (u->isBooleanType()) {
            o["k"] = "bool"; o["w"] = 1; o["s"] = false;
        } else if (u->isIntegerType()) {
            o["k"] = "int";
            o["w"] = (int64_t) ctx_.getTypeSize(u);
            o["s"] = u->isSignedIntegerType();
        } else if (u->isFloatingType()) {
            o["k"] = "float";
            o["w"] = (int64_t) ctx_.getTypeSize(u);
        } else if (u->isPointerType() || u->isNullPtrType()) {
            o["k"] = "ptr";
            if (u->isPointerType()) o["p"] = u->getPointeeType().getCanonicalType().getAsString(pp_);
        } else if (auto* r = u->getAsCXXRecordDecl()) {
            o["k"] = "rec";
            o["q"] = qname(r);
            if (r->isLambda()) o["lam"] = true;
            if ((r->hasDefinition() && r->isPolymorphic())) o["poly"] = true;
            
        } else if (u->isArrayType()) {
            o["k"] = "arr";
            if (auto* ca = ctx_.getAsConstantArrayType(u)) o["n"] = (int64_t) ca->getSize().getZExtValue();
            o["p"] = ctx_.getAsArrayType(u)->getElementType().getCanonicalType().getAsString(pp_);
        } else if (u->isVoidType()) {
            o["k"] = "void";
        } else {
            o["k"] = "other";
        }
        if (c->isReferenceType()) o["ref"] = c->isRValueReferenceType() ? 2 : 1;
        if (c.getNonReferenceType().isConstQualified()) o["const"] = true;
        types[s] = std::move(o);
    }

    // -------------------------------------------------------------- declarations
    Object fnRef(FunctionDecl const* f) {
        Object o;
        o["q"] = qname(f);
        o["key"] = fkey(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = qname(m->getParent());
            o["clst"] = recType(m->getParent());
            if (m->isVirtual()) o["virt"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isCopyAssignmentOperator()) o["sp"] = "copyassign";
            if (m->isMoveAssignmentOperator()) o["sp"] = "moveassign";
        }
        if (f->isNoReturn()) o["noret"] = true;
        if (auto* t = f->getTemplateSpecializationArgs()) {
            Array a;
            addTArgs(a, t->asArray());
            o["ta"] = std::move(a);
        }
        auto* fp = f->getType()->getAs<FunctionProtoType>();
        if (fp && !isUnresolvedExceptionSpec(fp->getExceptionSpecType()) && fp->isNothrow()) o["noexc"] = true;
        if (f->getOverloadedOperator() != OO_None) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        if (inRepo(f->getLocation())) o["repo"] = true;
        Array ps;
        for (auto* p : f->parameters()) ps.push_back(ty(p->getType()));
        o["pt"] = std::move(ps);
        return o;
    }
    std::string recType(CXXRecordDecl const* r) {
        return ctx_.getRecordType(r).getCanonicalType().getAsString(pp_);
    }
    void addTArgs(Array& a, llvm::ArrayRef<TemplateArgument> args) {
        for (auto& x : args) {
            switch (x.getKind()) {
                case TemplateArgument::Type: a.push_back(ty(x.getAsType())); break;
                case TemplateArgument::Integral: a.push_back(llvm::toString(x.getAsIntegral(), 10)); break;
                case TemplateArgument::Pack: addTArgs(a, x.pack_elements()); break;
                default: a.push_back("?"); break;
            }
        }
    }
    void dumpFunction(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition()) return;
        if (!inScope(f->getLocation()) && !(inScope(f->getBeginLoc()))) return;
        bool dep = f->isDependentContext();
        std::string key = fkey(f);
        if (!seen_fn.insert(key).second) return;
        Object o = fnRef(f);
        files_.insert(fileOf(f->getLocation()));
        o["file"] = fileOf(f->getLocation());
        o["line"] = lineOf(f->getBeginLoc());
        o["end"] = lineOf(f->getEndLoc());
        o["ret"] = ty(f->getReturnType());
        if (dep) o["dep"] = true;
        if (f->isTemplateInstantiation() || isInSpec(f)) o["inst"] = true;
        if (isa<CXXConstructorDecl>(f)) {
            o["ctor"] = true;
            auto* c = cast<CXXConstructorDecl>(f);
            if (c->isCopyConstructor()) o["sp"] = "copyctor";
            if (c->isMoveConstructor()) o["sp"] = "movector";
        }
        if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        if (f->isDefaulted()) o["defaulted"] = true;
        if (f->isImplicit()) o["implicit"] = true;
        if (f->isConstexpr()) o["cx"] = true;
        if (f->getAccess() != AS_none) o["acc"] = (int) f->getAccess();
        if (f->getFormalLinkage() == Linkage::Internal || f->isInAnonymousNamespace()) o["internal"] = true;
        Array ps;
        for (auto* p : f->parameters()) {
            Object q;
            q["id"] = (int64_t) p->getID();
            q["n"] = p->getName().str();
            q["t"] = ty(p->getType());
            if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) q["def"] = expr(p->getDefaultArg());
            ps.push_back(std::move(q));
        }
        o["params"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            Array ov;
            for (auto* x : m->overridden_methods()) ov.push_back(fkey(x));
            if (!ov.empty()) o["over"] = std::move(ov);
            if (m->getParent()->isLambda()) {
                o["lambda"] = true;
                // captured variables -> field ids
                Array caps;
                for (auto& c : m->getParent()->captures()) {
                    Object q;
                    if (c.capturesThis()) q["this"] = true;
                    else if (c.capturesVariable()) {
                        q["id"] = (int64_t) c.getCapturedVar()->getID();
                        q["n"] = c.getCapturedVar()->getName().str();
                    }
                    q["ref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
                    caps.push_back(std::move(q));
                }
                o["caps"] = std::move(caps);
            }
        }
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            Array ini;
            for (auto* i : c->inits()) {
                Object q;
                if (i->isAnyMemberInitializer()) q["f"] = i->getAnyMember()->getName().str();
                else if (i->isDelegatingInitializer()) q["deleg"] = true;
                else if (i->isBaseInitializer()) q["base"] = ty(QualType(i->getBaseClass(), 0));
                if (i->isWritten()) q["w"] = true;
                q["l"] = lineOf(i->getSourceLocation());
                q["e"] = expr(i->getInit());
                ini.push_back(std::move(q));
            }
            o["inits"] = std::move(ini);
        }
        o["body"] = stmt(f->getBody());
        fns.push_back(std::move(o));
    }
    bool VisitFunctionDecl(FunctionDecl* f) {
        dumpFunction(f);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* l) {
        if (inScope(l->getBeginLoc())) {
            auto* op = l->getCallOperator();
            if (op && op->hasBody()) dumpLambda(op);
        }
        return true;
    }
    void dumpLambda(CXXMethodDecl* op) {
        dumpFunction(op);
        if (auto* ft = op->getDescribedFunctionTemplate()) {
            for (auto* s : ft->specializations()) {
                if (s->hasBody()) dumpFunction(const_cast<FunctionDecl*>(s->getDefinition() ? s->getDefinition() : s));
            }
        }
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
        if (!inScope(r->getLocation())) return true;
        std::string t = recType(r);
        if (!seen_rec.insert(t).second) return true;
        files_.insert(fileOf(r->getLocation()));
        Object o;
        o["q"] = qname(r);
        o["t"] = t;
        o["file"] = fileOf(r->getLocation());
        o["line"] = lineOf(r->getLocation());
        if (r->isUnion()) o["union"] = true;
        if (r->isDependentContext()) o["dep"] = true;
        if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            Array a; addTArgs(a, s->getTemplateArgs().asArray()); o["ta"] = std::move(a);
        }
        Array bs;
        for (auto& b : r->bases()) bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        Array fs;
        for (auto* f : r->fields()) {
            Object q;
            q["n"] = f->getName().str();
            q["t"] = ty(f->getType());
            q["l"] = lineOf(f->getLocation());
            q["acc"] = (int) f->getAccess();
            if (f->isMutable()) q["mut"] = true;
            if (f->isBitField()) q["bits"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer()) q["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(q));
        }
        o["fields"] = std::move(fs);
        Array ms;
        for (auto* m : r->methods()) {
            if (m->isImplicit()) continue;
            Object q;
            q["q"] = qname(m);
            q["n"] = m->getNameAsString();
            q["key"] = fkey(m);
            q["acc"] = (int) m->getAccess();
            if (m->isDefaulted()) q["defaulted"] = true;
            if (m->isDeleted()) q["deleted"] = true;
            if (m->isVirtual()) q["virt"] = true;
            if (m->isPureVirtual()) q["pure"] = true;
            if (m->isConst()) q["const"] = true;
            if (m->isStatic()) q["static"] = true;
            if (isa<CXXConstructorDecl>(m)) {
                auto* c = cast<CXXConstructorDecl>(m);
                q["ctor"] = true;
                if (c->isCopyConstructor()) q["sp"] = "copyctor";
                if (c->isMoveConstructor()) q["sp"] = "movector";
            }
            if (isa<CXXDestructorDecl>(m)) q["dtor"] = true;
            if (m->isCopyAssignmentOperator()) q["sp"] = "copyassign";
            if (m->isMoveAssignmentOperator()) q["sp"] = "moveassign";
            if (m->getRefQualifier() == RQ_RValue) q["rq"] = 2;
            if (m->getRefQualifier() == RQ_LValue) q["rq"] = 1;
            q["ret"] = ty(m->getReturnType());
            Array ps;
            for (auto* p : m->parameters()) ps.push_back(ty(p->getType()));
            q["pt"] = std::move(ps);
            ms.push_back(std::move(q));
        }
        o["methods"] = std::move(ms);
        if (!r->isDependentContext() && !r->isInvalidDecl() && r->isCompleteDefinition()) {
            o["size"] = (int64_t) ctx_.getTypeSizeInChars(ctx_.getRecordType(r)).getQuantity();
            if (r->isPolymorphic()) o["poly"] = true;
        }
        recs.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->isThisDeclarationADefinition() || !inScope(e->getLocation())) {
            // generated protobuf enums are still interesting
            if (!e->isThisDeclarationADefinition()) return true;
            std::string f = fileOf(e->getLocation());
            if (f.find(".pb.h") == std::string::npos) return true;
        }
        std::string k = qname(e);
        if (!seen_enum.insert(k).second) return true;
        Object o;
        o["q"] = k;
        o["file"] = fileOf(e->getLocation());
        o["line"] = lineOf(e->getLocation());
        o["t"] = ctx_.getEnumType(e).getCanonicalType().getAsString(pp_);
        Array a;
        for (auto* x : e->enumerators()) {
            Object q;
            q["n"] = x->getName().str();
            q["v"] = llvm::toString(x->getInitVal(), 10);
            a.push_back(std::move(q));
        }
        o["e"] = std::move(a);
        enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (v->isLocalVarDecl() || isa<ParmVarDecl>(v)) return true;
        if (!v->hasGlobalStorage()) return true;
        if (!inScope(v->getLocation())) return true;
        if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !v->hasInit()) return true;
        std::string k = qname(v, true);
        if (!seen_glob.insert(k).second) return true;
        Object o;
        o["q"] = qname(v);
        o["qt"] = k;
        o["t"] = ty(v->getType());
        o["file"] = fileOf(v->getLocation());
        o["line"] = lineOf(v->getLocation());
        if (v->isConstexpr()) o["cx"] = true;
        if (v->getType().isConstQualified()) o["const"] = true;
        if (v->getDeclContext()->isDependentContext()) o["dep"] = true;
        if (v->getInit() && !v->getInit()->isValueDependent()) {
            o["init"] = expr(v->getInit());
        }
        globals.push_back(std::move(o));
        return true;
    }

    // -------------------------------------------------------------- statements
    Value stmt(Stmt const* s) {
        if (!s) return nullptr;
        if (auto* e = dyn_cast<Expr>(s)) {
            Object o; o["k"] = "expr"; o["l"] = lineOf(e->getBeginLoc()); o["e"] = expr(e); return o;
        }
        Object o;
        o["l"] = lineOf(s->getBeginLoc());
        switch (s->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                o["k"] = "block";
                Array a;
                for (auto* x : cast<CompoundStmt>(s)->body()) a.push_back(stmt(x));
                o["b"] = std::move(a);
                o["le"] = lineOf(s->getEndLoc());
                break;
            }
            case Stmt::DeclStmtClass: {
                o["k"] = "decl";
                Array a;
                for (auto* d : cast<DeclStmt>(s)->decls()) {
                    if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
                }
                o["v"] = std::move(a);
                break;
            }
            case Stmt::IfStmtClass: {
                auto* i = cast<IfStmt>(s);
                o["k"] = "if";
                if (i->getInit()) o["init"] = stmt(i->getInit());
                if (i->getConditionVariable()) o["cv"] = var(i->getConditionVariable());
                o["c"] = expr(i->getCond());
                o["th"] = stmt(i->getThen());
                if (i->getElse()) o["el"] = stmt(i->getElse());
                if (i->isConstexpr()) o["cx"] = true;
                break;
            }
            case Stmt::ForStmtClass: {
                auto* f = cast<ForStmt>(s);
                o["k"] = "for";
                if (f->getInit()) o["init"] = stmt(f->getInit());
                if (f->getConditionVariable()) o["cv"] = var(f->getConditionVariable());
                if (f->getCond()) o["c"] = expr(f->getCond());
                if (f->getInc()) o["inc"] = expr(f->getInc());
                o["b"] = stmt(f->getBody());
                break;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto* f = cast<CXXForRangeStmt>(s);
                o["k"] = "rfor";
                if (f->getInit()) o["init"] = stmt(f->getInit());
                o["r"] = expr(f->getRangeInit());
                o["var"] = var(f->getLoopVariable());
                o["b"] = stmt(f->getBody());
                // an iterator that is a class of the analysed code
                if (f->getBeginStmt() && f->getEndStmt() && f->getCond() && f->getInc()) {
                    auto* bv = dyn_cast<VarDecl>(f->getBeginStmt()->getSingleDecl());
                    auto* rec = bv ? bv->getType()->getAsCXXRecordDecl() : nullptr;
                    if (rec && StringRef(rec->getQualifiedNameAsString()).starts_with("jogasaki::")) {
                        o["parts"] = Array{stmt(f->getRangeStmt()), stmt(f->getBeginStmt()), stmt(f->getEndStmt())};
                        o["c"] = expr(f->getCond());
                        o["inc"] = expr(f->getInc());
                        o["vd"] = stmt(f->getLoopVarStmt());
                    }
                }
                break;
            }
            case Stmt::WhileStmtClass: {
                auto* w = cast<WhileStmt>(s);
                o["k"] = "while";
                if (w->getConditionVariable()) o["cv"] = var(w->getConditionVariable());
                o["c"] = expr(w->getCond());
                o["b"] = stmt(w->getBody());
                break;
            }
            case Stmt::DoStmtClass: {
                auto* w = cast<DoStmt>(s);
                o["k"] = "do";
                o["c"] = expr(w->getCond());
                o["b"] = stmt(w->getBody());
                break;
            }
            case Stmt::SwitchStmtClass: {
                auto* w = cast<SwitchStmt>(s);
                o["k"] = "switch";
                if (w->getInit()) o["init"] = stmt(w->getInit());
                if (w->getConditionVariable()) o["cv"] = var(w->getConditionVariable());
                o["c"] = expr(w->getCond());
                o["b"] = stmt(w->getBody());
                break;
            }
            case Stmt::CaseStmtClass: {
                auto* c = cast<CaseStmt>(s);
                o["k"] = "case";
                o["v"] = expr(c->getLHS());
                if (c->getRHS()) o["v2"] = expr(c->getRHS());
                o["b"] = stmt(c->getSubStmt());
                break;
            }
            case Stmt::DefaultStmtClass:
                o["k"] = "default";
                o["b"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
                break;
            case Stmt::ReturnStmtClass: {
                auto* r = cast<ReturnStmt>(s);
                o["k"] = "return";
                if (r->getRetValue()) o["e"] = expr(r->getRetValue());
                break;
            }
            case Stmt::BreakStmtClass: o["k"] = "break"; break;
            case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
            case Stmt::NullStmtClass: o["k"] = "null"; break;
            case Stmt::CXXTryStmtClass: {
                auto* t = cast<CXXTryStmt>(s);
                o["k"] = "try";
                o["b"] = stmt(t->getTryBlock());
                Array a;
                for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                    auto* h = t->getHandler(i);
                    Object q;
                    q["l"] = lineOf(h->getBeginLoc());
                    if (h->getExceptionDecl()) { q["t"] = ty(h->getCaughtType()); q["var"] = var(h->getExceptionDecl()); }
                    q["b"] = stmt(h->getHandlerBlock());
                    a.push_back(std::move(q));
                }
                o["h"] = std::move(a);
                break;
            }
            case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
            case Stmt::LabelStmtClass: {
                o["k"] = "label"; o["n"] = cast<LabelStmt>(s)->getName(); o["b"] = stmt(cast<LabelStmt>(s)->getSubStmt());
                break;
            }
            case Stmt::GotoStmtClass: o["k"] = "goto"; o["n"] = cast<GotoStmt>(s)->getLabel()->getName().str(); break;
            default: {
                o["k"] = "other";
                o["n"] = s->getStmtClassName();
                Array a;
                for (auto* c : s->children()) if (c) a.push_back(stmt(c));
                o["b"] = std::move(a);
            }
        }
        return o;
    }
    Value var(VarDecl const* v) {
        Object o;
        o["id"] = (int64_t) v->getID();
        o["n"] = v->getName().str();
        o["t"] = ty(v->getType());
        o["l"] = lineOf(v->getLocation());
        if (v->isStaticLocal()) { o["static"] = true; }
        if (v->isConstexpr()) o["cx"] = true;
        if (auto* i = v->getInit()) o["init"] = expr(i);
        if (auto* d = dyn_cast<DecompositionDecl>(v)) {
            Array a;
            for (auto* b : d->bindings()) {
                Object q;
                q["id"] = (int64_t) b->getID();
                q["n"] = b->getName().str();
                if (b->getBinding()) q["e"] = expr(b->getBinding());
                if (auto* hv = b->getHoldingVar()) { q["hv"] = var(hv); }
                a.push_back(std::move(q));
            }
            o["bind"] = std::move(a);
        }
        return o;
    }

    // -------------------------------------------------------------- expressions
    void constVal(Object& o, Expr const* e) {
        if (e->isValueDependent() || e->isTypeDependent() || e->containsErrors()) return;
        QualType t = e->getType();
        if (!(t->isIntegralOrEnumerationType())) return;
        if (e->isGLValue()) return;
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
            o["cv"] = llvm::toString(r.Val.getInt(), 10);
        }
    }
    Array args(CallExpr const* c, unsigned from = 0) {
        Array a;
        for (unsigned i = from; i < c->getNumArgs(); ++i) a.push_back(expr(c->getArg(i)));
        return a;
    }
    Value expr(Expr const* e) {
        if (!e) return nullptr;
        // transparent wrappers
        for (;;) {
            if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
            if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = x->getSemanticForm(); continue; }
            if (auto* x = dyn_cast<GenericSelectionExpr>(e)) { if (!x->isResultDependent()) { e = x->getResultExpr(); continue; } }
            break;
        }
        Object o;
        o["l"] = lineOf(e->getExprLoc().isValid() ? e->getExprLoc() : e->getBeginLoc());
        o["t"] = ty(e->getType());
        if (e->isGLValue()) o["lv"] = e->isXValue() ? 2 : 1;
        if (auto* x = dyn_cast<ConstantExpr>(e)) { 
            Value sub = expr(x->getSubExpr());
            if (auto* so = sub.getAsObject()) { if (!so->get("cv")) { Object tmp; constVal(tmp, x); if (auto* c = tmp.get("cv")) (*so)["cv"] = *c; } }
            return sub;
        }
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
            o["k"] = "mat"; o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            llvm::SmallString<32> b; x->getValue().toString(b, 10, e->getType()->isSignedIntegerType());
            o["k"] = "int"; o["v"] = std::string(b.str()); return o;
        }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) {
            o["k"] = "int"; 
            int64_t v = x->getValue();
            if (e->getType()->isSignedIntegerType() && ctx_.getTypeSize(e->getType()) == 8) v = (int8_t) v;
            o["v"] = std::to_string(v); o["chr"] = true; return o;
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "int"; o["v"] = x->getValue() ? "1" : "0"; return o; }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            llvm::SmallString<32> b; x->getValue().toString(b); o["k"] = "flt"; o["v"] = std::string(b.str()); return o;
        }
        if (auto* x = dyn_cast<StringLiteral>(e)) {
            o["k"] = "str";
            std::string hex;
            if (x->getCharByteWidth() == 1) {
                static char const* H = "0123456789abcdef";
                for (unsigned char c : x->getString()) { hex += H[c >> 4]; hex += H[c & 15]; }
            }
            o["h"] = hex; return o;
        }
        if (auto* x = dyn_cast<PredefinedExpr>(e)) { (void) x; o["k"] = "str"; o["h"] = ""; o["pre"] = true; return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
        if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto* d = x->getDecl();
            o["k"] = "ref";
            o["n"] = d->getNameAsString();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enumc"; o["q"] = qname(ec);
                o["v"] = llvm::toString(ec->getInitVal(), 10);
                return o;
            }
            if (auto* f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "func"; o["fn"] = fnRef(f); return o; }
            if (auto* v = dyn_cast<VarDecl>(d)) {
                if (isa<ParmVarDecl>(v)) { o["dk"] = "param"; o["id"] = (int64_t) v->getID(); }
                else if (v->isLocalVarDecl() && !v->isStaticLocal()) { o["dk"] = "local"; o["id"] = (int64_t) v->getID(); }
                else if (v->isStaticLocal()) { o["dk"] = "slocal"; o["id"] = (int64_t) v->getID(); o["q"] = qname(v); }
                else { o["dk"] = "global"; o["q"] = qname(v); o["qt"] = qname(v, true); if (!inRepo(v->getLocation())) o["ext"] = true; }
                if (v->getType().isConstQualified() || v->isConstexpr()) {
                    if (!e->isValueDependent() && !e->containsErrors() && e->getType()->isIntegralOrEnumerationType()) {
                        Expr::EvalResult r;
                        if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) o["cv"] = llvm::toString(r.Val.getInt(), 10);
                    }
                }
                if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
                return o;
            }
            if (auto* b = dyn_cast<BindingDecl>(d)) { o["dk"] = "bind"; o["id"] = (int64_t) b->getID(); return o; }
            o["dk"] = "other"; o["q"] = qname(d);
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            if (auto* f = dyn_cast<FieldDecl>(d)) {
                o["k"] = "mem"; o["f"] = f->getName().str(); o["q"] = qname(f);
                o["arrow"] = x->isArrow(); o["b"] = expr(x->getBase());
                return o;
            }
            if (auto* v = dyn_cast<VarDecl>(d)) {
                o["k"] = "ref"; o["dk"] = "global"; o["n"] = v->getNameAsString(); o["q"] = qname(v); o["qt"] = qname(v, true);
                if (!inRepo(v->getLocation())) o["ext"] = true;
                return o;
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["k"] = "ref"; o["dk"] = "enumc"; o["n"] = ec->getNameAsString(); o["q"] = qname(ec);
                o["v"] = llvm::toString(ec->getInitVal(), 10); return o;
            }
            o["k"] = "memfn"; o["n"] = d->getNameAsString(); o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow();
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto* f = x->getDirectCallee();
            if (f) {
                o["fn"] = fnRef(f);
                if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
                    o["k"] = "mcall"; o["b"] = expr(x->getArg(0)); o["a"] = args(x, 1);
                } else { o["k"] = "call"; o["a"] = args(x); }
                constVal(o, e);
                return o;
            }
            o["k"] = "icall"; o["op"] = getOperatorSpelling(x->getOperator()); o["a"] = args(x);
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto* m = x->getMethodDecl();
            if (m) {
                o["k"] = "mcall"; o["fn"] = fnRef(m);
                auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
                if (me) {
                    o["b"] = expr(me->getBase()); o["arrow"] = me->isArrow();
                    if (me->hasQualifier()) o["qual"] = true;
                } else o["b"] = expr(x->getImplicitObjectArgument());
                o["a"] = args(x);
                constVal(o, e);
                return o;
            }
            o["k"] = "icall"; o["ce"] = expr(x->getCallee()); o["a"] = args(x); return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            if (auto* f = x->getDirectCallee()) { o["k"] = "call"; o["fn"] = fnRef(f); o["a"] = args(x); constVal(o, e); return o; }
            o["k"] = "icall"; o["ce"] = expr(x->getCallee()); o["a"] = args(x);
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            auto* c = x->getConstructor();
            o["k"] = "ctor"; o["fn"] = fnRef(c);
            if (c->isCopyConstructor()) o["sp"] = "copy";
            if (c->isMoveConstructor()) o["sp"] = "move";
            if (c->isDefaultConstructor()) o["sp"] = "default";
            if (x->requiresZeroInitialization()) o["zero"] = true;
            Array a;
            for (auto* y : x->arguments()) a.push_back(expr(y));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "ctor"; o["fn"] = fnRef(x->getConstructor()); o["inh"] = true; o["a"] = Array{}; return o; }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            if (x->isTransparent() && x->getNumInits() == 1) return expr(x->getInit(0));
            o["k"] = "ilist";
            Array a;
            for (auto* y : x->inits()) a.push_back(expr(y));
            o["a"] = std::move(a);
            if (auto* r = e->getType()->getAsCXXRecordDecl()) {
                Array f;
                for (unsigned i = 0; i < r->getNumBases(); ++i) f.push_back("<base>");
                for (auto* y : r->fields()) f.push_back(y->getName().str());
                o["fs"] = std::move(f);
                if (r->isUnion() && x->getInitializedFieldInUnion()) o["uf"] = x->getInitializedFieldInUnion()->getName().str();
            }
            if (x->hasArrayFiller()) o["fill"] = expr(x->getArrayFiller());
            return o;
        }
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { 
            Value v = expr(x->getExpr());
            if (auto* vo = v.getAsObject()) (*vo)["defarg"] = true;
            return v;
        }
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) o["post"] = true;
            o["e"] = expr(x->getSubExpr()); constVal(o, e); return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            if (x->isCompoundAssignmentOp()) {
                o["k"] = "casg"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
                o["ct"] = ty(cast<CompoundAssignOperator>(x)->getComputationResultType());
            }
            else if (x->isAssignmentOp()) o["k"] = "asg";
            else { o["k"] = "bin"; o["op"] = x->getOpcodeStr().str(); constVal(o, e); }
            o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS());
            return o;
        }
        if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
            o["k"] = "cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); constVal(o, e);
            if (isa<BinaryConditionalOperator>(e)) { o["elvis"] = expr(cast<BinaryConditionalOperator>(e)->getCommon()); }
            return o;
        }
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); o["k"] = "opq"; return o; }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "idx"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); return o;
        }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            auto ck = x->getCastKind();
            if (ck == CK_NoOp || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion || ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr) {
                if (isa<ImplicitCastExpr>(x) || ck != CK_NoOp) { Value v = expr(x->getSubExpr()); return v; }
                if (ck == CK_NoOp) return expr(x->getSubExpr());
            }
            o["k"] = ck == CK_LValueToRValue ? "ld" : "cast";
            if (ck != CK_LValueToRValue) { o["ck"] = x->getCastKindName(); if (!isa<ImplicitCastExpr>(x)) o["ex"] = true; if (isa<CXXReinterpretCastExpr>(x)) o["re"] = true; }
            o["e"] = expr(x->getSubExpr());
            constVal(o, e);
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lam";
            auto* op = x->getCallOperator();
            o["fk"] = fkey(op);
            Array caps;
            auto ii = x->capture_init_begin();
            for (auto& c : x->captures()) {
                Object q;
                if (c.capturesThis()) { q["this"] = true; q["ref"] = c.getCaptureKind() == LCK_This; }
                else if (c.capturesVariable()) {
                    q["id"] = (int64_t) c.getCapturedVar()->getID();
                    q["n"] = c.getCapturedVar()->getName().str();
                    q["ref"] = c.getCaptureKind() == LCK_ByRef;
                    if (c.getCapturedVar()->isInitCapture()) q["ic"] = true;
                    if (ii != x->capture_init_end() && *ii) q["e"] = expr(*ii);
                }
                ++ii;
                caps.push_back(std::move(q));
            }
            o["caps"] = std::move(caps);
            if (op && op->hasBody()) {
                dumpLambda(op);
            }
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; if (x->getSubExpr()) o["e"] = expr(x->getSubExpr()); return o; }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new"; o["at"] = ty(x->getAllocatedType());
            if (x->isArray()) { if (auto sz = x->getArraySize()) o["n"] = expr(*sz); }
            if (x->getInitializer()) o["init"] = expr(x->getInitializer());
            if (x->getNumPlacementArgs()) { Array a; for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) a.push_back(expr(x->getPlacementArg(i))); o["pl"] = std::move(a); }
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["e"] = expr(x->getArgument()); if (x->isArrayForm()) o["arr"] = true; return o; }
        if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { o["k"] = "zero"; return o; }
        if (isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e) || isa<SizeOfPackExpr>(e)) { o["k"] = "trait"; constVal(o, e); return o; }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { (void) x; o["k"] = "typeid"; return o; }
        if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e)) { o["k"] = "pdtor"; o["b"] = expr(x->getBase()); return o; }
        if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { return expr(x->getCommonExpr()->getSourceExpr()); }
        if (auto* x = dyn_cast<StmtExpr>(e)) { o["k"] = "stmtexpr"; o["b"] = stmt(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<ParenListExpr>(e)) { o["k"] = "plist"; Array a; for (unsigned i = 0; i < x->getNumExprs(); ++i) a.push_back(expr(x->getExpr(i))); o["a"] = std::move(a); return o; }
        // generic fallback (dependent / recovery / unsupported)
        o["k"] = "other"; o["n"] = e->getStmtClassName();
        if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) o["m"] = x->getMember().getAsString();
        if (auto* x = dyn_cast<UnresolvedMemberExpr>(e)) o["m"] = x->getMemberName().getAsString();
        if (auto* x = dyn_cast<UnresolvedLookupExpr>(e)) o["m"] = x->getName().getAsString();
        if (auto* x = dyn_cast<DependentScopeDeclRefExpr>(e)) o["m"] = x->getDeclName().getAsString();
        Array a;
        for (auto* c : e->children()) { if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce)); }
        o["a"] = std::move(a);
        return o;
    }
};

// small shims over API differences
} // namespace

namespace {
class Consumer : public ASTConsumer {
public:
    explicit Consumer(CompilerInstance& ci) : ci_(ci) {}
    void HandleTranslationUnit(ASTContext& c) override {
        Dumper d(c);
        d.TraverseDecl(c.getTranslationUnitDecl());
        Object o;
        auto& de = ci_.getDiagnostics();
        o["file"] = g_file;
        o["errors"] = (int64_t) de.getClient()->getNumErrors();
        o["fns"] = std::move(d.fns);
        o["recs"] = std::move(d.recs);
        o["enums"] = std::move(d.enums);
        o["globals"] = std::move(d.globals);
        o["types"] = std::move(d.types);
        // dependency list
        Array deps;
        auto& sm = c.getSourceManager();
        std::set<std::string> ds;
        for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
            std::string n = it->first.getName().str();
            if (n.rfind("/usr/", 0) == 0) continue;
            llvm::SmallString<256> abs(n);
            sm.getFileManager().makeAbsolutePath(abs);
            llvm::sys::path::remove_dots(abs, true);
            ds.insert(std::string(abs.str()));
        }
        for (auto& s : ds) deps.push_back(s);
        o["deps"] = std::move(deps);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << Value(std::move(o));
    }
    CompilerInstance& ci_;
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
        ci.getDiagnostics().setFatalsAsError(true);
        ci.getDiagnostics().setErrorLimit(0);
        return std::make_unique<Consumer>(ci);
    }
};
} // namespace

// usage: extract -o out.json [--root /repo] [--also dir]... [--main-only] FILE -- clang args...
int main(int argc, char** argv) {
    int i = 1;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--") { ++i; break; }
        if (a == "-o") { g_out = argv[++i]; }
        else if (a == "--root") { g_root = argv[++i]; }
        else if (a == "--also") { g_also.push_back(argv[++i]); }
        else if (a == "--main-only") { g_mainonly = true; }
        else g_file = a;
    }
    for (; i < argc; ++i) g_args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", g_args);
    tooling::ClangTool tool(db, {g_file});
    int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return r;
}
