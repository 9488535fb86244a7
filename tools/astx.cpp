// astx: export the typed, template-instantiated AST of the functions that a set
// of root functions needs, as JSON.  Front end of the deductive verifier in
// /verif/vc.  It drops nothing of the statement/expression structure; nodes it
// cannot represent are exported as {"e":"UNSUPPORTED",...} and make every
// obligation of the enclosing function undischarged.
//
// usage: astx OUT.json ROOT_REGEX FILE.cpp -- clang-args
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string g_out, g_root;

namespace {
class Exporter {
	ASTContext& ctx;
	PrintingPolicy pol;
	json::Object funcs, records, globals;
	std::map<const FunctionDecl*, std::string> fid;
	std::set<std::string> usedIds;
	std::deque<const FunctionDecl*> work;
	std::set<const FunctionDecl*> queued;
	std::set<std::string> recDone;
	std::map<const ValueDecl*, int> vids;
	int unsupported = 0;

public:
	Exporter(ASTContext& c)
	    : ctx(c)
	    , pol(c.getLangOpts())
	{
		pol.SuppressTagKeyword = true;
		pol.FullyQualifiedName = true;
		pol.Bool = true;
		pol.PrintCanonicalTypes = true;
	}

	bool inRepo(SourceLocation l)
	{
		auto& sm = ctx.getSourceManager();
		l = sm.getExpansionLoc(l);
		auto f = sm.getFilename(l);
		return f.starts_with("/repo/") || f.contains("/verif/") || f.contains("vtu");
	}
	std::string loc(SourceLocation l)
	{
		auto& sm = ctx.getSourceManager();
		l = sm.getExpansionLoc(l);
		PresumedLoc p = sm.getPresumedLoc(l);
		if (p.isInvalid()) return "?";
		std::string f = p.getFilename();
		return f + ":" + std::to_string(p.getLine());
	}

	const FunctionDecl* defOf(const FunctionDecl* f)
	{
		const FunctionDecl* d = nullptr;
		if (f->hasBody(d)) return d;
		if (f->isDefaulted() || f->isImplicit()) return f;
		return nullptr;
	}

	std::string funcId(const FunctionDecl* f)
	{
		f = f->getCanonicalDecl();
		auto it = fid.find(f);
		if (it != fid.end()) return it->second;
		std::string s;
		llvm::raw_string_ostream os(s);
		f->getNameForDiagnostic(os, pol, true);
		os << "(";
		bool first = true;
		for (auto* p : f->parameters()) {
			if (!first) os << ", ";
			first = false;
			p->getType().getCanonicalType().print(os, pol);
		}
		os << ")";
		if (auto* m = dyn_cast<CXXMethodDecl>(f))
			if (m->isConst()) os << " const";
		os.flush();
		std::string base = s;
		int k = 1;
		while (usedIds.count(s)) s = base + "#" + std::to_string(++k);
		usedIds.insert(s);
		fid[f] = s;
		return s;
	}

	json::Value tq(QualType t)
	{
		bool isConst = t.isConstQualified();
		t = t.getCanonicalType();
		json::Object o;
		if (isConst) o["c"] = true;
		const Type* ty = t.getTypePtr();
		if (auto* r = dyn_cast<ReferenceType>(ty)) {
			o["k"] = "ref";
			if (isa<RValueReferenceType>(ty)) o["r"] = true;
			o["to"] = tq(r->getPointeeType());
			return o;
		}
		if (auto* p = dyn_cast<PointerType>(ty)) {
			o["k"] = "ptr";
			o["to"] = tq(p->getPointeeType());
			return o;
		}
		if (auto* a = dyn_cast<ConstantArrayType>(ty)) {
			o["k"] = "arr";
			o["n"] = (int64_t)a->getSize().getZExtValue();
			o["of"] = tq(a->getElementType());
			return o;
		}
		if (t->isVoidType()) {
			o["k"] = "void";
			return o;
		}
		if (t->isNullPtrType()) {
			o["k"] = "nullptr";
			return o;
		}
		if (t->isBooleanType()) {
			o["k"] = "bool";
			return o;
		}
		if (t->isIntegralOrEnumerationType()) {
			o["k"] = "int";
			o["w"] = (int64_t)ctx.getTypeSize(t);
			o["s"] = t->isSignedIntegerOrEnumerationType();
			if (auto* et = t->getAs<EnumType>()) o["enum"] = et->getDecl()->getQualifiedNameAsString();
			if (t->isCharType()) o["ch"] = true;
			return o;
		}
		if (t->isRealFloatingType()) {
			o["k"] = "float";
			o["w"] = (int64_t)ctx.getTypeSize(t);
			return o;
		}
		if (auto* r = ty->getAsCXXRecordDecl()) {
			o["k"] = "rec";
			o["n"] = r->getQualifiedNameAsString();
			std::string full = t.getUnqualifiedType().getAsString(pol);
			o["full"] = full;
			if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
				json::Array a;
				for (auto& x : s->getTemplateArgs().asArray()) addArg(a, x);
				o["args"] = std::move(a);
			}
			record(r, full);
			return o;
		}
		if (t->isFunctionType() || t->isMemberPointerType()) {
			o["k"] = "fn";
			return o;
		}
		o["k"] = "other";
		o["s"] = t.getAsString(pol);
		return o;
	}
	void addArg(json::Array& a, const TemplateArgument& x)
	{
		if (x.getKind() == TemplateArgument::Type) a.push_back(tq(x.getAsType()));
		else if (x.getKind() == TemplateArgument::Integral) a.push_back((int64_t)x.getAsIntegral().getExtValue());
		else if (x.getKind() == TemplateArgument::Pack) {
			for (auto& y : x.pack_elements()) addArg(a, y);
		}
		else a.push_back(nullptr);
	}

	void record(const CXXRecordDecl* r, const std::string& full)
	{
		if (!recDone.insert(full).second) return;
		r = r->getDefinition() ? r->getDefinition() : r;
		json::Object o;
		o["n"] = r->getQualifiedNameAsString();
		bool repo = inRepo(r->getLocation());
		if (!r->hasDefinition()) return;
		o["repo"] = repo;
		o["lambda"] = r->isLambda();
		o["union"] = r->isUnion();
		json::Array bases;
		for (auto& b : r->bases()) bases.push_back(tq(b.getType()));
		o["bases"] = std::move(bases);
		if (repo || r->isLambda()) {
			json::Array fs;
			for (auto* f : r->fields()) {
				json::Object fo;
				fo["name"] = f->getNameAsString().empty() ? ("$" + std::to_string(f->getFieldIndex())) : f->getNameAsString();
				fo["t"] = tq(f->getType());
				if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
				fs.push_back(std::move(fo));
			}
			o["fields"] = std::move(fs);
			if (r->isLambda()) {
				if (auto* m = r->getLambdaCallOperator()) {
					o["callop"] = funcId(m);
					enqueue(m);
				}
			}
			for (auto* m : r->methods())
				if (repo && m->getOverloadedOperator() == OO_Call) enqueue(m);
			if (r->hasDefinition() && r->getDestructor()) {
				auto* d = r->getDestructor();
				o["dtor"] = funcId(d);
				o["dtorTrivial"] = !d->isUserProvided();
				if (d->isUserProvided()) enqueue(d);
			}
		}
		records[full] = std::move(o);
	}

	void enqueue(const FunctionDecl* f)
	{
		const FunctionDecl* d = defOf(f);
		if (!d) return;
		if (!inRepo(d->getLocation())) return;
		if (queued.insert(d->getCanonicalDecl()).second) work.push_back(d);
	}

	int vid(const ValueDecl* v)
	{
		v = cast<ValueDecl>(v->getCanonicalDecl());
		auto it = vids.find(v);
		if (it != vids.end()) return it->second;
		int n = (int)vids.size() + 1;
		vids[v] = n;
		return n;
	}

	json::Value bad(const Stmt* s, const char* why = "")
	{
		++unsupported;
		json::Object o;
		o["e"] = "UNSUPPORTED";
		o["s"] = "UNSUPPORTED";
		o["what"] = std::string(s->getStmtClassName()) + " " + why;
		o["loc"] = loc(s->getBeginLoc());
		if (auto* e = dyn_cast<Expr>(s)) o["t"] = tq(e->getType());
		return o;
	}

	json::Object callee(const FunctionDecl* f)
	{
		json::Object o;
		o["id"] = funcId(f);
		o["q"] = f->getQualifiedNameAsString();
		o["nm"] = f->getNameAsString();
		if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = tq(ctx.getRecordType(m->getParent()));
			o["static"] = m->isStatic();
			if (m->isVirtual()) o["virt"] = true;
			if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
				if (c->isCopyOrMoveConstructor() && (c->isDefaulted() || c->isImplicit())) o["defcopy"] = true;
				if (c->isDefaultConstructor() && (c->isDefaulted() || c->isImplicit())) o["defdef"] = true;
			}
			if ((m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) && (m->isDefaulted() || m->isImplicit())) o["defassign"] = true;
		}
		if (f->isNoReturn()) o["noreturn"] = true;
		json::Array pt;
		for (auto* p : f->parameters()) pt.push_back(tq(p->getType()));
		o["pt"] = std::move(pt);
		if (auto* ta = f->getTemplateSpecializationArgs()) {
			json::Array a;
			for (auto& x : ta->asArray()) addArg(a, x);
			o["fargs"] = std::move(a);
		}
		o["rt"] = tq(f->getReturnType());
		enqueue(f);
		return o;
	}

	json::Value args(llvm::iterator_range<CallExpr::const_arg_iterator> r)
	{
		json::Array a;
		for (auto* x : r) a.push_back(expr(x));
		return a;
	}

	json::Value expr(const Expr* e)
	{
		json::Object o;
		// strip wrappers
		for (;;) {
			if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
			else if (auto* p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
			else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
			else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
			else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
			else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
			else if (auto* p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
			else break;
		}
		QualType t = e->getType();
		o["t"] = tq(t);
		if (e->isLValue()) o["lv"] = true;
		if (e->isXValue()) o["lv"] = true;
		if (t->isIntegralOrEnumerationType() && e->isPRValue() && !e->isValueDependent()) {
			Expr::EvalResult r;
			if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
				llvm::SmallString<32> s;
				r.Val.getInt().toString(s, 10);
				o["e"] = "int";
				o["v"] = s.str().str();
				return o;
			}
		}
		if (auto* m = dyn_cast<MaterializeTemporaryExpr>(e)) {
			o["e"] = "mat";
			o["a"] = expr(m->getSubExpr());
			return o;
		}
		if (auto* c = dyn_cast<CastExpr>(e)) {
			o["e"] = "cast";
			o["ck"] = c->getCastKindName();
			o["a"] = expr(c->getSubExpr());
			return o;
		}
		if (auto* l = dyn_cast<FloatingLiteral>(e)) {
			o["e"] = "float";
			llvm::SmallString<32> s;
			o["v"] = l->getValueAsApproximateDouble();
			// exact rational text
			l->getValue().toString(s, 0, 0);
			o["s"] = s.str().str();
			return o;
		}
		if (auto* l = dyn_cast<StringLiteral>(e)) {
			o["e"] = "str";
			json::Array by;
			for (unsigned i = 0; i < l->getLength(); ++i) by.push_back((int64_t)l->getCodeUnit(i));
			o["v"] = std::move(by);
			return o;
		}
		if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
			o["e"] = "null";
			return o;
		}
		if (auto* d = dyn_cast<DeclRefExpr>(e)) return declref(d->getDecl(), std::move(o), e);
		if (isa<CXXThisExpr>(e)) {
			o["e"] = "this";
			return o;
		}
		if (auto* m = dyn_cast<MemberExpr>(e)) {
			if (auto* f = dyn_cast<FieldDecl>(m->getMemberDecl())) {
				o["e"] = "field";
				o["f"] = f->getNameAsString();
				o["arrow"] = m->isArrow();
				o["a"] = expr(m->getBase());
				if (f->getType()->isReferenceType()) o["isref"] = true;
				return o;
			}
			if (auto* v = dyn_cast<VarDecl>(m->getMemberDecl())) return declref(v, std::move(o), e);
			return bad(e, "member");
		}
		if (auto* u = dyn_cast<UnaryOperator>(e)) {
			o["e"] = "un";
			o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
			o["post"] = u->isPostfix();
			o["a"] = expr(u->getSubExpr());
			return o;
		}
		if (auto* b = dyn_cast<CompoundAssignOperator>(e)) {
			o["e"] = "cassign";
			std::string op = b->getOpcodeStr().str();
			o["op"] = op.substr(0, op.size() - 1);
			o["ct"] = tq(b->getComputationResultType());
			o["lt"] = tq(b->getComputationLHSType());
			o["a"] = expr(b->getLHS());
			o["b"] = expr(b->getRHS());
			o["loc"] = loc(e->getExprLoc());
			return o;
		}
		if (auto* b = dyn_cast<BinaryOperator>(e)) {
			o["e"] = b->getOpcode() == BO_Assign ? "assign" : "bin";
			o["op"] = b->getOpcodeStr().str();
			o["a"] = expr(b->getLHS());
			o["b"] = expr(b->getRHS());
			o["loc"] = loc(e->getExprLoc());
			return o;
		}
		if (auto* c = dyn_cast<ConditionalOperator>(e)) {
			o["e"] = "cond";
			o["c"] = expr(c->getCond());
			o["a"] = expr(c->getTrueExpr());
			o["b"] = expr(c->getFalseExpr());
			o["loc"] = loc(e->getExprLoc());
			return o;
		}
		if (auto* s = dyn_cast<ArraySubscriptExpr>(e)) {
			o["e"] = "sub";
			o["a"] = expr(s->getBase());
			o["b"] = expr(s->getIdx());
			o["loc"] = loc(e->getExprLoc());
			return o;
		}
		if (auto* c = dyn_cast<CXXMemberCallExpr>(e)) {
			if (!c->getMethodDecl()) return bad(e, "memptr call");
			o["e"] = "call";
			o["fn"] = callee(c->getMethodDecl());
			o["loc"] = loc(e->getExprLoc());
			auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
			o["obj"] = expr(c->getImplicitObjectArgument());
			if (me && me->isArrow()) o["arrow"] = true;
			if (me && me->hasQualifier()) o["qual"] = true;
			o["args"] = args(c->arguments());
			return o;
		}
		if (auto* c = dyn_cast<CXXOperatorCallExpr>(e)) {
			auto* f = c->getDirectCallee();
			if (!f) return bad(e, "opcall");
			o["e"] = "call";
			o["fn"] = callee(f);
			o["loc"] = loc(e->getExprLoc());
			json::Array a;
			unsigned i = 0;
			if (auto* m = dyn_cast<CXXMethodDecl>(f); m && !m->isStatic()) {
				o["obj"] = expr(c->getArg(0));
				i = 1;
			}
			for (; i < c->getNumArgs(); ++i) a.push_back(expr(c->getArg(i)));
			o["args"] = std::move(a);
			return o;
		}
		if (auto* c = dyn_cast<CallExpr>(e)) {
			auto* f = c->getDirectCallee();
			o["loc"] = loc(e->getExprLoc());
			if (!f) {
				o["e"] = "icall";
				o["f"] = expr(c->getCallee());
				o["args"] = args(c->arguments());
				return o;
			}
			o["e"] = "call";
			o["fn"] = callee(f);
			o["args"] = args(c->arguments());
			return o;
		}
		if (auto* c = dyn_cast<CXXConstructExpr>(e)) {
			o["e"] = "ctor";
			o["fn"] = callee(c->getConstructor());
			json::Array a;
			for (auto* x : c->arguments()) a.push_back(expr(x));
			o["args"] = std::move(a);
			o["loc"] = loc(e->getExprLoc());
			if (c->requiresZeroInitialization()) o["zi"] = true;
			if (c->isStdInitListInitialization()) o["il"] = true;
			return o;
		}
		if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
			o["e"] = "zero";
			return o;
		}
		if (auto* n = dyn_cast<CXXNewExpr>(e)) {
			o["e"] = "new";
			o["at"] = tq(n->getAllocatedType());
			if (n->isArray()) o["n"] = n->getArraySize() ? expr(*n->getArraySize()) : json::Value(nullptr);
			if (n->getInitializer()) o["init"] = expr(n->getInitializer());
			return o;
		}
		if (auto* n = dyn_cast<CXXDeleteExpr>(e)) {
			o["e"] = "delete";
			o["a"] = expr(n->getArgument());
			return o;
		}
		if (auto* n = dyn_cast<CXXThrowExpr>(e)) {
			o["e"] = "throw";
			o["loc"] = loc(e->getExprLoc());
			if (n->getSubExpr()) o["tt"] = tq(n->getSubExpr()->getType());
			return o;
		}
		if (auto* l = dyn_cast<LambdaExpr>(e)) {
			o["e"] = "lambda";
			json::Array caps;
			auto* rd = l->getLambdaClass();
			auto fi = rd->field_begin();
			auto ci = l->capture_init_begin();
			for (auto& c : l->captures()) {
				json::Object co;
				co["init"] = *ci ? expr(*ci) : json::Value(nullptr);
				co["byref"] = c.getCaptureKind() == LCK_ByRef;
				if (c.capturesVariable()) {
					co["var"] = vid(c.getCapturedVar());
					co["name"] = c.getCapturedVar()->getNameAsString();
				}
				else if (c.capturesThis()) co["this"] = true;
				co["field"] = "$" + std::to_string(fi->getFieldIndex());
				caps.push_back(std::move(co));
				++fi;
				++ci;
			}
			o["caps"] = std::move(caps);
			o["body"] = funcId(l->getCallOperator());
			enqueue(l->getCallOperator());
			return o;
		}
		if (auto* l = dyn_cast<InitListExpr>(e)) {
			o["e"] = "init";
			if (l->isSemanticForm() == false && l->getSemanticForm()) l = l->getSemanticForm();
			json::Array a;
			for (auto* x : l->inits()) a.push_back(expr(x));
			o["args"] = std::move(a);
			if (l->hasArrayFiller()) o["filler"] = expr(l->getArrayFiller());
			return o;
		}
		if (auto* l = dyn_cast<CXXStdInitializerListExpr>(e)) {
			o["e"] = "stdil";
			o["a"] = expr(l->getSubExpr());
			return o;
		}
		if (auto* l = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
			(void)l;
			return bad(e, "sizeof");
		}
		if (isa<PredefinedExpr>(e) || isa<SourceLocExpr>(e)) {
			o["e"] = "str";
			o["v"] = json::Array();
			return o;
		}
		if (isa<ArrayInitLoopExpr>(e) || isa<ArrayInitIndexExpr>(e)) return bad(e);
		return bad(e);
	}

	json::Value declref(const ValueDecl* d, json::Object o, const Expr* e)
	{
		if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
			o["e"] = "int";
			llvm::SmallString<32> s;
			ec->getInitVal().toString(s, 10);
			o["v"] = s.str().str();
			return o;
		}
		if (auto* f = dyn_cast<FunctionDecl>(d)) {
			o["e"] = "fnref";
			o["fn"] = callee(f);
			return o;
		}
		if (auto* v = dyn_cast<VarDecl>(d)) {
			o["e"] = "var";
			o["name"] = v->getNameAsString();
			o["id"] = vid(v);
			if (v->getType()->isReferenceType()) o["isref"] = true;
			if (v->hasGlobalStorage() && !v->isStaticLocal()) {
				o["global"] = v->getQualifiedNameAsString();
				global(v);
			}
			return o;
		}
		if (auto* b = dyn_cast<BindingDecl>(d)) {
			(void)b;
			return bad(e, "binding");
		}
		return bad(e, "declref");
	}

	void global(const VarDecl* v)
	{
		std::string q = v->getQualifiedNameAsString();
		if (globals.find(q) != globals.end()) return;
		globals[q] = nullptr;
		json::Object o;
		o["t"] = tq(v->getType());
		const VarDecl* def = v->getDefinition();
		if (!def) def = v;
		const VarDecl* iv = nullptr;
		const Expr* init = v->getAnyInitializer(iv);
		o["const"] = v->getType().isConstQualified() || v->isConstexpr();
		if (init && inRepo(v->getLocation())) o["init"] = expr(init);
		globals[q] = std::move(o);
	}

	json::Value varDecl(const VarDecl* v)
	{
		json::Object o;
		o["name"] = v->getNameAsString();
		o["id"] = vid(v);
		o["t"] = tq(v->getType());
		if (v->isStaticLocal()) o["static"] = true;
		if (v->getInit()) o["init"] = expr(v->getInit());
		o["loc"] = loc(v->getLocation());
		return o;
	}

	json::Value stmt(const Stmt* s)
	{
		json::Object o;
		if (!s) {
			o["s"] = "null";
			return o;
		}
		o["loc"] = loc(s->getBeginLoc());
		if (auto* c = dyn_cast<CompoundStmt>(s)) {
			o["s"] = "block";
			json::Array a;
			for (auto* x : c->body()) a.push_back(stmt(x));
			o["b"] = std::move(a);
			return o;
		}
		if (auto* d = dyn_cast<DeclStmt>(s)) {
			o["s"] = "decl";
			json::Array a;
			for (auto* x : d->decls()) {
				if (auto* v = dyn_cast<VarDecl>(x)) {
					if (isa<DecompositionDecl>(v)) return bad(s, "decomposition");
					a.push_back(varDecl(v));
				}
				else if (isa<TypedefNameDecl>(x) || isa<UsingDecl>(x) || isa<StaticAssertDecl>(x) || isa<UsingDirectiveDecl>(x) || isa<TagDecl>(x)) continue;
				else return bad(s, "decl");
			}
			o["d"] = std::move(a);
			return o;
		}
		if (auto* i = dyn_cast<IfStmt>(s)) {
			if (i->isConsteval()) return bad(s);
			o["s"] = "if";
			if (i->getInit()) o["init"] = stmt(i->getInit());
			if (i->getConditionVariable()) o["var"] = varDecl(i->getConditionVariable());
			o["c"] = expr(i->getCond());
			o["a"] = stmt(i->getThen());
			if (i->getElse()) o["b"] = stmt(i->getElse());
			return o;
		}
		if (auto* f = dyn_cast<ForStmt>(s)) {
			o["s"] = "for";
			if (f->getInit()) o["init"] = stmt(f->getInit());
			if (f->getConditionVariable()) return bad(s, "for condvar");
			if (f->getCond()) o["c"] = expr(f->getCond());
			if (f->getInc()) o["inc"] = expr(f->getInc());
			o["b"] = stmt(f->getBody());
			return o;
		}
		if (auto* f = dyn_cast<CXXForRangeStmt>(s)) {
			o["s"] = "range";
			o["range"] = stmt(f->getRangeStmt());
			o["begin"] = stmt(f->getBeginStmt());
			o["end"] = stmt(f->getEndStmt());
			o["c"] = expr(f->getCond());
			o["inc"] = expr(f->getInc());
			o["var"] = stmt(f->getLoopVarStmt());
			o["b"] = stmt(f->getBody());
			return o;
		}
		if (auto* w = dyn_cast<WhileStmt>(s)) {
			if (w->getConditionVariable()) return bad(s, "while condvar");
			o["s"] = "while";
			o["c"] = expr(w->getCond());
			o["b"] = stmt(w->getBody());
			return o;
		}
		if (auto* w = dyn_cast<DoStmt>(s)) {
			o["s"] = "do";
			o["c"] = expr(w->getCond());
			o["b"] = stmt(w->getBody());
			return o;
		}
		if (auto* r = dyn_cast<ReturnStmt>(s)) {
			o["s"] = "return";
			if (r->getRetValue()) o["a"] = expr(r->getRetValue());
			return o;
		}
		if (isa<BreakStmt>(s)) {
			o["s"] = "break";
			return o;
		}
		if (isa<ContinueStmt>(s)) {
			o["s"] = "continue";
			return o;
		}
		if (isa<NullStmt>(s)) {
			o["s"] = "null";
			return o;
		}
		if (auto* w = dyn_cast<SwitchStmt>(s)) {
			if (w->getInit() || w->getConditionVariable()) return bad(s, "switch init");
			o["s"] = "switch";
			o["c"] = expr(w->getCond());
			o["b"] = stmt(w->getBody());
			return o;
		}
		if (auto* w = dyn_cast<CaseStmt>(s)) {
			if (w->getRHS()) return bad(s, "case range");
			o["s"] = "case";
			o["v"] = expr(w->getLHS());
			o["b"] = stmt(w->getSubStmt());
			return o;
		}
		if (auto* w = dyn_cast<DefaultStmt>(s)) {
			o["s"] = "default";
			o["b"] = stmt(w->getSubStmt());
			return o;
		}
		if (auto* t = dyn_cast<CXXTryStmt>(s)) {
			o["s"] = "try";
			o["b"] = stmt(t->getTryBlock());
			json::Array hs;
			for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
				auto* h = t->getHandler(i);
				json::Object ho;
				if (h->getExceptionDecl()) {
					ho["t"] = tq(h->getCaughtType());
					ho["var"] = vid(h->getExceptionDecl());
					ho["name"] = h->getExceptionDecl()->getNameAsString();
				}
				ho["b"] = stmt(h->getHandlerBlock());
				hs.push_back(std::move(ho));
			}
			o["h"] = std::move(hs);
			return o;
		}
		if (auto* a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
		if (auto* e = dyn_cast<Expr>(s)) {
			o["s"] = "expr";
			o["a"] = expr(e);
			return o;
		}
		return bad(s);
	}

	void function(const FunctionDecl* f)
	{
		json::Object o;
		std::string id = funcId(f);
		o["id"] = id;
		o["q"] = f->getQualifiedNameAsString();
		o["nm"] = f->getNameAsString();
		o["loc"] = loc(f->getLocation());
		o["rt"] = tq(f->getReturnType());
		json::Array ps;
		for (auto* p : f->parameters()) {
			json::Object po;
			po["name"] = p->getNameAsString();
			po["id"] = vid(p);
			po["t"] = tq(p->getType());
			ps.push_back(std::move(po));
		}
		o["params"] = std::move(ps);
		if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = tq(ctx.getRecordType(m->getParent()));
			o["static"] = m->isStatic();
			o["const"] = m->isConst();
			o["virt"] = m->isVirtual();
			json::Array ov;
			for (auto* x : m->overridden_methods()) ov.push_back(funcId(x));
			o["overrides"] = std::move(ov);
			if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
				o["ctor"] = true;
				json::Array is;
				for (auto* i : c->inits()) {
					json::Object io;
					if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
					else if (i->isBaseInitializer()) io["base"] = tq(QualType(i->getBaseClass(), 0));
					else if (i->isDelegatingInitializer()) io["deleg"] = true;
					io["a"] = expr(i->getInit());
					is.push_back(std::move(io));
				}
				o["inits"] = std::move(is);
			}
			if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
			o["lambda"] = m->getParent()->isLambda();
		}
		if (f->isDefaulted() || f->isImplicit()) o["defaulted"] = true;
		if (f->getBody()) o["body"] = stmt(f->getBody());
		else o["body"] = nullptr;
		funcs[id] = std::move(o);
	}

	struct V : RecursiveASTVisitor<V> {
		Exporter& x;
		llvm::Regex re;
		V(Exporter& e)
		    : x(e)
		    , re(g_root)
		{
		}
		bool shouldVisitTemplateInstantiations() const { return true; }
		bool shouldVisitImplicitCode() const { return false; }
		bool VisitFunctionDecl(FunctionDecl* f)
		{
			if (f->isDependentContext() || f->isTemplated()) return true;
			if (!f->isThisDeclarationADefinition()) return true;
			if (!x.inRepo(f->getLocation())) return true;
			if (re.match(f->getQualifiedNameAsString())) x.enqueue(f);
			return true;
		}
	};

	void run()
	{
		V v(*this);
		v.TraverseDecl(ctx.getTranslationUnitDecl());
		while (!work.empty()) {
			auto* f = work.front();
			work.pop_front();
			function(f);
		}
		std::error_code ec;
		llvm::raw_fd_ostream os(g_out, ec);
		json::Object top;
		top["funcs"] = std::move(funcs);
		top["records"] = std::move(records);
		top["globals"] = std::move(globals);
		top["unsupported"] = unsupported;
		os << json::Value(std::move(top));
	}
};

struct Cons : ASTConsumer {
	void HandleTranslationUnit(ASTContext& c) override
	{
		if (c.getDiagnostics().hasUncompilableErrorOccurred()) return;
		Exporter(c).run();
	}
};
struct Act : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};
}

int main(int argc, char** argv)
{
	if (argc < 4) return 2;
	g_out = argv[1];
	g_root = argv[2];
	std::vector<std::string> a;
	for (int i = 5; i < argc; ++i) a.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", a);
	tooling::ClangTool tool(db, { std::string(argv[3]) });
	int r = tool.run(tooling::newFrontendActionFactory<Act>().get());
	return r;
}
