// Lowers every function of /repo (template instantiations included) that clang sees in one
// translation unit to a small resolved tree, written as JSON.  No property logic lives here.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/CommandLine.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> roots;
static std::string outpath;
static int nerrors = 0;

namespace {

struct Ex
{
	ASTContext& ctx;
	SourceManager& sm;
	PrintingPolicy pp;
	Array functions, classes, globals, enums;
	std::set<std::string> seenfn, seencls, seenglob;
	std::map<const Decl*, int> ids;
	std::map<std::string, int> files;
	std::vector<std::string> filenames;
	std::vector<const CXXRecordDecl*> clsqueue;

	Ex (ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts())
	{
		pp.SuppressTagKeyword = true;
		pp.FullyQualifiedName = true;
		pp.PrintCanonicalTypes = true;
	}

	int id (const Decl* d)
	{
		d = d->getCanonicalDecl();
		auto it = ids.find(d);
		if (it != ids.end()) return it->second;
		int n = ids.size() + 1;
		ids[d] = n;
		return n;
	}

	std::string filename (SourceLocation l)
	{
		l = sm.getExpansionLoc(l);
		std::string f = sm.getFilename(l).str();
		llvm::SmallString<256> real;
		if (!f.empty() && !llvm::sys::fs::real_path(f, real)) f = real.str().str();
		return f;
	}

	bool inroot (SourceLocation l)
	{
		std::string f = filename(l);
		for (auto& r : roots) if (f.compare(0, r.size(), r) == 0) return true;
		return false;
	}

	int fileidx (SourceLocation l)
	{
		std::string f = filename(l);
		auto it = files.find(f);
		if (it != files.end()) return it->second;
		int n = filenames.size();
		files[f] = n;
		filenames.push_back(f);
		return n;
	}

	Value loc (SourceLocation l)
	{
		l = sm.getExpansionLoc(l);
		return Array{fileidx(l), (int64_t) sm.getExpansionLineNumber(l)};
	}

	std::string usr (const Decl* d)
	{
		llvm::SmallString<256> buf;
		if (index::generateUSRForDecl(d, buf)) return "?" + std::to_string(id(d));
		return buf.str().str();
	}

	// value of an integral constant
	bool constval (Object& o, const VarDecl* v)
	{
		QualType t = v->getType();
		if (t->isDependentType() || !t->isIntegralOrEnumerationType() || t->isBooleanType() || !t.isConstQualified()) return false;
		const VarDecl* def = nullptr;
		const Expr* e = v->getAnyInitializer(def);
		if (!e || e->isValueDependent() || !def->isUsableInConstantExpressions(ctx)) return false;
		if (const APValue* x = def->evaluateValue())
		{
			if (x->isInt() && x->getInt().isRepresentableByInt64())
			{
				o["k"] = "lit"; o["v"] = x->getInt().isSigned() ? x->getInt().getSExtValue() : (int64_t) x->getInt().getZExtValue();
				return true;
			}
		}
		return false;
	}

	std::string qname (const NamedDecl* d)
	{
		std::string s;
		llvm::raw_string_ostream os(s);
		// qualified, without template arguments
		std::vector<std::string> parts;
		const DeclContext* dc = d->getDeclContext();
		while (dc)
		{
			if (auto ns = dyn_cast<NamespaceDecl>(dc))
			{
				if (!ns->isInline() && !ns->isAnonymousNamespace()) parts.push_back(ns->getNameAsString());
			}
			else if (auto r = dyn_cast<RecordDecl>(dc))
			{
				parts.push_back(r->getNameAsString());
			}
			dc = dc->getParent();
		}
		for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
		if (auto r = dyn_cast<CXXConstructorDecl>(d)) os << r->getParent()->getNameAsString();
		else if (auto r = dyn_cast<CXXDestructorDecl>(d)) os << "~" << r->getParent()->getNameAsString();
		else if (isa<CXXConversionDecl>(d)) os << "operator_conv";
		else os << d->getNameAsString();
		return s;
	}

	const CXXRecordDecl* recof (QualType t)
	{
		t = t.getNonReferenceType();
		while (!t.isNull() && (t->isPointerType() || t->isReferenceType())) t = t->getPointeeType();
		if (t.isNull()) return nullptr;
		if (t->isArrayType()) return nullptr;
		return t->getAsCXXRecordDecl();
	}

	void wantcls (const CXXRecordDecl* r)
	{
		if (!r) return;
		r = r->getDefinition();
		if (r) clsqueue.push_back(r);
	}

	Value type (QualType t)
	{
		Object o;
		if (t.isNull()) return o;
		QualType c = t.getCanonicalType();
		std::string ref;
		if (c->isLValueReferenceType()) ref = "l";
		if (c->isRValueReferenceType()) ref = "r";
		QualType nr = c.getNonReferenceType();
		int ptr = 0;
		QualType b = nr;
		while (b->isPointerType()) { ptr++; b = b->getPointeeType(); }
		o["s"] = nr.getUnqualifiedType().getAsString(pp);
		if (!ref.empty()) o["ref"] = ref;
		if (ptr) o["ptr"] = ptr;
		if (nr.isConstQualified()) o["const"] = true;
		if (ptr && b.isConstQualified()) o["pconst"] = true;
		if (auto r = recof(c))
		{
			o["rec"] = usr(r);
			o["rq"] = qname(r);
			wantcls(r);
		}
		if (nr->isBooleanType()) o["k"] = "b";
		else if (nr->isEnumeralType()) o["k"] = "e";
		else if (nr->isIntegerType()) o["k"] = nr->isUnsignedIntegerType() ? "u" : "i";
		else if (nr->isRealFloatingType()) o["k"] = "f";
		else if (nr->isPointerType()) o["k"] = "p";
		else if (nr->isVoidType()) o["k"] = "v";
		else if (nr->isArrayType()) o["k"] = "a";
		else o["k"] = "r";
		return o;
	}

	// ---------------------------------------------------------------- expressions
	Array exprs (llvm::ArrayRef<const Expr*> es)
	{
		Array a;
		for (auto e : es) a.push_back(expr(e));
		return a;
	}

	template <typename R> Array args (R range)
	{
		Array a;
		for (const Expr* e : range) a.push_back(expr(e));
		return a;
	}

	void callee (Object& o, const FunctionDecl* f)
	{
		o["fn"] = usr(f);
		o["q"] = qname(f);
		if (f->isNoReturn()) o["noret"] = true;
		if (auto m = dyn_cast<CXXMethodDecl>(f))
		{
			if (m->isStatic()) o["static"] = true;
			if (m->isConst()) o["cm"] = true;
			o["cls"] = usr(m->getParent());
		}
		QualType rt = f->getReturnType();
		if (rt->isReferenceType()) o["rref"] = true;
		Array po;
		// which arguments are bound to non-const references / pointers to non-const
		for (auto p : f->parameters())
		{
			QualType pt = p->getType();
			int flag = 0;
			if (pt->isReferenceType() && !pt->getPointeeType().isConstQualified()) flag = pt->isRValueReferenceType() ? 2 : 1;
			else if (pt->isReferenceType()) flag = 3;
			else if (pt->isPointerType() && !pt->getPointeeType().isConstQualified()) flag = 4;
			po.push_back(flag);
		}
		o["pf"] = std::move(po);
		if (auto ta = f->getTemplateSpecializationArgs())
		{
			std::string s;
			llvm::raw_string_ostream os(s);
			for (unsigned i = 0; i < ta->size(); i++)
			{
				if (i) os << ",";
				ta->get(i).print(pp, os, true);
			}
			o["ta"] = s;
		}
	}

	const Expr* strip (const Expr* e)
	{
		while (e)
		{
			if (auto p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
			else if (auto p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
			else if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
			else if (auto p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
			else if (auto p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
			else if (auto p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
			else if (auto p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
			else if (auto p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
			else if (auto p = dyn_cast<ChooseExpr>(e)) e = p->getChosenSubExpr();
			else if (auto p = dyn_cast<GenericSelectionExpr>(e)) e = p->getResultExpr();
			else if (auto p = dyn_cast<CXXStdInitializerListExpr>(e)) e = p->getSubExpr();
			else if (auto p = dyn_cast<ImplicitCastExpr>(e))
			{
				switch (p->getCastKind())
				{
					case CK_IntegralToFloating:
					case CK_FloatingToIntegral:
					case CK_FloatingToBoolean:
						return e;
					default: break;
				}
				e = p->getSubExpr();
			}
			else break;
		}
		return e;
	}

	Value expr (const Expr* e0)
	{
		if (!e0) return nullptr;
		const Expr* e = strip(e0);
		Object o;
		o["L"] = loc(e->getExprLoc());
		if (auto x = dyn_cast<ImplicitCastExpr>(e))
		{
			o["k"] = "conv";
			o["ck"] = x->getCastKindName();
			o["e"] = expr(x->getSubExpr());
			return o;
		}
		if (auto x = dyn_cast<DeclRefExpr>(e))
		{
			const ValueDecl* d = x->getDecl();
			if (auto f = dyn_cast<FunctionDecl>(d))
			{
				o["k"] = "fnref";
				callee(o, f);
				return o;
			}
			if (auto c = dyn_cast<EnumConstantDecl>(d))
			{
				o["k"] = "enum";
				o["q"] = qname(c);
				o["n"] = c->getNameAsString();
				return o;
			}
			o["k"] = "ref";
			o["n"] = d->getNameAsString();
			o["id"] = id(d);
			if (auto v = dyn_cast<VarDecl>(d))
			{
				if (isa<ParmVarDecl>(v)) o["dk"] = "param";
				else if (v->isStaticLocal()) { o["dk"] = "slocal"; o["q"] = qname(v); }
				else if (v->hasGlobalStorage()) { o["dk"] = "global"; o["q"] = qname(v); if (constval(o, v)) return o; }
				else o["dk"] = "local";
			}
			else o["dk"] = "other";
			o["t"] = type(d->getType());
			return o;
		}
		if (auto x = dyn_cast<MemberExpr>(e))
		{
			if (auto f = dyn_cast<FieldDecl>(x->getMemberDecl()))
			{
				o["k"] = "mem";
				o["b"] = expr(x->getBase());
				o["n"] = f->getNameAsString();
				o["f"] = usr(f);
				o["fc"] = usr(cast<CXXRecordDecl>(f->getParent()));
				o["arrow"] = x->isArrow();
				o["t"] = type(f->getType());
				return o;
			}
			if (auto v = dyn_cast<VarDecl>(x->getMemberDecl()))
			{
				o["k"] = "ref"; o["n"] = v->getNameAsString(); o["id"] = id(v);
				o["dk"] = "global"; o["q"] = qname(v); o["t"] = type(v->getType());
				constval(o, v);
				return o;
			}
			if (auto m = dyn_cast<CXXMethodDecl>(x->getMemberDecl()))
			{
				o["k"] = "fnref"; callee(o, m); o["b"] = expr(x->getBase());
				return o;
			}
		}
		if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
		if (auto x = dyn_cast<CXXOperatorCallExpr>(e))
		{
			const FunctionDecl* f = x->getDirectCallee();
			if (f)
			{
				std::string op = getOperatorSpelling(x->getOperator());
				if (auto m = dyn_cast<CXXMethodDecl>(f); m && !m->isStatic())
				{
					o["k"] = "mcall";
					o["op"] = op;
					callee(o, f);
					o["o"] = expr(x->getArg(0));
					o["ot"] = type(x->getArg(0)->getType());
					Array a;
					for (unsigned i = 1; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
					o["a"] = std::move(a);
					if (m->isVirtual()) o["virt"] = true;
				}
				else
				{
					o["k"] = "call";
					o["op"] = op;
					callee(o, f);
					o["a"] = args(x->arguments());
				}
				o["t"] = type(x->getType());
				return o;
			}
		}
		if (auto x = dyn_cast<CXXMemberCallExpr>(e))
		{
			const CXXMethodDecl* m = x->getMethodDecl();
			const Expr* obj = x->getImplicitObjectArgument();
			if (m)
			{
				o["k"] = "mcall";
				callee(o, m);
				auto me = dyn_cast<MemberExpr>(strip(x->getCallee()));
				o["o"] = expr(obj);
				o["ot"] = type(obj->getType());
				if (me) o["arrow"] = me->isArrow();
				if (m->isVirtual() && me && !me->hasQualifier()) o["virt"] = true;
				if (me && me->hasQualifier()) o["qual"] = true;
				o["a"] = args(x->arguments());
				o["t"] = type(x->getType());
				return o;
			}
		}
		if (auto x = dyn_cast<CallExpr>(e))
		{
			if (const FunctionDecl* f = x->getDirectCallee())
			{
				o["k"] = "call";
				callee(o, f);
			}
			else
			{
				o["k"] = "icall";
				o["c"] = expr(x->getCallee());
			}
			o["a"] = args(x->arguments());
			o["t"] = type(x->getType());
			return o;
		}
		if (auto x = dyn_cast<CXXConstructExpr>(e))
		{
			const CXXConstructorDecl* c = x->getConstructor();
			if (c->isCopyOrMoveConstructor() && x->getNumArgs() == 1 && x->isElidable())
				return expr(x->getArg(0));
			o["k"] = "ctor";
			callee(o, c);
			o["rec"] = usr(c->getParent());
			o["rq"] = qname(c->getParent());
			if (c->isCopyConstructor()) o["cc"] = "copy";
			if (c->isMoveConstructor()) o["cc"] = "move";
			if (c->isDefaultConstructor()) o["cc"] = "default";
			if (x->isListInitialization()) o["list"] = true;
			o["a"] = args(x->arguments());
			o["t"] = type(x->getType());
			wantcls(c->getParent());
			return o;
		}
		if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e))
		{
			o["k"] = "other"; o["c"] = "inherited"; return o;
		}
		if (auto x = dyn_cast<CXXNewExpr>(e))
		{
			o["k"] = "new";
			o["t"] = type(x->getAllocatedType());
			if (x->isArray()) { o["array"] = true; if (auto s = x->getArraySize()) o["size"] = expr(*s); }
			if (x->getInitializer()) o["init"] = expr(x->getInitializer());
			else if (x->getConstructExpr()) o["init"] = expr(x->getConstructExpr());
			return o;
		}
		if (auto x = dyn_cast<CXXDeleteExpr>(e))
		{
			o["k"] = "del";
			o["e"] = expr(x->getArgument());
			o["t"] = type(x->getDestroyedType());
			if (x->isArrayForm()) o["array"] = true;
			return o;
		}
		if (auto x = dyn_cast<IntegerLiteral>(e))
		{
			o["k"] = "lit"; o["v"] = (int64_t) x->getValue().getLimitedValue(); return o;
		}
		if (auto x = dyn_cast<FloatingLiteral>(e))
		{
			o["k"] = "lit"; o["v"] = x->getValueAsApproximateDouble(); o["f"] = true; return o;
		}
		if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "lit"; o["v"] = x->getValue(); return o; }
		if (auto x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "lit"; o["v"] = (int64_t) x->getValue(); return o; }
		if (auto x = dyn_cast<clang::StringLiteral>(e)) { o["k"] = "str"; o["v"] = x->getBytes().str(); return o; }
		if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
		if (auto x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "str"; o["v"] = "__func__"; return o; }
		if (auto x = dyn_cast<UnaryOperator>(e))
		{
			o["k"] = "un";
			o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
			if (x->isPostfix()) o["post"] = true;
			o["t"] = type(x->getType());
			o["et"] = type(x->getSubExpr()->getType());
			o["e"] = expr(x->getSubExpr());
			return o;
		}
		if (auto x = dyn_cast<BinaryOperator>(e))
		{
			if (x->isAssignmentOp())
			{
				o["k"] = "asg";
				o["op"] = x->getOpcodeStr().str();
				o["t"] = type(x->getLHS()->getType());
			}
			else
			{
				o["k"] = "bin";
				o["op"] = x->getOpcodeStr().str();
				o["t"] = type(x->getType());
			}
			o["l"] = expr(x->getLHS());
			o["r"] = expr(x->getRHS());
			return o;
		}
		if (auto x = dyn_cast<AbstractConditionalOperator>(e))
		{
			o["k"] = "cond";
			o["c"] = expr(x->getCond());
			o["a"] = expr(x->getTrueExpr());
			o["b"] = expr(x->getFalseExpr());
			return o;
		}
		if (auto x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); }
		if (auto x = dyn_cast<ArraySubscriptExpr>(e))
		{
			o["k"] = "idx"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx());
			o["bt"] = type(x->getBase()->getType()); o["t"] = type(x->getType()); return o;
		}
		if (auto x = dyn_cast<CXXFunctionalCastExpr>(e))
		{
			if (isa<CXXConstructExpr>(strip(x->getSubExpr())) || isa<InitListExpr>(strip(x->getSubExpr())))
			{
				Value v = expr(x->getSubExpr());
				return v;
			}
		}
		if (auto x = dyn_cast<ExplicitCastExpr>(e))
		{
			// a cast that is a user conversion keeps the call below it
			o["k"] = "cast";
			o["ck"] = isa<CXXDynamicCastExpr>(e) ? "dynamic" : isa<CXXReinterpretCastExpr>(e) ? "reinterpret" :
				isa<CXXStaticCastExpr>(e) ? "static" : isa<CXXConstCastExpr>(e) ? "const" : "c";
			o["kind"] = x->getCastKindName();
			o["t"] = type(x->getTypeAsWritten());
			o["e"] = expr(x->getSubExpr());
			return o;
		}
		if (auto x = dyn_cast<LambdaExpr>(e))
		{
			o["k"] = "lambda";
			const CXXRecordDecl* r = x->getLambdaClass();
			o["id"] = usr(r);
			o["fn"] = lambdafn(x);
			Array caps;
			auto ii = x->capture_init_begin();
			for (auto it = x->capture_begin(); it != x->capture_end(); ++it, ++ii)
			{
				Object c;
				if (it->capturesThis()) { c["this"] = true; }
				else if (it->capturesVariable())
				{
					auto v = it->getCapturedVar();
					c["n"] = v->getNameAsString();
					c["id"] = id(v);
					c["byref"] = it->getCaptureKind() == LCK_ByRef;
					if (*ii) c["init"] = expr(*ii);
				}
				caps.push_back(std::move(c));
			}
			o["caps"] = std::move(caps);
			return o;
		}
		if (auto x = dyn_cast<InitListExpr>(e))
		{
			o["k"] = "init"; o["a"] = args(x->inits()); o["t"] = type(x->getType()); return o;
		}
		if (auto x = dyn_cast<CXXThrowExpr>(e))
		{
			o["k"] = "throw"; o["e"] = x->getSubExpr() ? expr(x->getSubExpr()) : Value(nullptr); return o;
		}
		if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
		{
			o["k"] = "sizeof";
			o["t"] = type(x->getTypeOfArgument());
			return o;
		}
		if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
		{
			o["k"] = "zero"; o["t"] = type(e->getType()); return o;
		}
		if (auto x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "other"; o["c"] = "typeid"; return o; }
		if (auto x = dyn_cast<StmtExpr>(e)) { o["k"] = "sexpr"; o["s"] = stmt(x->getSubStmt()); return o; }
		if (auto x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "other"; o["c"] = "arrayinitloop"; return o; }
		o["k"] = "other";
		o["c"] = e->getStmtClassName();
		Array a;
		for (const Stmt* s : e->children()) if (auto se = dyn_cast_or_null<Expr>(s)) a.push_back(expr(se));
		o["a"] = std::move(a);
		return o;
	}

	Value lambdafn (const LambdaExpr* x)
	{
		const CXXMethodDecl* m = x->getCallOperator();
		Object f;
		const FunctionDecl* use = m;
		if (auto tm = x->getDependentCallOperator())
		{
			// generic lambda: take the first instantiation
			for (auto s : tm->specializations()) { use = s; break; }
		}
		f["q"] = "lambda";
		f["L"] = loc(x->getBeginLoc());
		Array ps;
		for (auto p : use->parameters())
		{
			Object po; po["n"] = p->getNameAsString(); po["id"] = id(p); po["t"] = type(p->getType());
			ps.push_back(std::move(po));
		}
		f["params"] = std::move(ps);
		f["ret"] = type(use->getReturnType());
		if (use->getReturnType()->isReferenceType()) f["rref"] = true;
		f["body"] = use->getBody() ? stmt(use->getBody()) : Value(nullptr);
		return f;
	}

	Value vardecl (const VarDecl* v)
	{
		Object o;
		o["n"] = v->getNameAsString();
		o["id"] = id(v);
		o["t"] = type(v->getType());
		o["L"] = loc(v->getLocation());
		if (v->isStaticLocal()) o["static"] = true;
		if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
		if (v->getType()->isReferenceType()) o["ref"] = true;
		if (v->getInit()) o["init"] = expr(v->getInit());
		return o;
	}

	Value stmt (const Stmt* s)
	{
		if (!s) return nullptr;
		if (auto e = dyn_cast<Expr>(s))
		{
			Object o; o["k"] = "expr"; o["e"] = expr(e); o["L"] = loc(e->getBeginLoc()); return o;
		}
		Object o;
		o["L"] = loc(s->getBeginLoc());
		if (auto x = dyn_cast<CompoundStmt>(s))
		{
			o["k"] = "seq"; Array a; for (auto c : x->body()) a.push_back(stmt(c)); o["s"] = std::move(a); return o;
		}
		if (auto x = dyn_cast<DeclStmt>(s))
		{
			o["k"] = "decl"; Array a;
			for (auto d : x->decls()) if (auto v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
			o["d"] = std::move(a); return o;
		}
		if (auto x = dyn_cast<IfStmt>(s))
		{
			o["k"] = "if";
			if (x->getInit()) o["init"] = stmt(x->getInit());
			if (auto v = x->getConditionVariable()) o["var"] = vardecl(v);
			o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); o["b"] = stmt(x->getElse());
			return o;
		}
		if (auto x = dyn_cast<ForStmt>(s))
		{
			o["k"] = "for"; o["init"] = stmt(x->getInit()); o["c"] = expr(x->getCond());
			if (auto v = x->getConditionVariable()) o["var"] = vardecl(v);
			o["inc"] = expr(x->getInc()); o["body"] = stmt(x->getBody());
			return o;
		}
		if (auto x = dyn_cast<WhileStmt>(s))
		{
			o["k"] = "while";
			if (auto v = x->getConditionVariable()) o["var"] = vardecl(v);
			o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody());
			return o;
		}
		if (auto x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return o; }
		if (auto x = dyn_cast<CXXForRangeStmt>(s))
		{
			o["k"] = "rfor"; o["var"] = vardecl(x->getLoopVariable());
			o["range"] = expr(x->getRangeInit()); o["rt"] = type(x->getRangeInit()->getType());
			o["body"] = stmt(x->getBody());
			return o;
		}
		if (auto x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; o["e"] = expr(x->getRetValue()); return o; }
		if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
		if (isa<ContinueStmt>(s)) { o["k"] = "cont"; return o; }
		if (isa<NullStmt>(s)) { o["k"] = "seq"; o["s"] = Array{}; return o; }
		if (auto x = dyn_cast<SwitchStmt>(s))
		{
			o["k"] = "switch"; o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return o;
		}
		if (auto x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["v"] = expr(x->getLHS()); o["s"] = stmt(x->getSubStmt()); return o; }
		if (auto x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["s"] = stmt(x->getSubStmt()); return o; }
		if (auto x = dyn_cast<CXXTryStmt>(s))
		{
			o["k"] = "try"; o["body"] = stmt(x->getTryBlock()); Array a;
			for (unsigned i = 0; i < x->getNumHandlers(); i++)
			{
				Object h; h["body"] = stmt(x->getHandler(i)->getHandlerBlock());
				if (auto v = x->getHandler(i)->getExceptionDecl()) h["var"] = vardecl(v);
				a.push_back(std::move(h));
			}
			o["h"] = std::move(a); return o;
		}
		if (auto x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
		if (auto x = dyn_cast<LabelStmt>(s)) return stmt(x->getSubStmt());
		o["k"] = "ostmt"; o["c"] = s->getStmtClassName();
		return o;
	}

	// ---------------------------------------------------------------- declarations
	void function (const FunctionDecl* f)
	{
		if (f->isDependentContext()) return;
		if (f->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
		if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
		bool has = f->doesThisDeclarationHaveABody() || (f->isDefaulted() && f->isThisDeclarationADefinition());
		if (!has) return;
		if (f->isDeleted()) return;
		SourceLocation l = f->getLocation();
		if (!inroot(l)) return;
		std::string u = usr(f);
		if (!seenfn.insert(u).second) return;
		Object o;
		o["usr"] = u;
		o["q"] = qname(f);
		o["L"] = loc(l);
		o["sig"] = f->getType().getCanonicalType().getAsString(pp);
		if (auto ta = f->getTemplateSpecializationArgs())
		{
			std::string s;
			llvm::raw_string_ostream os(s);
			for (unsigned i = 0; i < ta->size(); i++) { if (i) os << ","; ta->get(i).print(pp, os, true); }
			o["ta"] = s;
		}
		Array ps;
		for (auto p : f->parameters())
		{
			Object po;
			po["n"] = p->getNameAsString();
			po["id"] = id(p);
			po["t"] = type(p->getType());
			ps.push_back(std::move(po));
		}
		o["params"] = std::move(ps);
		o["ret"] = type(f->getReturnType());
		if (f->getReturnType()->isReferenceType()) o["rref"] = true;
		if (f->isDefaulted()) o["defaulted"] = true;
		if (f->isImplicit()) o["implicit"] = true;
		if (auto m = dyn_cast<CXXMethodDecl>(f))
		{
			o["cls"] = usr(m->getParent()); wantcls(m->getParent());
			o["access"] = getAccessSpelling(m->getAccess()).str();
			if (m->isStatic()) o["static"] = true;
			if (m->isConst()) o["cm"] = true;
			if (m->isVirtual()) o["virt"] = true;
			if (m->isCopyAssignmentOperator()) o["sp"] = "copyassign";
			if (m->isMoveAssignmentOperator()) o["sp"] = "moveassign";
			Array ov;
			for (auto b : m->overridden_methods()) ov.push_back(usr(b));
			o["ov"] = std::move(ov);
			wantcls(m->getParent());
		}
		if (auto c = dyn_cast<CXXConstructorDecl>(f))
		{
			o["kind"] = "ctor";
			if (c->isCopyConstructor()) o["sp"] = "copyctor";
			if (c->isMoveConstructor()) o["sp"] = "movector";
			if (c->isDefaultConstructor()) o["sp"] = "defctor";
			Array in;
			for (auto i : c->inits())
			{
				Object io;
				if (i->isBaseInitializer())
				{
					io["base"] = usr(i->getBaseClass()->getAsCXXRecordDecl());
					if (i->isBaseVirtual()) io["vb"] = true;
				}
				else if (i->isAnyMemberInitializer()) { io["f"] = i->getAnyMember()->getNameAsString(); io["fu"] = usr(i->getAnyMember()); io["ft"] = type(i->getAnyMember()->getType()); }
				else if (i->isDelegatingInitializer()) io["deleg"] = true;
				io["written"] = i->isWritten();
				io["e"] = expr(i->getInit());
				in.push_back(std::move(io));
			}
			o["inits"] = std::move(in);
		}
		if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
		if (isa<CXXConversionDecl>(f)) o["kind"] = "conv";
		if (f->hasBody()) o["body"] = stmt(f->getBody());
		functions.push_back(std::move(o));
	}

	void cls (const CXXRecordDecl* r)
	{
		r = r->getDefinition();
		if (!r || r->isDependentContext() || r->isLambda()) return;
		SourceLocation rl = r->getLocation();
		if (auto pat = r->getTemplateInstantiationPattern()) rl = pat->getLocation();
		if (!inroot(rl)) return;
		std::string u = usr(r);
		if (!seencls.insert(u).second) return;
		Object o;
		o["usr"] = u;
		o["q"] = qname(r);
		o["L"] = loc(rl);
		if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(r))
		{
			std::string t; llvm::raw_string_ostream os(t);
			auto& ta = s->getTemplateArgs();
			for (unsigned i = 0; i < ta.size(); i++) { if (i) os << ","; ta[i].print(pp, os, true); }
			o["ta"] = t;
		}
		if (auto p = dyn_cast<CXXRecordDecl>(r->getDeclContext())) o["parent"] = usr(p);
		Array fs;
		for (auto f : r->fields())
		{
			Object fo;
			fo["n"] = f->getNameAsString();
			fo["usr"] = usr(f);
			fo["t"] = type(f->getType());
			fo["L"] = loc(f->getLocation());
			fo["access"] = getAccessSpelling(f->getAccess()).str();
			if (f->isMutable()) fo["mutable"] = true;
			if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
			fs.push_back(std::move(fo));
		}
		o["fields"] = std::move(fs);
		Array bs;
		for (auto& b : r->bases())
		{
			Object bo;
			if (auto br = b.getType()->getAsCXXRecordDecl()) { bo["usr"] = usr(br); bo["q"] = qname(br); }
			if (b.isVirtual()) bo["v"] = true;
			bs.push_back(std::move(bo));
		}
		o["bases"] = std::move(bs);
		Array ms;
		for (auto m : r->methods())
		{
			Object mo;
			mo["usr"] = usr(m);
			mo["n"] = m->getNameAsString();
			mo["q"] = qname(m);
			mo["access"] = getAccessSpelling(m->getAccess()).str();
			if (m->isVirtual()) mo["virt"] = true;
			if (m->isPureVirtual()) mo["pure"] = true;
			if (m->isDeleted()) mo["deleted"] = true;
			if (m->isImplicit()) mo["implicit"] = true;
			if (m->isDefaulted()) mo["defaulted"] = true;
			if (m->isConst()) mo["cm"] = true;
			if (m->isCopyAssignmentOperator()) mo["sp"] = "copyassign";
			if (m->isMoveAssignmentOperator()) mo["sp"] = "moveassign";
			if (auto c = dyn_cast<CXXConstructorDecl>(m))
			{
				if (c->isCopyConstructor()) mo["sp"] = "copyctor";
				else if (c->isMoveConstructor()) mo["sp"] = "movector";
				mo["kind"] = "ctor";
			}
			if (isa<CXXDestructorDecl>(m)) mo["kind"] = "dtor";
			Array ov;
			for (auto b : m->overridden_methods()) ov.push_back(usr(b));
			mo["ov"] = std::move(ov);
			ms.push_back(std::move(mo));
		}
		o["methods"] = std::move(ms);
		if (r->isAbstract()) o["abstract"] = true;
		classes.push_back(std::move(o));
	}

	void global (const VarDecl* v)
	{
		if (!v->hasGlobalStorage()) return;
		if (!inroot(v->getLocation())) return;
		if (v->getDeclContext()->isDependentContext()) return;
		std::string u = usr(v);
		if (!v->isStaticLocal() && !v->isThisDeclarationADefinition()) return;
		if (!seenglob.insert(u).second) return;
		Object o;
		o["q"] = qname(v);
		o["usr"] = u;
		o["t"] = type(v->getType());
		o["L"] = loc(v->getLocation());
		if (v->isStaticLocal()) o["slocal"] = true;
		if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
		if (v->getTSCSpec() == TSCS_thread_local) o["tls"] = true;
		if (v->getInit() && !v->getInit()->isValueDependent()) o["init"] = expr(v->getInit());
		globals.push_back(std::move(o));
	}
};

struct V : RecursiveASTVisitor<V>
{
	Ex& ex;
	V (Ex& e) : ex(e) {}
	bool shouldVisitTemplateInstantiations () const { return true; }
	bool shouldVisitImplicitCode () const { return true; }
	bool VisitFunctionDecl (FunctionDecl* f) { ex.function(f); return true; }
	bool VisitCXXRecordDecl (CXXRecordDecl* r) { ex.cls(r); return true; }
	bool VisitVarDecl (VarDecl* v) { ex.global(v); return true; }
};

struct Con : ASTConsumer
{
	void HandleTranslationUnit (ASTContext& c) override
	{
		Ex ex(c);
		V v(ex);
		v.TraverseDecl(c.getTranslationUnitDecl());
		for (size_t i = 0; i < ex.clsqueue.size(); i++) ex.cls(ex.clsqueue[i]);
		Object o;
		Array fn;
		for (auto& f : ex.filenames) fn.push_back(f);
		o["files"] = std::move(fn);
		o["functions"] = std::move(ex.functions);
		o["classes"] = std::move(ex.classes);
		o["globals"] = std::move(ex.globals);
		o["errors"] = (int64_t) c.getDiagnostics().getClient()->getNumErrors();
		nerrors = c.getDiagnostics().getClient()->getNumErrors();
		std::error_code ec;
		llvm::raw_fd_ostream os(outpath, ec);
		os << Value(std::move(o));
	}
};

struct Act : ASTFrontendAction
{
	std::unique_ptr<ASTConsumer> CreateASTConsumer (CompilerInstance&, llvm::StringRef) override
	{
		return std::make_unique<Con>();
	}
};

}

// extract OUT.json ROOT[,ROOT...] SOURCE -- flags...
int main (int argc, const char** argv)
{
	if (argc < 4) return 2;
	outpath = argv[1];
	llvm::SmallVector<llvm::StringRef, 4> rs;
	llvm::StringRef(argv[2]).split(rs, ',');
	for (auto r : rs) roots.push_back(r.str());
	std::string src = argv[3];
	int i = 4;
	std::vector<std::string> flags;
	for (; i < argc; i++) if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {src});
	int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
	return rc;
}
