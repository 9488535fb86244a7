// LINK: psimaglite
// SRC: src/PsimagLite.cpp src/Concurrency.cpp src/PredicateSimple.cpp
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include "h.h"
#include "Vector.h"
#include "PsimagLite.h"
#define private public
#include "PredicateAwesome.h"
#include "OneOperatorSpec.h"
#include "GetBraOrKet.h"
#include "Options.h"
#include "CanonicalExpression.h"
#undef private
using namespace vh;
using namespace PsimagLite;
typedef std::string S;
typedef std::vector<S> VS;
static S text(G& h, const char* alphabet, size_t max)
{
	S s;
	size_t n = h.sz(max), m = strlen(alphabet);
	for (size_t k = 0; k < n; ++k) s += alphabet[h.u(0, m - 1)];
	return s;
}
static S q(const S& s) { return "\"" + s + "\""; }
template <class F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static bool digits(const S& s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }

CHECK(p_site, 4000)
{
	S s = text(h, "ab[]12", 9);
	In()("operator", q(s));
	bool custom = h.u(0, 3) == 0;
	if (custom) { for (char& c : s) c = c == '[' ? '(' : c == ']' ? ')' : c; In()("operator", q(s)); }
	char o = custom ? '(' : '[', c = custom ? ')' : ']';
	size_t f = s.rfind(o), l = s.rfind(c);
	bool bad = (f == S::npos) != (l == S::npos) || (f != S::npos && l < f);
	S root, site;
	bool has = false;
	bool t = throws([&] { auto x = custom ? OneOperatorSpec::extractSiteIfAny(s, o, c) : OneOperatorSpec::extractSiteIfAny(s); root = x.root; site = x.siteString; has = x.hasSiteString; });
	eq("refused", t, bad);
	if (t) return;
	eq("has a site", has, f != S::npos);
	eq("label", q(root), q(has ? s.substr(0, f) + s.substr(l + 1) : s));
	eq("site", q(site), q(has ? s.substr(f + 1, l - f - 1) : ""));
}
CHECK(p_spec, 4000)
{
	S s = text(h, "ab?12'", 8);
	In()("operator", q(s));
	S b = s;
	bool tr = b.size() && b.back() == '\'';
	if (tr) b.pop_back();
	size_t p = b.find('?');
	bool bad = p != S::npos && !digits(b.substr(p + 1));
	eq("refused", throws([&] { OneOperatorSpec x(s); }), bad);
	if (bad) return;
	OneOperatorSpec x(s);
	eq("transpose", x.transpose, tr);
	eq("label", q(x.label), q(p == S::npos ? b : b.substr(0, p)));
	eq("degree of freedom", x.dof, p == S::npos ? 0 : strtoul(b.c_str() + p + 1, 0, 10));
}
CHECK(p_number, 2000)
{
	S s = text(h, "0123456789- ", 6);
	In()("text", q(s));
	eq("non-negative integer", OneOperatorSpec::isNonNegativeInteger(s), digits(s));
	size_t r = 0;
	eq("refused", throws([&] { r = OneOperatorSpec::strToNumberOrFail(s); }), !digits(s));
	if (digits(s)) eq("number", r, strtoul(s.c_str(), 0, 10));
}
CHECK(p_bra, 6000)
{
	static const char* parts[] = { "P", "Q", "R", "X", "0", "1", "27", "gs", "time", "<", ">", "|", "a" };
	S s;
	size_t n = h.u(0, 4);
	for (size_t k = 0; k < n; ++k) s += parts[h.u(0, 12)];
	switch (h.u(0, 3)) { case 0: s = "|" + s + ">"; break; case 1: s = "<" + s + "|"; break; case 2: if (h.b()) s = "|<" + s + "|>"; }
	In()("text", q(s));
	// oracle
	S b = s;
	bool ket = true, bad = s.size() < 2;
	if (!bad && s.size() > 2 && s[0] == '|' && s.back() == '>') b = s.substr(1, s.size() - 2);
	else if (!bad && s.size() > 2 && s[0] == '<' && s.back() == '|') { b = s.substr(1, s.size() - 2); ket = false; }
	S full = b;
	int kind = 0; // 0 E 1 P 2 R
	size_t first = 0, second = 0;
	auto num = [&](size_t& v) { size_t k = 1; while (k < b.size() && isdigit(b[k])) ++k; if (k == 1) { bad = true; return; } v = strtoul(b.substr(1, k - 1).c_str(), 0, 10); b = b.substr(k); };
	if (b.size() < 2) bad = true;
	if (!bad) {
		if (b == "gs") b = "";
		else if (b == "time") { kind = 1; b = ""; }
		else {
			if (b[0] == 'P') { kind = 1; num(first); }
			else if (b[0] == 'Q') num(first);
			else if (b[0] == 'R') { kind = 2; num(first); if (b != "") bad = true; }
			if (!bad && b != "") { if (b[0] == 'X') num(second); else bad = true; if (b != "") bad = true; }
		}
	}
	eq("refused", throws([&] { GetBraOrKet g(s); }), bad);
	if (bad) return;
	GetBraOrKet g(s);
	eq("ket", g.isKet(), ket);
	eq("text", q(g.toString()), q(full));
	eq("is P", g.isPvector(), kind == 1);
	eq("is R", g.isRvector(), kind == 2);
	size_t v = 0;
	eq("P index refused", throws([&] { v = g.pIndex(); }), kind == 0);
	if (kind) eq("P index", v, first);
	eq("sector refused", throws([&] { v = g.sectorIndex(); }), kind != 0);
	if (!kind) eq("sector", v, first);
	eq("level refused", throws([&] { v = g.levelIndex(); }), kind != 0);
	if (!kind) eq("level", v, second);
}
CHECK(p_opts, 2000)
{
	static const char* w[] = { "a", "ab", "b", "none", "twositedmrg", "x" };
	VS reg;
	for (auto x : w) if (h.b()) reg.push_back(x);
	S s;
	std::set<S> set;
	size_t n = h.u(0, 4), mode = h.u(0, 2);
	for (size_t k = 0; k < n; ++k) { S x = w[h.u(0, 5)]; s += (k ? "," : "") + x; if (mode) set.insert(x); }
	if (h.u(0, 4) == 0) s = "," + s + ",,";
	In()("registered", reg)("options", q(s))("mode", mode);
	bool known = true; // the registered names are the ones that are refused ("unknown") -- see below
	std::streambuf* old = std::cerr.rdbuf(0);
	Options::Writeable wr(reg, mode);
	bool t;
	try { Options::Readable r(wr, s); t = false; for (auto x : w) eq(S("is set ") + x, r.isSet(x), set.count(x) > 0); eq("is set nothing", r.isSet(""), false); } catch (Fail&) { std::cerr.rdbuf(old); throw; } catch (std::exception&) { t = true; }
	std::cerr.rdbuf(old);
	for (auto& x : set) if (std::find(reg.begin(), reg.end(), x) == reg.end()) known = false;
	eq("unknown option refused", t, mode == Options::Writeable::STRICT && !known);
}
static bool cmp(long a, const S& op, long b)
{
	return op == "==" ? a == b : op == "!=" ? a != b : op == "<" ? a < b : op == ">" ? a > b : op == "<=" ? a <= b : op == ">=" ? a >= b : a % b == 0;
}
CHECK(p_simple, 3000)
{
	static const char* ops[] = { "==", "!=", "<=", ">=", ">", "<", "%%" };
	S op = ops[h.u(0, 6)];
	long l = h.u(0, 9), m = h.u(0, 9), c = h.u(0, 9);
	S lhs = h.b() ? "l" : "+:l:m", rhs = h.b() ? std::to_string(c) : (h.b() ? "m" : "l");
	In()("predicate", q(lhs + op + rhs))("l", l)("m", m);
	long a = lhs == "l" ? l : l + m, b = rhs == "l" ? l : rhs == "m" ? m : c;
	PredicateSimple p(lhs + op + rhs);
	VS names { "l", "m" };
	std::vector<SizeType> vals { SizeType(l), SizeType(m) };
	bool bad = op == "%%" && b == 0, r = false;
	eq("refused", throws([&] { r = p.isTrue(names, vals); }), bad);
	if (!bad) eq("true", r, cmp(a, op, b));
	std::vector<int> iv { int(l), int(m) };
	if (!bad) eq("true for int", p.isTrue(names, iv), cmp(a, op, b));
	// the operator is the first one in the text, the longest there
	S s = text(h, "a1=!<>%", 8);
	In()("predicate", q(s));
	size_t pos = S::npos, len = 0;
	for (size_t k = 0; k + 1 < s.size() && !len; ++k) for (auto o : ops) if (s.compare(k, strlen(o), o) == 0) { pos = k; len = strlen(o); break; }
	bool badp = s.size() < 3 || !len || pos == 0 || pos + len == s.size();
	eq("malformed", throws([&] { PredicateSimple x(s); }), badp);
	if (badp) return;
	PredicateSimple x(s);
	eq("left", q(x.lhs_), q(s.substr(0, pos)));
	eq("operator", q(x.op_), q(s.substr(pos, len)));
	eq("right", q(x.rhs_), q(s.substr(pos + len)));
	S hs = text(h, "lm1", 8), nm = text(h, "lm1", 2);
	long v = h.u(0, 120);
	In()("expression", q(hs))("name", q(nm))("value", v);
	S want;
	for (size_t k = 0; k < hs.size();)
		if (nm != "" && hs.compare(k, nm.size(), nm) == 0) { want += std::to_string(v); k += nm.size(); } else want += hs[k++];
	eq("with the value put in", q(PredicateSimple::replaceVariable(hs, nm, v)), q(want));
}
CHECK(p_awesome, 3000)
{
	static const char* ops[] = { "==", "!=", "<=", ">=", ">", "<", "%%" };
	size_t nor = h.u(0, 3), nv = h.u(1, 4);
	static const char* nm[] = { "l", "m", "s", "t" };
	long v[4];
	for (long& x : v) x = h.u(0, 6);
	S s;
	bool want = false;
	bool alt = h.b();
	for (size_t k = 0; k < nor; ++k) {
		bool all = true;
		size_t na = h.u(1, 3);
		for (size_t j = 0; j < na; ++j) {
			S op = ops[h.u(0, 6)];
			size_t w = h.u(0, nv - 1), c = h.u(1, 7);
			s += (j ? (alt ? "&" : "^") : k ? (alt ? "," : ";") : "") + S(nm[w]) + op + std::to_string(c);
			all = all && cmp(v[w], op, c);
		}
		want = want || all;
	}
	In()("predicate", q(s))("values", VS { std::to_string(v[0]), std::to_string(v[1]), std::to_string(v[2]), std::to_string(v[3]) })("how many", nv);
	std::unique_ptr<PredicateAwesome<>> p(alt ? new PredicateAwesome<>(s) : new PredicateAwesome<>(s, ";", "^"));
	bool r = nv == 1 ? p->isTrue("l", v[0]) : nv == 2 ? p->isTrue("l", v[0], "m", v[1]) : nv == 3 ? p->isTrue("l", v[0], "m", v[1], "s", v[2]) : p->isTrue("l", v[0], "m", v[1], "s", v[2], "t", v[3]);
	eq("true", r, want);
	ok("special option without a receiver is refused", throws([&] { PredicateAwesome<> x("@opt,l==1"); }));
}
// expressions: level order of a random tree
struct T { S code; std::vector<std::unique_ptr<T>> kid; };
static std::unique_ptr<T> tree(G& h, int depth)
{
	std::unique_ptr<T> t(new T);
	size_t w = depth == 0 ? 9 : h.u(0, 11);
	static const char* o[] = { "+", "-", "*", "/", "%", "?", "cos", "sin", "exp" };
	if (w >= 9) { t->code = std::to_string(h.u(0, 12)) + (h.b() ? ".5" : ""); return t; }
	t->code = o[w];
	size_t a = w < 5 ? 2 : w == 5 ? 3 : 1;
	for (size_t k = 0; k < a; ++k) t->kid.push_back(tree(h, depth - 1));
	return t;
}
static double value(const T& t)
{
	std::vector<double> v;
	for (auto& k : t.kid) v.push_back(value(*k));
	const S& c = t.code;
	if (c == "+") return v[0] + v[1];
	if (c == "-") return v[0] - v[1];
	if (c == "*") return v[0] * v[1];
	if (c == "/") return v[1] * v[1] < 1e-6 ? v[0] : v[0] / v[1];
	if (c == "%") { if (!(std::fabs(v[0]) < 2e9) || !(std::fabs(v[1]) < 2e9)) throw 1; size_t x = int(std::fabs(v[0])), y = int(std::fabs(v[1])); return y ? x % y : x; }
	if (c == "?") { if (!(std::fabs(v[0]) < 2e9)) throw 1; return size_t(std::fabs(v[0])) ? v[1] : v[2]; }
	if (c == "cos") return std::cos(v[0]);
	if (c == "sin") return std::sin(v[0]);
	if (c == "exp") return std::exp(v[0]);
	return std::atof(c.c_str());
}
CHECK(p_expr, 4000)
{
	auto t = tree(h, h.u(0, 3));
	VS toks;
	std::vector<T*> todo { t.get() };
	for (size_t k = 0; k < todo.size(); ++k) { toks.push_back(todo[k]->code); for (auto& c : todo[k]->kid) todo.push_back(c.get()); }
	In()("expression", toks);
	typedef PlusMinusMultiplyDivide<double> Pr;
	double want;
	try { want = value(*t); } catch (int) { return; }
	if (!std::isfinite(want) || std::fabs(want) > 1e12) return;
	{ Pr p; ExpressionForAST<Pr> e(toks, p); near("value", e.exec(), want, 1e-9 * (1 + std::fabs(want))); }
	VS cut(toks.begin(), toks.begin() + h.u(0, toks.size() - 1));
	In()("incomplete expression", cut);
	ok("an incomplete expression is refused", throws([&] { Pr p; ExpressionForAST<Pr> e(cut, p); e.exec(); }));
	VS more(toks);
	more.push_back("3");
	In()("expression with unused tokens", more);
	{ Pr p; ExpressionForAST<Pr> e(more, p); near("value", e.exec(), want, 1e-9 * (1 + std::fabs(want))); }
	ok("a word is refused", throws([&] { Pr p; ExpressionForAST<Pr> e(VS { "+", "1", "abc" }, p); e.exec(); }));
}
CHECK(p_quasi, 3000)
{
	typedef QuasiCanonical<std::complex<double>> Q;
	S s = text(h, "12.-+ij", 5);
	In()("text", q(s));
	if (s == "") ok("empty text is refused", throws([&] { Q::isRealScalar(s); }));
	else eq("real", Q::isRealScalar(s), s.find_first_not_of("0123456789.+-") == S::npos);
	eq("pure imaginary", Q::isPureComplex(s), s == "i" || (s.size() > 1 && s.back() == 'i' && s.substr(0, s.size() - 1).find_first_not_of("0123456789.+-") == S::npos));
	// terms and bracketed scalars
	size_t n = h.u(1, 4);
	S e;
	VS terms;
	std::vector<double> vals;
	for (size_t k = 0; k < n; ++k) {
		S term;
		if (h.b()) { double a = h.u(0, 9), b = h.u(0, 9); e += (k ? "+" : "") + S("(+:") + std::to_string(int(a)) + ":" + std::to_string(int(b)) + ")*c"; term = "@" + std::to_string(vals.size()) + "@*c"; vals.push_back(a + b); }
		else { term = h.b() ? "-2*d" : "3*d*c"; e += (k ? "+" : "") + term; }
		terms.push_back(term);
	}
	In()("expression", q(e));
	Q x(e);
	eq("number of terms", x.numberOfTerms(), n);
	for (size_t k = 0; k < n; ++k) eq("term", q(x.term(k)), q(terms[k]));
	for (size_t k = 0; k < vals.size(); ++k) { eq("scalar index", x.scalarIndex("@" + std::to_string(k) + "@"), int(k)); near("scalar", std::abs(x.scalarFromIndex(k) - vals[k]), 0, 1e-12); }
	eq("no such scalar", x.scalarIndex("@" + std::to_string(vals.size()) + "@"), -1);
	eq("not a scalar", x.scalarIndex("@1"), -1);
	for (S bad : { "(1", "1)", "((1))", "a-b", "()" }) { In()("expression", q(bad)); ok("malformed text is refused", throws([&] { Q y(bad); })); }
}
struct Num { // items: single letters denote known non-zero numbers, z denotes nothing
	typedef double ComplexOrRealType;
	struct AuxiliaryType { };
	struct ResultType { double x; bool empty; ResultType& operator+=(const ResultType& o) { x += o.x; empty = false; return *this; } ResultType& operator*=(const ResultType& o) { x *= o.x; return *this; } ResultType& operator*=(double d) { x *= d; return *this; } };
	static bool isEmpty(const ResultType& r) { return r.empty; }
	static bool metaEqual(const ResultType&, const ResultType&) { return true; }
	static double of(char c) { return c == 'a' ? 2 : c == 'b' ? -3 : 5; }
	ResultType operator()(const S& t, AuxiliaryType&) const { if (t == "z") return { 0, true }; if (t.size() != 1 || !strchr("abc", t[0])) throw std::runtime_error("item"); return { of(t[0]), false }; }
};
CHECK(p_canon, 3000)
{
	size_t n = h.u(1, 4);
	S e;
	double want = 0;
	bool any = false;
	for (size_t k = 0; k < n; ++k) {
		size_t m = h.u(1, 3);
		double v = 1;
		bool item = false;
		e += k ? "+" : "";
		for (size_t j = 0; j < m; ++j) {
			e += j ? "*" : "";
			if (h.b()) { char c = "abc"[h.u(0, 2)]; e += c; v *= Num::of(c); item = true; }
			else if (h.u(0, 3) == 0) { e += "(*:2:3)"; v *= 6; }
			else if (h.u(0, 3) == 0) { e += "-2"; v *= -2; if (j) { e.erase(e.size() - 2, 1); v = -v; } }
			else { int c = h.u(1, 4); e += std::to_string(c); v *= c; }
		}
		if (item) { want += v; any = true; }
	}
	In()("expression", q(e));
	Num spec;
	Num::AuxiliaryType aux;
	CanonicalExpression<Num> ce(spec);
	Num::ResultType none { 0, true }, r { 7, true };
	bool got = ce(r, e, none, aux);
	eq("something left", got, any);
	if (any) near("value", r.x, want, 1e-9);
	S hs = text(h, "ab1", 8), nm = text(h, "ab1", 2);
	long v = h.u(0, 120);
	In()("text", q(hs))("label", q(nm))("value", v);
	S w;
	bool did = false;
	for (size_t k = 0; k < hs.size();)
		if (nm != "" && hs.compare(k, nm.size(), nm) == 0) { w += std::to_string(v); k += nm.size(); did = true; } else w += hs[k++];
	auto pr = CanonicalExpression<Num>::replaceAll(hs, nm, v);
	eq("replaced", pr.first, did);
	eq("text with the value put in", q(pr.second), q(w));
}
