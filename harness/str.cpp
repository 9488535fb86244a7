// LINK: psimaglite
// SRC: src/PsimagLite.cpp src/Concurrency.cpp
#include "PsimagLite.h"
#include "Complex.h"
#include "h.h"
using namespace vh;
using namespace PsimagLite;
static std::string text(G& h, const char* alphabet, size_t max)
{
	std::string s;
	size_t n = h.sz(max), m = strlen(alphabet);
	for (size_t k = 0; k < n; ++k) s += alphabet[h.u(0, m - 1)];
	return s;
}
static std::string q(const std::string& s) { return "\"" + s + "\""; }
CHECK(s_split, 3000)
{
	std::string s = text(h, "ab,; ", 14), d = text(h, ",; ", 3);
	if (d == "") d = h.b() ? "," : "";
	std::vector<std::string> t, want;
	bool deflt = h.u(0, 5) == 0;
	if (deflt) d = " ";
	size_t had = h.u(0, 2);
	for (size_t k = 0; k < had; ++k) { t.push_back("x"); want.push_back("x"); }
	In()("text", q(s))("delimiters", q(d))("tokens before", had);
	std::string cur;
	for (size_t k = 0; k <= s.size(); ++k)
		if (k == s.size() || d.find(s[k]) != std::string::npos) { if (cur != "") want.push_back(cur); cur = ""; }
		else cur += s[k];
	if (deflt) split(t, s); else split(t, s, d);
	eq("number of tokens", t.size(), want.size());
	for (size_t k = 0; k < t.size(); ++k) eq("token " + std::to_string(k), q(t[k]), q(want[k]));
}
CHECK(s_replaceAll, 3000)
{
	std::string s = text(h, "aab", 12), f = text(h, "ab", 3), t = text(h, "abc", 4), w;
	In()("text", q(s))("from", q(f))("to", q(t));
	for (size_t k = 0; k < s.size();)
		if (f != "" && s.compare(k, f.size(), f) == 0) { w += t; k += f.size(); }
		else w += s[k++];
	replaceAll(s, f, t);
	eq("replaced", q(s), q(w));
}
CHECK(s_basename, 1000)
{
	std::string s = text(h, "ab/.", 12);
	In()("path", q(s));
	size_t p = s.rfind('/');
	eq("basename", q(PsimagLite::basename(s)), q(p == std::string::npos ? s : s.substr(p + 1)));
}
CHECK(s_basenameOf, 1000)
{
	std::string s = text(h, "abc.", 12);
	In()("file name", q(s));
	size_t p = s.rfind('.');
	eq("name without extension", q(basenameOf(s)), q(p == std::string::npos ? s : s.substr(0, p)));
}
CHECK(s_class, 4000)
{
	std::string s = text(h, "0123456789-+eE.x ", 10);
	if (h.b()) s = text(h, "0123456789", 10);
	In()("text", q(s));
	bool digits = true, flt = true, num = true, any = false;
	for (char c : s) {
		bool d = c >= '0' && c <= '9';
		any = any || d;
		digits = digits && d;
		flt = flt && (d || strchr("-+eE.", c));
		num = num && (d || c == '-' || c == '+');
	}
	eq("is an integer", isAnInteger(s), digits && !s.empty());
	eq("is a float", isAfloat(s), flt && any);
	bool thrown = false; int v = 0;
	try { v = PsimagLite::atoi(s); } catch (std::exception&) { thrown = true; }
	eq("atoi rejects", thrown, !num);
	if (num && s.size() < 10) eq("atoi", v, int(strtol(s.c_str(), 0, 10)));
	thrown = false; double x = 0;
	try { x = PsimagLite::atof(s); } catch (std::exception&) { thrown = true; }
	eq("atof rejects", thrown, !(flt && any));
	if (!thrown) eq("atof", x, strtod(s.c_str(), 0));
}
CHECK(s_int, 1000)
{
	size_t a = h.u(0, 200), b = h.u(1, 12);
	if (h.u(0, 4) == 0) { a = h.r() >> h.u(0, 63); }
	In()("a", a)("b", b);
	bool thrown = false; size_t v = 0;
	try { v = integerDivision(a, b); } catch (std::exception&) { thrown = true; }
	eq("rejects remainders", thrown, a % b != 0);
	if (!thrown) eq("quotient", v, a / b);
	size_t l = 0;
	while (l < 64 && (a >> l)) ++l;
	eq("number of bits", log2Integer(a), l);
}
CHECK(s_text, 1000)
{
	In()("n", "?");
	long n = h.i(-100000, 100000);
	In()("n", n);
	eq("text of an integer", q(ttos(n)), q(std::to_string(n)));
	double x = double(h.i(-1000000, 1000000)) / 1024;
	In()("x", x);
	ok("text of a number", std::fabs(strtod(ttos(x).c_str(), 0) - x) <= 1e-9 * std::fabs(x));
	std::string w = "w" + text(h, "abc", 5);
	eq("text of a word", q(ttos(w)), q(w));
	std::pair<SizeType, SizeType> p(h.u(0, 99), h.u(0, 99)), r;
	std::stringstream ss;
	PsimagLite::operator<<(ss, p);
	PsimagLite::operator>>(ss, r);
	eq("pair", r.first, p.first); eq("pair", r.second, p.second);
}
CHECK(s_complex, 2000)
{
	// a, bi, a+bi, a-bi with optional sign and exponent in front
	static const char* m[] = { "0", "1", "2.5", "12", "0.125", "1e3", "25e-2", "7." };
	size_t k = h.u(0, 7), l = h.u(0, 7), kind = h.u(0, 2), s0 = h.u(0, 2), s1 = h.u(0, 1);
	std::string re = std::string(s0 == 0 ? "" : s0 == 1 ? "-" : "+") + m[k];
	std::string im = std::string(s1 ? "-" : "+") + m[l];
	std::string s = kind == 0 ? re : kind == 1 ? re + "i" : re + im + "i";
	In()("text", q(s));
	double x = strtod(re.c_str(), 0), y = strtod(im.c_str(), 0);
	Z w = kind == 0 ? Z(x, 0) : kind == 1 ? Z(0, x) : Z(x, y);
	eq("complex number", stringToComplex(s), w);
}
