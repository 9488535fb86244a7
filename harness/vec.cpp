#include "Vector.h"
#include "h.h"
using namespace vh;
using namespace PsimagLite;
template <class T> std::vector<T> gv(G& h, size_t n)
{
	std::vector<T> v(n);
	for (auto& x : v) x = Gen<T>::g(h);
	return v;
}
template <class T> T cjg(T x) { return x; }
template <> Z cjg(Z x) { return std::conj(x); }
template <class T> void cmp(const char* w, const std::vector<T>& v, size_t n, std::function<T(size_t)> f)
{
	eq(std::string(w) + " size", v.size(), n);
	for (size_t k = 0; k < n; ++k) eq(std::string(w) + " component " + std::to_string(k), v[k], f(k));
}
#define BOTH(name, rounds) \
	template <class T> static void b_##name(G& h); \
	CHECK(name, rounds) { if (h.b()) b_##name<double>(h); else b_##name<Z>(h); } \
	template <class T> static void b_##name(G& h)
#define PRE \
	typedef std::vector<T> V; \
	size_t n = h.sz(7); \
	V x = gv<T>(h, n), y = gv<T>(h, n), z = gv<T>(h, n), w = gv<T>(h, n), v = gv<T>(h, h.u(0, 8)); \
	T a = Gen<T>::g(h), b = Gen<T>::g(h), c = Gen<T>::g(h), d = Gen<T>::g(h); \
	In()("v", v)("x", x)("y", y)("z", z)("w", w)("a", a)("b", b)("c", c)("d", d); \
	const V x0 = x, y0 = y, z0 = z, w0 = w; (void)x0; (void)y0; (void)z0; (void)w0; (void)a; (void)b; (void)c; (void)d
#define KEEP eq("operand x kept", x == x0, true); eq("operand y kept", y == y0, true); eq("operand z kept", z == z0, true); eq("operand w kept", w == w0, true)
BOTH(v_mult, 200) { PRE; v <= a * x; cmp<T>("a*x", v, n, [&](size_t k) { return a * x0[k]; }); KEEP; x <= a * x; cmp<T>("x<=a*x", x, n, [&](size_t k) { return a * x0[k]; }); }
BOTH(v_multr, 200) { PRE; v <= x * a; cmp<T>("x*a", v, n, [&](size_t k) { return a * x0[k]; }); KEEP; }
BOTH(v_mult2, 200) { PRE; v <= a * (b * x); cmp<T>("a*(b*x)", v, n, [&](size_t k) { return a * b * x0[k]; }); KEEP; }
BOTH(v_plus, 200) { PRE; v <= x + y; cmp<T>("x+y", v, n, [&](size_t k) { return x0[k] + y0[k]; }); KEEP; x <= x + y; cmp<T>("x<=x+y", x, n, [&](size_t k) { return x0[k] + y0[k]; }); y <= z + y; cmp<T>("y<=z+y", y, n, [&](size_t k) { return z0[k] + y0[k]; }); }
BOTH(v_axpy, 200) { PRE; v <= x + a * y; cmp<T>("x+a*y", v, n, [&](size_t k) { return x0[k] + a * y0[k]; }); KEEP; x <= x + a * y; cmp<T>("x<=x+a*y", x, n, [&](size_t k) { return x0[k] + a * y0[k]; }); }
BOTH(v_axpyr, 200) { PRE; v <= a * x + y; cmp<T>("a*x+y", v, n, [&](size_t k) { return a * x0[k] + y0[k]; }); KEEP; }
BOTH(v_four, 200) { PRE; v <= a * x + b * y + c * z + d * w; cmp<T>("four", v, n, [&](size_t k) { return a * x0[k] + b * y0[k] + c * z0[k] + d * w0[k]; }); KEEP; }
BOTH(v_minus, 200) { PRE; v <= x - y; cmp<T>("x-y", v, n, [&](size_t k) { return x0[k] - y0[k]; }); KEEP; y <= x - y; cmp<T>("y<=x-y", y, n, [&](size_t k) { return x0[k] - y0[k]; }); }
BOTH(v_axmy, 200) { PRE; v <= x - a * y; cmp<T>("x-a*y", v, n, [&](size_t k) { return x0[k] - a * y0[k]; }); KEEP; }
BOTH(v_three, 200) { PRE; v <= x - b * y + c * z; cmp<T>("x-b*y+c*z", v, n, [&](size_t k) { return x0[k] - b * y0[k] + c * z0[k]; }); KEEP; }
CHECK(v_aplus, 200) { typedef double T; PRE; v <= a * (x + y); cmp<T>("a*(x+y)", v, n, [&](size_t k) { return a * (x0[k] + y0[k]); }); KEEP; }
CHECK(v_aminus, 200) { typedef double T; PRE; v <= a * (x - y); cmp<T>("a*(x-y)", v, n, [&](size_t k) { return a * (x0[k] - y0[k]); }); KEEP; }
BOTH(v_pe, 200) { PRE; V r = (x += y); cmp<T>("x+=y", x, n, [&](size_t k) { return x0[k] + y0[k]; }); eq("returned", r == x, true); eq("y", y == y0, true); }
BOTH(v_pea, 200) { PRE; x += a * y; cmp<T>("x+=a*y", x, n, [&](size_t k) { return x0[k] + a * y0[k]; }); eq("y", y == y0, true); }
BOTH(v_me, 200) { PRE; x -= y; cmp<T>("x-=y", x, n, [&](size_t k) { return x0[k] - y0[k]; }); eq("y", y == y0, true); }
BOTH(v_mea, 200) { PRE; x -= a * y; cmp<T>("x-=a*y", x, n, [&](size_t k) { return x0[k] - a * y0[k]; }); eq("y", y == y0, true); }
BOTH(v_scale, 200) { PRE; x *= a; cmp<T>("x*=a", x, n, [&](size_t k) { return x0[k] * a; }); }
BOTH(v_div, 200) { PRE; T q = T(h.b() ? 2 : -4); x /= q; cmp<T>("x/=q", x, n, [&](size_t k) { return x0[k] / q; }); }
BOTH(v_sp, 200) { PRE; T s = 0; for (size_t k = 0; k < n; ++k) s += cjg(x[k]) * y[k]; eq("scalarProduct", scalarProduct(x, y), s); KEEP;
	V l = gv<T>(h, n + 1); bool thrown = false; try { scalarProduct(x, l); } catch (std::exception&) { thrown = true; } ok("different sizes are rejected", thrown); }
BOTH(v_dot, 200) { PRE; T s = 0; for (size_t k = 0; k < n; ++k) s += x[k] * cjg(y[k]); eq("operator*", x * y, s); KEEP;
	V l = gv<T>(h, n + 1); bool thrown = false; try { x * l; } catch (std::exception&) { thrown = true; } ok("different sizes are rejected", thrown); }
BOTH(v_sum, 200) { PRE; T s = 0; for (auto& e : x) s += e; eq("sum", PsimagLite::sum(x), s); KEEP; }
BOTH(v_norm, 200) { PRE; double s = 0; for (auto& e : x) s += std::norm(e); near("norm", std::real(PsimagLite::norm(x)), std::sqrt(s), 1e-10); }
CHECK(v_matvec, 300)
{
	size_t r = h.sz(6), n = h.sz(6);
	std::vector<std::vector<double>> m(r);
	for (auto& q : m) q = gv<double>(h, n);
	std::vector<double> x = gv<double>(h, n);
	In()("rows", r)("x", x);
	std::vector<double> v = m * x;
	eq("length", v.size(), r);
	for (size_t k = 0; k < r; ++k) {
		double s = 0;
		for (size_t j = 0; j < n; ++j) s += m[k][j] * x[j];
		eq("component", v[k], s);
	}
}
CHECK(v_index, 300)
{
	std::vector<SizeType> b(h.sz(8));
	for (auto& e : b) e = h.u(0, 5);
	SizeType v = h.u(0, 6);
	In()("b", b)("v", v);
	int want = -1;
	for (size_t k = 0; k < b.size() && want < 0; ++k)
		if (b[k] == v) want = k;
	eq("indexOrMinusOne", indexOrMinusOne(b, v), want);
}
CHECK(v_text, 300)
{
	std::vector<double> x = gv<double>(h, h.sz(9)), y = gv<double>(h, h.u(0, 9));
	In()("x", x)("old", y);
	std::stringstream s;
	s << x;
	s >> y;
	eq("read back", y == x, true);
}
