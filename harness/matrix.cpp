#include "Matrix.h"
#include "MatrixNonOwned.h"
#include "h.h"
using namespace vh;
using namespace PsimagLite;
// reference: list of entries by (row, column)
template <class T> struct D {
	size_t r, c;
	std::vector<std::vector<T>> a;
	D(size_t r_ = 0, size_t c_ = 0) : r(r_), c(c_), a(r_, std::vector<T>(c_)) { }
	D(const Matrix<T>& m) : D(m.rows(), m.cols()) { for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) a[i][j] = m(i, j); }
	template <class F> static D make(size_t r, size_t c, F f) { D d(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) d.a[i][j] = f(i, j); return d; }
};
template <class T> std::ostream& operator<<(std::ostream& o, const D<T>& d)
{
	o << d.r << "x" << d.c << "[";
	for (auto& x : d.a) { for (auto& y : x) o << y << " "; o << ";"; }
	return o << "]";
}
template <class T> Matrix<T> gm(G& h, size_t r, size_t c)
{
	std::vector<T> v(r * c);
	for (auto& x : v) x = Gen<T>::g(h);
	Matrix<T> m(v, r, c);
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (m(i, j) != v[i + j * r]) fail("column-major layout");
	return m;
}
template <class T> T cjg(T x) { return x; }
template <> Z cjg(Z x) { return std::conj(x); }
template <class T> void same(const char* w, const Matrix<T>& m, const D<T>& d)
{
	if (m.rows() == d.r && m.cols() == d.c && m.data().size() == d.r * d.c && D<T>(m).a == d.a) return;
	std::ostringstream o;
	o << w << ": got " << D<T>(m) << " (stored " << m.data().size() << "), expected " << d;
	fail(o.str());
}
#define BOTH(name, rounds) \
	template <class T> static void b_##name(G& h); \
	CHECK(name, rounds) { if (h.b()) b_##name<double>(h); else b_##name<Z>(h); } \
	template <class T> static void b_##name(G& h)
#define ENT(r, c, e) D<T>::make(r, c, [&](size_t i, size_t j) -> T { (void)i; (void)j; return e; })
#define PRE \
	typedef Matrix<T> M; typedef std::vector<T> V; \
	size_t r = h.sz(5), c = h.sz(5), q = h.sz(5); \
	M x = gm<T>(h, r, c), y = gm<T>(h, r, c), z = gm<T>(h, c, q), v = gm<T>(h, h.u(0, 3), h.u(0, 3)); \
	T a = Gen<T>::g(h); \
	In()("x", D<T>(x))("y", D<T>(y))("z", D<T>(z))("v", D<T>(v))("a", a); \
	const D<T> X(x), Y(y), Zd(z); (void)X; (void)Y; (void)Zd; (void)a; (void)q; typedef V UnusedV; (void)sizeof(UnusedV)
#define KEEP same("operand x", x, X); same("operand y", y, Y); same("operand z", z, Zd)
BOTH(m_access, 300)
{
	PRE;
	if (r && c) {
		size_t i0 = h.u(0, r - 1), j0 = h.u(0, c - 1);
		x(i0, j0) = a;
		same("assigned", x, ENT(r, c, (i == i0 && j == j0) ? a : X.a[i][j]));
	}
	same("zero", M(r, c), ENT(r, c, T(0)));
	same("value", M(r, c, a), ENT(r, c, a));
	V d(h.u(0, 30));
	for (auto& e : d) e = Gen<T>::g(h);
	bool thrown = false;
	try { M w(d, r, c); same("from data", w, ENT(r, c, d[i + j * r])); } catch (std::exception&) { thrown = true; }
	eq("too little data is rejected", thrown, d.size() < r * c);
	M w = y;
	thrown = false;
	size_t nc = h.u(0, 6), nr = h.b() ? r : h.u(0, 6);
	try { w.resize(nr, nc); } catch (std::exception&) { thrown = true; }
	eq("resize rejected", thrown, r > 0 && nr != r);
	if (!thrown) same("resized", w, ENT(nr, nc, (r > 0 && j < c) ? Y.a[i][j] : T(0)));
	M e;
	e.resize(nr, nc, a);
	same("resized with value", e, ENT(nr, nc, a));
	M s1 = y, s2 = z;
	s1.swap(s2);
	same("swap", s1, Zd);
	same("swap", s2, Y);
	s1.clear();
	same("clear", s1, D<T>());
	same("y", y, Y);
	Matrix<double> rr = gm<double>(h, r, c);
	Matrix<Z> cc(rr);
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) eq("converted", cc(i, j), Z(rr(i, j), 0));
	eq("rows", cc.rows(), r); eq("cols", cc.cols(), c);
}
BOTH(m_setTo, 100) { PRE; x.setTo(a); same("setTo", x, ENT(r, c, a)); }
BOTH(m_setToIdentity, 150) { PRE; bool t = false; try { x.setToIdentity(); } catch (std::exception&) { t = true; } eq("rejected", t, r != c); if (!t) same("identity", x, ENT(r, c, T(i == j ? 1 : 0)));
	M s = gm<T>(h, r, r); s.setToIdentity(); same("identity", s, ENT(r, r, T(i == j ? 1 : 0))); }
BOTH(m_nonZeros, 100) { PRE; size_t n = 0; for (auto& e : X.a) for (auto& f : e) n += (f != T(0)); eq("nonZeros", x.nonZeros(), n); }
BOTH(m_pe, 150) { PRE; x += y; same("x+=y", x, ENT(r, c, X.a[i][j] + Y.a[i][j])); same("y", y, Y); y += y; same("y+=y", y, ENT(r, c, Y.a[i][j] + Y.a[i][j])); }
BOTH(m_me, 150) { PRE; x -= y; same("x-=y", x, ENT(r, c, X.a[i][j] - Y.a[i][j])); same("y", y, Y); }
BOTH(m_se, 150) { PRE; x *= a; same("x*=a", x, ENT(r, c, X.a[i][j] * a)); }
BOTH(m_pea, 150) { PRE; x += a * y; same("x+=a*y", x, ENT(r, c, X.a[i][j] + a * Y.a[i][j])); same("y", y, Y); M w; w += a * y; same("w+=a*y", w, ENT(r, c, a * Y.a[i][j])); }
BOTH(m_peb, 150) { PRE; x += y * a; same("x+=y*a", x, ENT(r, c, X.a[i][j] + a * Y.a[i][j])); same("y", y, Y); }
BOTH(m_mult, 150) { PRE; v = a * x; same("a*x", v, ENT(r, c, a * X.a[i][j])); KEEP; x = a * x; same("x=a*x", x, ENT(r, c, a * X.a[i][j])); }
BOTH(m_multr, 150) { PRE; v = x * a; same("x*a", v, ENT(r, c, a * X.a[i][j])); KEEP; }
BOTH(m_plus, 150) { PRE; v = x + y; same("x+y", v, ENT(r, c, X.a[i][j] + Y.a[i][j])); KEEP; x = y + x; same("x=y+x", x, ENT(r, c, X.a[i][j] + Y.a[i][j])); }
BOTH(m_minus, 150) { PRE; v = x - y; same("x-y", v, ENT(r, c, X.a[i][j] - Y.a[i][j])); KEEP; y = x - y; same("y=x-y", y, ENT(r, c, X.a[i][j] - Y.a[i][j])); }
BOTH(m_aplus, 150) { PRE; v = a * (x + y); same("a*(x+y)", v, ENT(r, c, a * (X.a[i][j] + Y.a[i][j]))); KEEP; }
BOTH(m_aminus, 150) { PRE; v = a * (x - y); same("a*(x-y)", v, ENT(r, c, a * (X.a[i][j] - Y.a[i][j]))); KEEP; }
BOTH(m_axpy, 150) { PRE; v = x + a * y; same("x+a*y", v, ENT(r, c, X.a[i][j] + a * Y.a[i][j])); KEEP; x = x + a * y; same("x=x+a*y", x, ENT(r, c, X.a[i][j] + a * Y.a[i][j])); }
BOTH(m_axpyr, 150) { PRE; v = a * x + y; same("a*x+y", v, ENT(r, c, a * X.a[i][j] + Y.a[i][j])); KEEP; }
template <class T> D<T> mul(const D<T>& x, const D<T>& y) { return D<T>::make(x.r, y.c, [&](size_t i, size_t j) { T s = 0; for (size_t k = 0; k < x.c; ++k) s += x.a[i][k] * y.a[k][j]; return s; }); }
template <class T> D<T> dag(const D<T>& x, bool cc) { return D<T>::make(x.c, x.r, [&](size_t i, size_t j) { return cc ? cjg(x.a[j][i]) : x.a[j][i]; }); }
BOTH(m_mm, 300)
{
	PRE;
	D<T> w = mul(X, Zd);
	v = x * z; same("x*z", v, w); KEEP;
	same("Matrix(x*z)", M(x * z), w);
	v = a * x * z; same("a*x*z", v, ENT(r, q, a * w.a[i][j])); KEEP;
	M s = gm<T>(h, c, c); const D<T> S(s);
	x = x * s; same("x=x*s", x, mul(X, S));
	M s2 = s * s; same("s*s", s2, mul(S, S));
	s = s * s; same("s=s*s", s, mul(S, S));
}
BOTH(m_mv, 300)
{
	PRE;
	V b(c), e(r), o(h.u(0, 4)), o2 = o;
	for (auto& t : b) t = Gen<T>::g(h);
	for (auto& t : e) t = Gen<T>::g(h);
	In()("x", X)("b", b)("e", e);
	V b0 = b, e0 = e;
	o <= x * b;
	eq("x*b size", o.size(), r);
	for (size_t i = 0; i < r; ++i) { T s = 0; for (size_t j = 0; j < c; ++j) s += X.a[i][j] * b0[j]; eq("x*b component " + std::to_string(i), o[i], s); }
	o2 <= e * x;
	eq("e*x size", o2.size(), c);
	for (size_t i = 0; i < c; ++i) { T s = 0; for (size_t j = 0; j < r; ++j) s += e0[j] * X.a[j][i]; eq("e*x component " + std::to_string(i), o2[i], s); }
	KEEP; eq("b", b == b0, true); eq("e", e == e0, true);
}
BOTH(m_mtc, 300)
{
	PRE;
	M w = gm<T>(h, r, q); const D<T> W(w);
	same("x^dagger w", multiplyTransposeConjugate(x, w), mul(dag(X, true), W));
	same("x^T w", multiplyTransposeConjugate(x, w, 'N'), mul(dag(X, false), W)); KEEP;
}
BOTH(m_tc, 300)
{
	PRE;
	M w(h.b() ? 0 : c, h.u(0, 3), a), u = w;
	transposeConjugate(w, x); same("conjugate transpose", w, dag(X, true));
	transpose(u, x); same("transpose", u, dag(X, false));
	same("conjugate transpose", transposeConjugate(x), dag(X, true)); KEEP;
}
CHECK(m_tcr, 50) { b_m_tc<Z>(h); }
CHECK(m_t, 50) { b_m_tc<Z>(h); }
CHECK(m_conjugate, 100) { typedef Z T; PRE; x.conjugate(); same("conjugate", x, ENT(r, c, std::conj(X.a[i][j]))); }
BOTH(m_outer, 200)
{
	PRE;
	size_t zr = Zd.r, zc = Zd.c;
	M w(h.b() ? 0 : r * zr, h.u(0, 3), a);
	outerProduct(w, x, z);
	same("outer product", w, ENT(r * zr, c * zc, (X.a[i % r][j % c] * Zd.a[i / r][j / c]))); KEEP;
}
BOTH(m_norm2, 100) { PRE; double s = 0; for (auto& e : X.a) for (auto& f : e) s += std::norm(f); near("norm2", norm2(x), s, 1e-9); }
BOTH(m_pred, 400)
{
	PRE;
	bool zero = true, eqm = r == Zd.r && c == Zd.c, id = r == c;
	if (h.u(0, 3) == 0) x.setTo(0);
	if (h.u(0, 3) == 0 && r && c) { x.setTo(0); x(h.u(0, r - 1), h.u(0, c - 1)) = h.b() ? 1 : 0; }
	if (h.u(0, 2) == 0) for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) x(i, j) = (i == j);
	if (h.u(0, 4) == 0 && r && c) { size_t i = h.u(0, r - 1); if (i < c) x(i, i) = h.b() ? T(0) : T(2); }
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { if (x(i, j) != T(0)) zero = false; if (id && x(i, j) != T(i == j ? 1 : 0)) id = false; if (eqm && x(i, j) != z(i, j)) eqm = false; }
	In()("x", D<T>(x))("z", Zd);
	eq("isZero", isZero(x), zero);
	eq("isTheIdentity", isTheIdentity(x), id);
	eq("==", x == z, eqm);
	M w = x;
	eq("== copy", x == w, true);
	if (r && c) { w(r - 1, c - 1) += T(1); eq("== changed", x == w, false); }
	M s = gm<T>(h, r, r);
	int sg = h.b() ? 1 : -1;
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j <= i; ++j) s(i, j) = T(sg) * cjg(s(j, i));
	if (h.b()) for (size_t i = 0; i < r; ++i) s(i, i) = sg == 1 ? T(std::real(s(i, i))) : s(i, i) - cjg(s(i, i));
	if (h.b() && r) s(h.u(0, r - 1), h.u(0, r - 1)) += T(1);
	bool he = true, an = true;
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < r; ++j) { if (s(i, j) != cjg(s(j, i))) he = false; if (s(i, j) != -cjg(s(j, i))) an = false; }
	In()("s", D<T>(s));
	eq("isHermitian", isHermitian(s), he);
	eq("isAntiHermitian", isAntiHermitian(s), an);
	bool t = false, t2 = false;
	try { isHermitian(x); } catch (std::exception&) { t = true; }
	try { isAntiHermitian(x); } catch (std::exception&) { t2 = true; }
	eq("not square", t, r != c); eq("not square", t2, r != c);
}
BOTH(m_view, 200)
{
	typedef std::vector<T> V;
	size_t r = h.u(1, 5), c = h.u(1, 5), off = h.u(0, 5), i0 = h.u(0, r - 1), j0 = h.u(0, c - 1);
	V d(off + r * c + h.u(0, 3));
	for (auto& e : d) e = Gen<T>::g(h);
	T a = Gen<T>::g(h);
	In()("data", d)("rows", r)("cols", c)("offset", off)("i", i0)("j", j0)("a", a);
	V w = d;
	MatrixNonOwned<T> v(r, c, d, off);
	eq("read", v(i0, j0), w[off + i0 + j0 * r]);
	v(i0, j0) = a;
	w[off + i0 + j0 * r] = a;
	ok("only the addressed entry is changed", d == w);
	Matrix<T> m = gm<T>(h, r, c);
	const Matrix<T>& cm = m;
	MatrixNonOwned<const T> u(cm);
	eq("view of matrix", u(i0, j0), m(i0, j0));
}
BOTH(m_rotate, 200)
{
	size_t n = h.u(1, 5), q = h.u(1, 5);
	Matrix<T> m = gm<T>(h, n, n), t = gm<T>(h, n, q);
	D<T> m0(m), t0(t);
	In()("m", m0)("t", t0);
	rotate(m, t);
	same("t^dagger m t", m, mul(dag(t0, true), mul(m0, t0)));
	same("transformation kept", t, t0);
}
CHECK(m_text, 200)
{
	typedef double T;
	PRE;
	std::ostringstream o;
	o << x;
	std::istringstream is(o.str());
	M w;
	is >> w;
	same("written and read back", w, X);
}
