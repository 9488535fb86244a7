// LINK: psimaglite
// SRC: src/Matrix.cpp src/TridiagonalMatrix.cpp src/Mpi.cpp src/PsimagLite.cpp src/Concurrency.cpp
#include <algorithm>
#include <cmath>
#include <fstream>
#include <set>
#include "Matrix.h"
#include "TridiagonalMatrix.h"
#include "ContinuedFraction.h"
#include "ContinuedFractionCollection.h"
#include "h.h"
using namespace vh;
using namespace PsimagLite;
typedef TridiagonalMatrix<double> TM;
typedef ContinuedFraction<TM> CF;
typedef ContinuedFractionCollection<CF> CFC;
static TM gt(G& h, size_t n, std::vector<double>& a, std::vector<double>& b)
{
	TM t;
	a.clear(); b.clear();
	bool p = h.b();
	if (!p) { if (h.b()) t.resize(n); else t.resize(n, 3); }
	for (size_t k = 0; k < n; ++k) {
		a.push_back(h.d()); b.push_back(h.d());
		if (p) t.push(a[k], b[k]); else { t.a(k) = a[k]; t.b(k) = b[k]; }
	}
	return t;
}
CHECK(tm_basic, 400)
{
	size_t n = 1 + h.sz(6);
	std::vector<double> a, b;
	TM t = gt(h, n, a, b);
	In()("a", a)("b", b);
	eq("size", t.size(), n);
	const TM& ct = t;
	for (size_t k = 0; k < n; ++k) { eq("a", t.a(k), a[k]); eq("b", t.b(k), b[k]); eq("const a", ct.a(k), a[k]); eq("const b", ct.b(k), b[k]); }
	Matrix<double> m(h.b() ? 0 : h.u(0, 7), h.b() ? n : h.u(0, 7), 5.0);
	size_t q = h.b() ? 0 : h.u(1, n), e = q ? q : n;
	In()("a", a)("b", b)("leading part", q)("reused rows", m.rows())("reused cols", m.cols());
	t.buildDenseMatrix(m, q);
	eq("rows", m.rows(), e); eq("cols", m.cols(), e);
	for (size_t i = 0; i < e; ++i) for (size_t j = 0; j < e; ++j)
		eq("entry " + std::to_string(i) + "," + std::to_string(j), m(i, j), i == j ? a[i] : (j == i + 1 ? b[j] : (i == j + 1 ? b[i] : 0.0)));
	size_t g = h.u(1, 9);
	double v = h.d();
	TM u(ct);
	u.resize(g);
	eq("resized", u.size(), g);
	for (size_t k = 0; k < g; ++k) { eq("a kept", u.a(k), k < n ? a[k] : 0.0); eq("b kept", u.b(k), k < n ? b[k] : 0.0); }
	u.resize(n, v);
	for (size_t k = 0; k < n; ++k) { eq("a set", u.a(k), v); eq("b set", u.b(k), v); }
}
CHECK(tm_diag, 150)
{
	size_t n = 2 + h.sz(5);
	std::vector<double> a, b, e, f(n);
	TM t = gt(h, n, a, b);
	In()("a", a)("b", b);
	t.diag(e, n);
	Matrix<double> m;
	t.buildDenseMatrix(m);
	diag(m, f, 'V');
	eq("number of eigenvalues", e.size(), n);
	for (size_t k = 0; k < n; ++k) near("eigenvalue " + std::to_string(k), e[k], f[k], 1e-8);
}
static Z frac(const std::vector<double>& a, const std::vector<double>& b, Z z, double Eg, int s)
{
	// first diagonal element of (z - s*Eg + s*H)^{-1}
	Z d = 0;
	for (size_t k = a.size(); k-- > 0;) {
		Z x = z - double(s) * Eg + double(s) * a[k];
		if (k + 1 < a.size()) x -= b[k + 1] * b[k + 1] / d;
		d = x;
	}
	return 1.0 / d;
}
struct Par { double Eg; double weight; int isign; };
static void close(const std::string& w, Z got, Z want) { near(w + " (real)", got.real(), want.real(), 1e-7 * (1 + std::abs(want))); near(w + " (imaginary)", got.imag(), want.imag(), 1e-7 * (1 + std::abs(want))); }
static CF gcf(G& h, std::vector<double>& a, std::vector<double>& b, Par& p, FreqEnum f = FREQ_REAL)
{
	size_t n = 1 + h.sz(5);
	TM t = gt(h, n, a, b);
	for (size_t k = 1; k < n; ++k) { if (b[k] == 0) { b[k] = 1; t.b(k) = 1; } }
	p.Eg = h.d(); p.weight = h.d(); p.isign = h.b() ? 1 : -1;
	CF c(f);
	if (h.u(0, 2) == 0) { // a fraction that was in use before, often of the same size
		std::vector<double> a0, b0;
		size_t m = h.b() ? n : 1 + h.sz(5);
		TM t0 = gt(h, m, a0, b0);
		for (size_t k = 1; k < m; ++k) if (b0[k] == 0) t0.b(k) = 1;
		c.set(t0, h.d(), h.d(), h.b() ? 1 : -1);
	}
	c.set(t, p.Eg, p.weight, p.isign);
	return c;
}
CHECK(cf_value, 400)
{
	std::vector<double> a, b;
	Par p;
	CF c = gcf(h, a, b, p);
	Z z(h.d(), 0.5 + 0.25 * h.u(0, 4));
	In()("a", a)("b", b)("Eg", p.Eg)("weight", p.weight)("sign", p.isign)("z", z);
	close("continued fraction", c.iOfOmega(z, p.Eg, p.isign), p.weight * frac(a, b, z, p.Eg, p.isign));
	eq("size", c.size(), a.size());
}
CHECK(cf_plot, 300)
{
	std::vector<double> a, b;
	Par p;
	bool mats = h.b();
	CF c = gcf(h, a, b, p, h.b() && mats ? FREQ_MATSUBARA : FREQ_REAL);
	double w1 = h.d(), dw = 0.25 * h.u(1, 6), dl = 0.5 + 0.25 * h.u(0, 2), beta = 1 + h.u(0, 5);
	double w2 = w1 + 0.25 * h.u(0, 9);
	size_t nm = mats ? h.u(1, 6) : 0;
	In()("a", a)("b", b)("Eg", p.Eg)("weight", p.weight)("sign", p.isign)("omega1", w1)("omega2", w2)("step", dw)("delta", dl)("matsubaras", nm);
	PlotParams<double> pp(w1, w2, dw, dl, beta, nm);
	CF::PlotDataType r;
	c.plot(r, pp);
	eq("points", r.size(), mats ? nm : size_t((w2 - w1) / dw));
	for (size_t k = 0; k < r.size(); ++k) {
		Z z = mats ? Z(dl, (2.0 * k + 1) * M_PI / beta) : Z(w1 + k * dw, dl);
		near("frequency " + std::to_string(k), r[k].first, mats ? z.imag() : z.real(), 1e-9);
		close("value " + std::to_string(k), r[k].second, p.weight * frac(a, b, z, p.Eg, p.isign));
	}
}
CHECK(cf_collection, 300)
{
	size_t m = h.u(0, 4);
	CFC coll(FREQ_REAL);
	std::vector<CF> v;
	std::vector<double> a, b;
	Par p;
	for (size_t k = 0; k < m; ++k) { v.push_back(gcf(h, a, b, p)); coll.push(v[k]); }
	double w1 = h.d();
	PlotParams<double> pp(w1, w1 + h.u(1, 4), 0.5, 0.5, 1, h.b() ? 0 : 3);
	In()("fractions", m)("omega1", pp.omega1)("omega2", pp.omega2)("matsubaras", pp.numberOfMatsubaras);
	eq("size", coll.size(), m);
	CF::PlotDataType r, s;
	coll.plot(r, pp);
	std::vector<CF::PlotDataType> e(m);
	for (size_t k = 0; k < m; ++k) {
		v[k].plot(e[k], pp);
		CF::PlotDataType o;
		coll.plotOne(k, o, pp);
		eq("plotOne", o == e[k], true);
	}
	eq("points", r.size(), m ? e[0].size() : size_t(0));
	for (size_t x = 0; x < r.size(); ++x) {
		Z t = 0;
		for (size_t k = 0; k < m; ++k) t += e[k][x].second;
		eq("frequency", r[x].first, e[0][x].first);
		close("sum of all fractions", r[x].second, t);
	}
}
