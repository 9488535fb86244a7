// LINK: psimaglite
// SRC: src/Matrix.cpp src/PsimagLite.cpp src/Concurrency.cpp src/Mpi.cpp
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <numeric>
#include <set>
#include <sstream>
#define private public
#include "RungeKutta.h"
#include "RootFindingBisection.h"
#include "ChebyshevFunction.h"
#include "ChebyshevFunctionExplicit.h"
#include "LinearPrediction.h"
using namespace PsimagLite;
#include "AkimaSpline.h"
#undef private
#include "h.h"
using namespace vh;
typedef std::vector<double> V;
typedef AkimaSpline<V> Akima;
static double adiff(const V& x, const V& s, long i) // slope m_i with the quadratic extrapolation at both ends
{
	long n = long(x.size());
	if (i >= 0 && i < n - 1) return (s[i + 1] - s[i]) / (x[i + 1] - x[i]);
	return i < 0 ? 2 * adiff(x, s, i + 1) - adiff(x, s, i + 2) : 2 * adiff(x, s, i - 1) - adiff(x, s, i - 2);
}
static double aslope(const V& x, const V& s, long i)
{
	double w1 = std::fabs(adiff(x, s, i + 1) - adiff(x, s, i)), w2 = std::fabs(adiff(x, s, i - 1) - adiff(x, s, i - 2));
	if (w1 + w2 == 0) return (adiff(x, s, i - 1) + adiff(x, s, i)) / 2;
	return (w1 * adiff(x, s, i - 1) + w2 * adiff(x, s, i)) / (w1 + w2);
}
static bool throws(const std::function<void()>& f)
{
	try { f(); } catch (const std::exception&) { return true; }
	return false;
}
CHECK(n_akima, 600)
{
	size_t n = h.u(0, 9) == 0 ? h.u(0, 2) : 3 + h.sz(6);
	V x, s;
	double p = h.d();
	for (size_t k = 0; k < n; ++k) { x.push_back(p); p += double(1ul << h.u(0, 2)); s.push_back(h.u(0, 3) ? h.d(8) : (k ? s[k - 1] : 0)); }
	In()("x", x)("s", s);
	if (n < 3) { ok("too few points are refused", throws([&] { Akima a(x, s); })); return; }
	V more(s);
	more.push_back(1);
	ok("different numbers of x and y are refused", throws([&] { Akima a(x, more); }));
	Akima a(x, s);
	eq("interval begin", a.getInterval().first, x[0]);
	eq("interval end", a.getInterval().second, x[n - 1]);
	ok("below the interval", throws([&] { a(x[0] - 0.5); }));
	ok("above the interval", throws([&] { a(x[n - 1] + 0.5); }));
	for (size_t k = 0; k < n; ++k) near("value at point " + std::to_string(k), a(x[k]), s[k], 1e-9);
	for (size_t k = 0; k + 1 < n; ++k) {
		double u = x[k + 1] - x[k], d = s[k + 1] - s[k], p0 = aslope(x, s, long(k)), p1 = aslope(x, s, long(k) + 1);
		for (double f : { 0.125, 0.5, 0.75 }) { // cubic Hermite form
			double t = f, w = s[k] + d * t * t * (3 - 2 * t) + u * (p0 * t * (1 - t) * (1 - t) - p1 * t * t * (1 - t));
			near("value inside piece " + std::to_string(k), a(x[k] + f * u), w, 1e-9);
		}
	}
}
struct F1 {
	V a, b, c;
	V operator()(const double& t, const V& y) const
	{
		V r(y.size());
		for (size_t j = 0; j < y.size(); ++j) r[j] = a[j] + b[j] * t * t * t + c[j] * y[j];
		return r;
	}
};
struct F2 { // coupled: y_j' = t*y_{j+1}
	V operator()(const double& t, const V& y) const
	{
		V r(y.size());
		for (size_t j = 0; j < y.size(); ++j) r[j] = t * y[(j + 1) % y.size()];
		return r;
	}
};
template <class F> static std::vector<V> refrk(const F& f, double h, double t, size_t n, V y)
{
	std::vector<V> r;
	auto comb = [&](const V& p, double w, const V& q) { V o(p); for (size_t j = 0; j < o.size(); ++j) o[j] += w * q[j]; return o; };
	for (size_t i = 0; i < n; ++i, t += h) {
		r.push_back(y);
		V k1 = f(t, y), k2 = f(t + h / 2, comb(y, h / 2, k1)), k3 = f(t + h / 2, comb(y, h / 2, k2)), k4 = f(t + h, comb(y, h, k3));
		for (size_t j = 0; j < y.size(); ++j) y[j] += h / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
	}
	return r;
}
struct Quiet {
	std::ostringstream o;
	std::streambuf* b;
	Quiet() : b(std::cerr.rdbuf(o.rdbuf())) { }
	~Quiet() { std::cerr.rdbuf(b); }
};
template <class F> static void rk(G& h, const F& f, const V& y0)
{
	Quiet q;
	double step = double(h.u(1, 4)) / 4, t0 = h.d();
	size_t n = h.sz(6), had = h.u(0, 2);
	std::vector<V> r(had, V(1, 7)), w = refrk(f, step, t0, n, y0);
	In()("y0", y0)("h", step)("t0", t0)("steps", n)("entries before", had);
	RungeKutta<double, F, V> k(f, step);
	if (h.b()) k.solve(r, t0, n, y0);
	else k.solveEx(r, t0, t0 + step * double(n) + step / 2, y0);
	eq("number of entries", r.size(), had + n);
	for (size_t i = 0; i < had; ++i) { eq("earlier entry", r[i].size(), 1u); eq("earlier entry", r[i][0], 7.0); }
	for (size_t i = 0; i < n; ++i) {
		eq("components", r[had + i].size(), y0.size());
		for (size_t j = 0; j < y0.size(); ++j) ok("step " + std::to_string(i) + " component " + std::to_string(j), std::fabs(r[had + i][j] - w[i][j]) <= 1e-9 * (1 + std::fabs(w[i][j])));
	}
}
CHECK(n_rk, 600)
{
	size_t m = h.sz(4);
	V y0;
	F1 f;
	for (size_t j = 0; j < m; ++j) { y0.push_back(h.d()); f.a.push_back(h.d()); f.b.push_back(h.d()); f.c.push_back(h.d() / 4); }
	if (m && h.b()) rk(h, F2(), y0); else rk(h, f, y0);
}
struct Poly { // increasing or decreasing, one root
	typedef double RealType;
	double r, s, e;
	double operator()(const double& x) const { return s * ((x - r) + e * (x - r) * (x - r) * (x - r)); }
};
CHECK(n_root, 1500)
{
	Poly f { h.d(40) / 4, h.b() ? 1.0 : -2.0, h.u(0, 2) / 4.0 };
	double a = h.d(60) / 4, b = a + double(h.u(1, 120)) / 4, tol = std::ldexp(1.0, -int(h.u(1, 20)));
	size_t it = h.u(0, 3) ? 200 : h.u(0, 6);
	In()("root", f.r)("slope", f.s)("cubic", f.e)("a", a)("b", b)("tolerance", tol)("iterations", it);
	double got = 0;
	bool thrown = throws([&] { RootFindingBisection<Poly> q(f, a, b, it, tol); got = q(); });
	if (f(a) * f(b) >= 0) { ok("no change of sign is refused", thrown); return; }
	// midpoints of the halved brackets
	double lo = a, hi = b, want = 0;
	bool found = false;
	for (size_t k = 0; k < it && !found; ++k) {
		want = (lo + hi) / 2;
		if (std::fabs(f(want)) < tol) found = true;
		else if ((f(want) >= 0) == (f(lo) >= 0)) lo = want;
		else hi = want;
	}
	eq("gives up only when the iterations are used up", thrown, !found);
	if (thrown) return;
	ok("function below the tolerance", std::fabs(f(got)) < tol);
	ok("between the ends", got > a && got < b);
	near("midpoint of a bracket", got, want, 1e-12);
}
CHECK(n_cheb, 400)
{
	int m = int(h.u(0, 40));
	double x = h.d(16) / 16;
	In()("order", m)("x", x);
	double a = 1, b = x;
	for (int k = 0; k < m; ++k) { double c = 2 * x * b - a; a = b; b = c; }
	near("polynomial", ChebyshevFunction<double>()(m, x), a, 1e-9);
	near("explicit polynomial", ChebyshevFunctionExplicit<double>()(m, x), a, 1e-9);
}
CHECK(n_lp, 300)
{
	size_t n = 1 + h.sz(6), p = h.u(1, n), more = h.u(0, 5);
	V y;
	for (size_t k = 0; k < 2 * n; ++k) y.push_back(h.d(9));
	In()("y", y)("p", p)("predictions", more);
	V odd(y);
	odd.push_back(1);
	ok("an odd number of points is refused", throws([&] { LinearPrediction<double> l(odd, p); }));
	if (h.b()) {
		ok("more coefficients than half the points are refused", throws([&] { LinearPrediction<double> l(y, n + h.u(1, 3)); }));
	}
	// determinant of the normal matrix, to keep away from singular systems
	std::vector<V> A(p, V(p));
	V B(p);
	for (size_t l = 0; l < p; ++l)
		for (size_t i = n; i < 2 * n; ++i) {
			for (size_t j = 0; j < p; ++j) A[l][j] += y[i - l - 1] * y[i - j - 1];
			B[l] += y[i - l - 1] * y[i];
		}
	std::vector<V> M(A);
	double det = 1, scale = 1;
	for (size_t k = 0; k < p; ++k) {
		size_t q = k;
		for (size_t r = k; r < p; ++r) if (std::fabs(M[r][k]) > std::fabs(M[q][k])) q = r;
		std::swap(M[q], M[k]);
		det *= M[k][k];
		scale *= 1 + A[k][k];
		if (M[k][k] == 0) break;
		for (size_t r = k + 1; r < p; ++r) { double f = M[r][k] / M[k][k]; for (size_t c = k; c < p; ++c) M[r][c] -= f * M[k][c]; }
	}
	if (std::fabs(det) < 1e-3 * scale) return;
	LinearPrediction<double> l(y, p);
	eq("coefficients", l.d_.size(), p);
	for (size_t r = 0; r < p; ++r) {
		double t = 0;
		for (size_t j = 0; j < p; ++j) t += A[r][j] * l.d_[j];
		ok("normal equation " + std::to_string(r), std::fabs(t - B[r]) < 1e-6 * (1 + std::fabs(B[r])));
	}
	l.predict(more);
	eq("number of values", l.y_.size(), 2 * n + more);
	for (size_t k = 0; k < 2 * n; ++k) eq("known value", l(k), y[k]);
	for (size_t k = 2 * n; k < 2 * n + more; ++k) {
		double t = 0;
		for (size_t j = 0; j < p; ++j) t += l.d_[j] * l(k - j - 1);
		ok("predicted value " + std::to_string(k), std::fabs(t - l(k)) <= 1e-9 * (1 + std::fabs(t)));
	}
	V d(l.d_);
	l.linearPredictionfunction(y, p);
	for (size_t j = 0; j < p; ++j) ok("fitted again", std::fabs(d[j] - l.d_[j]) <= 1e-9 * (1 + std::fabs(d[j])));
}
