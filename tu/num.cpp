#include "Vector.h"
#include "Matrix.h"
#include "RungeKutta.h"
#include "RootFindingBisection.h"
#include "ChebyshevFunction.h"
#include "ChebyshevFunctionExplicit.h"
#include "LinearPrediction.h"
using namespace PsimagLite;
#include "AkimaSpline.h"
namespace vroot {
typedef std::vector<double> V;
typedef AkimaSpline<V> Akima;
Akima n_akima(const V& x, const V& s) { return Akima(x, s); }
double n_interpolate(const Akima& a, const double& x) { return a(x); }
std::pair<double, double> n_interval(const Akima& a) { return a.getInterval(); }
// any right-hand side: its contract says nothing but that component j is some function of j, the time and component j
struct Rhs {
	V operator()(const double& t, const V& y) const;
};
typedef RungeKutta<double, Rhs, V> Rk;
void n_rk(const Rhs& f, const double& h, std::vector<V>& result, double t0, SizeType N, const V& y0) { Rk(f, h).solve(result, t0, N, y0); }
void n_rkEx(const Rhs& f, const double& h, std::vector<V>& result, double t0, double t, const V& y0) { Rk(f, h).solveEx(result, t0, t, y0); }
// any function
struct Fn {
	typedef double RealType;
	double operator()(const double& x) const;
};
double n_root(const Fn& f, double a, double b, SizeType maxIter, double tol) { RootFindingBisection<Fn> r(f, a, b, maxIter, tol); return r(); }
double n_cheb(int m, const double& x) { ChebyshevFunction<double> f; return f(m, x); }
double n_chebExplicit(int m, const double& x) { ChebyshevFunctionExplicit<double> f; return f(m, x); }
typedef LinearPrediction<double> Lp;
void n_predict(Lp& l, SizeType p) { l.predict(p); }
double n_lpAt(const Lp& l, SizeType i) { return l(i); }
void n_lpFit(Lp& l, const V& y, SizeType p) { l.linearPredictionfunction(y, p); }
}
