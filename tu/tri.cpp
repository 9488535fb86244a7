#include "Matrix.h"
#include "TridiagonalMatrix.h"
#include "ContinuedFraction.h"
#include "ContinuedFractionCollection.h"
namespace vroot {
using namespace PsimagLite;
typedef std::complex<double> Z;
typedef Matrix<double> M;
typedef TridiagonalMatrix<double> TM;
typedef ContinuedFraction<TM> CF;
typedef ContinuedFractionCollection<CF> CFC;
typedef std::vector<double> V;
typedef std::vector<std::pair<double, Z>> PD;
typedef PlotParams<double> PP;
void t_build(const TM& t, M& m) { t.buildDenseMatrix(m); }
void t_buildn(const TM& t, M& m, SizeType n) { t.buildDenseMatrix(m, n); }
void t_resize(TM& t, SizeType n) { t.resize(n); }
void t_resizeval(TM& t, SizeType n, double x) { t.resize(n, x); }
void t_push(TM& t, double a, double b) { t.push(a, b); }
double t_a(const TM& t, SizeType i) { return t.a(i); }
double t_b(const TM& t, SizeType i) { return t.b(i); }
void t_seta(TM& t, SizeType i, double x) { t.a(i) = x; }
void t_setb(TM& t, SizeType i, double x) { t.b(i) = x; }
SizeType t_size(const TM& t) { return t.size(); }
Z f_value(const CF& f, const Z& z, double offset, int isign) { return f.iOfOmega(z, offset, isign); }
void f_plot(const CF& f, PD& r, const PP& p) { f.plot(r, p); }
void f_plotReal(const CF& f, PD& r, const PP& p) { f.plotReal(r, p); }
void f_plotMats(const CF& f, PD& r, const PP& p) { f.plotMatsubara(r, p); }
void f_set(CF& f, const TM& t, double Eg, double w, int isign) { f.set(t, Eg, w, isign); }
SizeType f_size(const CF& f) { return f.size(); }
void c_push(CFC& c, const CF& f) { c.push(f); }
void c_one(const CFC& c, SizeType i, PD& r, const PP& p) { c.plotOne(i, r, p); }
void c_plot(const CFC& c, PD& r, const PP& p) { c.plot(r, p); }
SizeType c_size(const CFC& c) { return c.size(); }
}
namespace vroot {
Z f_full(const TM& t, double Eg, double w, int isign, const Z& z) { CF f; f.set(t, Eg, w, isign); return f.iOfOmega(z, Eg, isign); }
Z f_fullctor(const TM& t, const ParametersForSolver<double>& q, const Z& z, double offset, int isign) { CF f(t, q); return f.iOfOmega(z, offset, isign); }
}
namespace vroot {
void c_acc(const CFC& c, PD& r, const PD& x) { c.accumulate(r, x); }
}
