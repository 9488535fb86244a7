#include "Vector.h"
namespace vroot {
using namespace PsimagLite;
typedef std::vector<double> V;
typedef std::complex<double> Z;
typedef std::vector<Z> VZ;
#define ALL(S, T, W) \
	void v_mult##S(W& v, T a, const W& x) { v <= a * x; } \
	void v_multr##S(W& v, T a, const W& x) { v <= x * a; } \
	void v_mult2##S(W& v, T a, T b, const W& x) { v <= a * (b * x); } \
	void v_plus##S(W& v, const W& x, const W& y) { v <= x + y; } \
	void v_axpy##S(W& v, const W& x, T a, const W& y) { v <= x + a * y; } \
	void v_axpyr##S(W& v, T a, const W& x, const W& y) { v <= a * x + y; } \
	void v_four##S(W& v, T a, const W& x, T b, const W& y, T c, const W& z, T d, const W& w) { v <= a * x + b * y + c * z + d * w; } \
	void v_minus##S(W& v, const W& x, const W& y) { v <= x - y; } \
	void v_axmy##S(W& v, const W& x, T a, const W& y) { v <= x - a * y; } \
	void v_three##S(W& v, const W& x, T b, const W& y, T c, const W& z) { v <= x - b * y + c * z; } \
	void v_pe##S(W& v, const W& x) { v += x; } \
	void v_pea##S(W& v, T a, const W& x) { v += a * x; } \
	void v_me##S(W& v, const W& x) { v -= x; } \
	void v_mea##S(W& v, T a, const W& x) { v -= a * x; } \
	void v_scale##S(W& v, T a) { v *= a; } \
	void v_div##S(W& v, T a) { v /= a; } \
	T v_sp##S(const W& x, const W& y) { return scalarProduct(x, y); } \
	T v_dot##S(const W& x, const W& y) { return x * y; } \
	T v_sum##S(W& x) { return sum(x); }
ALL(, double, V)
ALL(_z, Z, VZ)
void v_aplus(V& v, double a, const V& x, const V& y) { v <= a * (x + y); }
void v_aminus(V& v, double a, const V& x, const V& y) { v <= a * (x - y); }
void v_selfplus(V& v, const V& y) { v <= v + y; }
void v_selfminus(V& v, const V& y) { v <= y - v; }
void v_selfaxpy(V& v, double a, const V& y) { v <= v + a * y; }
void v_selfmult(V& v, double a) { v <= a * v; }
double v_norm(const V& x) { return norm(x); }
int v_index(const std::vector<SizeType>& b, SizeType v) { return indexOrMinusOne(b, v); }
V v_matvec(const std::vector<V>& m, const V& x) { return m * x; }
}
