#include "Matrix.h"
#include "MatrixNonOwned.h"
namespace vroot {
using namespace PsimagLite;
typedef std::vector<double> V;
typedef std::complex<double> Z;
typedef std::vector<Z> VZ;
typedef Matrix<double> M;
typedef Matrix<Z> MZ;
#define ALL(S, T, MM, VV) \
	T m_get##S(const MM& a, SizeType i, SizeType j) { return a(i, j); } \
	void m_set##S(MM& a, SizeType i, SizeType j, T x) { a(i, j) = x; } \
	MM m_ctor##S(SizeType r, SizeType c) { return MM(r, c); } \
	MM m_ctorval##S(SizeType r, SizeType c, T x) { return MM(r, c, x); } \
	MM m_ctordata##S(const VV& d, SizeType r, SizeType c) { return MM(d, r, c); } \
	void m_resize##S(MM& a, SizeType r, SizeType c) { a.resize(r, c); } \
	void m_resizeval##S(MM& a, SizeType r, SizeType c, T x) { a.resize(r, c, x); } \
	void m_clear##S(MM& a) { a.clear(); } \
	void m_setTo##S(MM& a, T x) { a.setTo(x); } \
	void m_setToIdentity##S(MM& a) { a.setToIdentity(); } \
	void m_swap##S(MM& a, MM& b) { a.swap(b); } \
	bool m_eq##S(const MM& a, const MM& b) { return a == b; } \
	SizeType m_nonZeros##S(const MM& a) { return a.nonZeros(); } \
	void m_pe##S(MM& v, const MM& x) { v += x; } \
	void m_me##S(MM& v, const MM& x) { v -= x; } \
	void m_se##S(MM& v, T a) { v *= a; } \
	void m_pea##S(MM& v, T a, const MM& x) { v += a * x; } \
	void m_peb##S(MM& v, T a, const MM& x) { v += x * a; } \
	void m_mult##S(MM& v, T a, const MM& x) { v = a * x; } \
	void m_multr##S(MM& v, T a, const MM& x) { v = x * a; } \
	void m_plus##S(MM& v, const MM& x, const MM& y) { v = x + y; } \
	void m_minus##S(MM& v, const MM& x, const MM& y) { v = x - y; } \
	void m_aplus##S(MM& v, T a, const MM& x, const MM& y) { v = a * (x + y); } \
	void m_aminus##S(MM& v, T a, const MM& x, const MM& y) { v = a * (x - y); } \
	void m_axpy##S(MM& v, const MM& x, T a, const MM& y) { v = x + a * y; } \
	void m_axpyr##S(MM& v, T a, const MM& x, const MM& y) { v = a * x + y; } \
	void m_mm##S(MM& v, const MM& x, const MM& y) { v = x * y; } \
	MM m_mmctor##S(const MM& x, const MM& y) { return MM(x * y); } \
	void m_amm##S(MM& v, T a, const MM& x, const MM& y) { v = a * x * y; } \
	void m_selfmm##S(MM& v, const MM& y) { v = v * y; } \
	void m_mv##S(VV& v, const MM& x, const VV& y) { v <= x * y; } \
	void m_vm##S(VV& v, const VV& x, const MM& y) { v <= x * y; } \
	MM m_mtc##S(const MM& x, const MM& y) { return multiplyTransposeConjugate(x, y); } \
	MM m_mtn##S(const MM& x, const MM& y) { return multiplyTransposeConjugate(x, y, 'N'); } \
	void m_tc##S(MM& v, const MM& x) { transposeConjugate(v, x); } \
	void m_t##S(MM& v, const MM& x) { transpose(v, x); } \
	MM m_tcr##S(const MM& x) { return transposeConjugate(x); } \
	void m_outer##S(MM& v, const MM& x, const MM& y) { outerProduct(v, x, y); } \
	bool m_isHermitian##S(const MM& a) { return isHermitian(a); } \
	bool m_isAntiHermitian##S(const MM& a) { return isAntiHermitian(a); } \
	bool m_isTheIdentity##S(const MM& a) { return isTheIdentity(a); } \
	bool m_isZero##S(const MM& a) { return isZero(a); } \
	double m_norm2##S(const MM& a) { return norm2(a); } \
	T m_view##S(VV& d, SizeType r, SizeType c, SizeType off, SizeType i, SizeType j, T x) { MatrixNonOwned<T> w(r, c, d, off); w(i, j) = x; return w(i, j); } \
	T m_viewc##S(const MM& m, SizeType i, SizeType j) { MatrixNonOwned<const T> w(m); return w(i, j); }
ALL(, double, M, V)
ALL(_z, Z, MZ, VZ)
void m_conjugate_z(MZ& a) { a.conjugate(); }
MZ m_convert(const M& a) { return MZ(a); }
}
