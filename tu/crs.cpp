#include "CrsMatrix.h"
namespace vroot {
using namespace PsimagLite;
typedef CrsMatrix<double> M;
typedef std::vector<double> V;
void crs_checkValidity(const M& a) { a.checkValidity(); }
void crs_makeDiagonal(M& a, SizeType n, double v) { a.makeDiagonal(n, v); }
void crs_resize(M& a, SizeType n, SizeType m) { a.resize(n, m); }
void crs_matrixVectorProduct(const M& a, V& x, const V& y) { a.matrixVectorProduct(x, y); }
void crs_multiplyVec(V& x, const M& a, const V& y) { multiply(x, a, y); }
void crs_operatorPlus(M& A, const M& B, double b1, const M& C, double c1) { operatorPlus(A, B, b1, C, c1); }
void crs_transposeConjugate(M& B, const M& A) { transposeConjugate(B, A); }
void crs_multiply(M& C, const M& A, const M& B) { multiply(C, A, B); }
void crs_fromBlockToFull(M& Bfull, const M& B, SizeType offset) { fromBlockToFull(Bfull, B, offset); }
void crs_swap(M& a, M& b) { a.swap(b); }
void crs_scale(M& a, double x) { a *= x; }
}
#include <complex>
namespace vroot {
typedef std::complex<double> Z;
typedef CrsMatrix<Z> MZ;
typedef std::vector<Z> VZ;
void crsz_transposeConjugate(MZ& B, const MZ& A) { transposeConjugate(B, A); }
void crsz_multiply(MZ& C, const MZ& A, const MZ& B) { multiply(C, A, B); }
void crsz_matrixVectorProduct(const MZ& a, VZ& x, const VZ& y) { a.matrixVectorProduct(x, y); }
void crsz_multiplyVec(VZ& x, const MZ& a, const VZ& y) { multiply(x, a, y); }
}
namespace vroot {
typedef Matrix<double> F;
typedef Matrix<Z> FZ;
void crs_conjugate(M& a) { a.conjugate(); }
void crsz_conjugate(MZ& a) { a.conjugate(); }
void crs_toFull(F& m, const M& a) { crsMatrixToFullMatrix(m, a); }
void crsz_toFull(FZ& m, const MZ& a) { crsMatrixToFullMatrix(m, a); }
F crs_toDense(const M& a) { return a.toDense(); }
M crs_ctorDense(const F& a) { return M(a); }
MZ crsz_ctorDense(const FZ& a) { return MZ(a); }
void crs_fromFull(M& m, const F& a) { fullMatrixToCrsMatrix(m, a); }
void crsz_fromFull(MZ& m, const FZ& a) { fullMatrixToCrsMatrix(m, a); }
bool crs_isDiagonal(const M& a, double eps) { return isDiagonal(a, eps); }
bool crs_isTheIdentity(const M& a, double eps) { return isTheIdentity(a, eps); }
bool crs_isZero(const M& a, double eps) { return isZero(a, eps); }
bool crsz_isDiagonal(const MZ& a, double eps) { return isDiagonal(a, eps); }
bool crsz_isTheIdentity(const MZ& a, double eps) { return isTheIdentity(a, eps); }
bool crsz_isZero(const MZ& a, double eps) { return isZero(a, eps); }
bool crs_isHermitian(const M& a) { return isHermitian(a); }
bool crsz_isHermitian(const MZ& a) { return isHermitian(a); }
bool crs_isAntiHermitian(const M& a) { return isAntiHermitian(a); }
double crs_norm2(const M& a) { return norm2(a); }
bool crs_eq(const M& a, const M& b) { return a == b; }
M crs_triplet(SizeType n, const std::vector<SizeType>& rows, const std::vector<SizeType>& cols, const V& vals) { return M(n, rows, cols, vals); }
void crs_clear(M& a) { a.clear(); }
void crs_setRow(M& a, SizeType n, SizeType v) { a.setRow(n, v); }
void crs_resize3(M& a, SizeType n, SizeType m, SizeType k) { a.resize(n, m, k); }
SizeType crs_nonZeros(const M& a) { return a.nonZeros(); }
void crs_pluseq(M& a, const M& m) { a += m; }
void crs_pluseqx(M& a, double x, const M& m) { a += x * m; }
void crs_assignx(M& a, double x, const M& m) { a = x * m; }
M crs_ctorx(double x, const M& m) { M r = x * m; return r; }
void crsz_scale(MZ& a, Z x) { a *= x; }
void crsz_assignx(MZ& a, Z x, const MZ& m) { a = x * m; }
void crsz_operatorPlus(MZ& A, const MZ& B, Z b1, const MZ& C, Z c1) { operatorPlus(A, B, b1, C, c1); }
void crsz_pluseqx(MZ& a, Z x, const MZ& m) { a += x * m; }
M crs_mulctor(const M& a, const M& b) { M r = a * b; return r; }
void crs_sum(M& A, const std::vector<const M*>& Bs, const V& b) { sum(A, Bs, b); }
void crsz_fromBlockToFull(MZ& Bfull, const MZ& B, SizeType offset) { fromBlockToFull(Bfull, B, offset); }
F crs_multiplyTc(const M& a, const M& b) { return multiplyTc(a, b); }
void crs_extid(M& B, const M& A, SizeType n, const V& signs, bool order, const std::vector<SizeType>& perm) { externalProduct(B, A, n, signs, order, perm); }
void crs_ext(M& C, const M& A, const M& B, const V& signs, bool order, const std::vector<SizeType>& perm) { externalProduct(C, A, B, signs, order, perm); }
}
