#include "Vector.h"
#include "CrsMatrix.h"
namespace PsimagLite { // the header leaves this one to its user
inline bool isAlmostZero(double x, double eps) { return x < eps && -x < eps; }
}
#include "SparseVector.h"
#include "SparseRow.h"
#include "SparseRowCached.h"
namespace vroot {
using namespace PsimagLite;
typedef std::vector<double> V;
typedef SparseVector<double> S;
typedef CrsMatrix<double> M;
struct Parts {
	std::vector<SizeType> v;
	SizeType partition() const { return v.size(); }
	SizeType partition(SizeType i) const { return v[i]; }
};
SizeType sv_findPartition(const S& s, const Parts& p) { return s.findPartition(p); }
SizeType sv_toChunkPart(const S& s, V& dest, const Parts& p) { return s.toChunk(dest, p); }
void sv_dense(S& s, const V& x) { s = S(x); }
void sv_fromChunk(S& s, const V& x, SizeType offset, SizeType total) { s.fromChunk(x, offset, total); }
void sv_toChunk(const S& s, V& dest, SizeType i0, SizeType total) { s.toChunk(dest, i0, total); }
void sv_toChunkTest(const S& s, V& dest, SizeType i0, SizeType total) { s.toChunk(dest, i0, total, true); }
SizeType sv_add(S& s, int index, double value) { return s.add(index, value); }
void sv_clear(S& s) { s.clear(); }
void sv_resize(S& s, SizeType n) { s.resize(n); }
void sv_scale(S& s, double a) { s *= a; }
void sv_times(S& r, double a, const S& s) { r = a * s; }
void sv_minus(S& s, const S& t) { s -= t; }
double sv_scalar(const S& s, const S& t) { return s.scalarProduct(t); }
double sv_dot(const S& s, const S& t) { return s * t; }
std::complex<double> sv_scalar_z(const SparseVector<std::complex<double> >& s, const SparseVector<std::complex<double> >& t) { return s.scalarProduct(t); }
bool sv_equal(const S& s, const S& t) { return s == t; }
void sv_sort(S& s) { s.sort(); }
double sr_mvp(const SparseRow<M>& r, const V& y) { return r.matrixVectorProduct(y); }
double sr_finalizeVec(SparseRow<M>& r, const V& y) { return r.finalize(y); }
void sr_add(SparseRow<M>& r, SizeType c, double v) { r.add(c, v); }
SizeType sr_finalize(SparseRow<M>& r, M& m) { return r.finalize(m); }
double src_mvp(SparseRowCached<M>& r, const V& y) { return r.matrixVectorProduct(y); }
void src_add(SparseRowCached<M>& r, SizeType c, double v) { r.add(c, v); }
SizeType src_finalize(SparseRowCached<M>& r, M& m) { return r.finalize(m); }
}
