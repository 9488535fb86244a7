// bounded checks of CrsMatrix.h against a dense oracle
#include "CrsMatrix.h"
#include "h.h"
using namespace PsimagLite;
using namespace vh;
typedef std::vector<SizeType> VS;
typedef std::vector<double> VD;
template <class T> struct D { // dense oracle
	SizeType n, m;
	std::vector<T> a;
	D(SizeType n_ = 0, SizeType m_ = 0) : n(n_), m(m_), a(n_ * m_, T(0)) { }
	T& operator()(SizeType i, SizeType j) { return a[i * m + j]; }
	T operator()(SizeType i, SizeType j) const { return (i < n && j < m) ? a[i * m + j] : T(0); }
};
template <class T> std::ostream& operator<<(std::ostream& o, const D<T>& d)
{
	o << d.n << "x" << d.m << "{";
	for (SizeType i = 0; i < d.n; ++i) { for (SizeType j = 0; j < d.m; ++j) o << (j ? "," : (i ? ";" : "")) << d(i, j); }
	return o << "}";
}
// random CRS: entries may be stored zeros, columns in random order, no repeats
template <class T> CrsMatrix<T> make(G& h, D<T>& d, SizeType n, SizeType m, bool sorted = false)
{
	d = D<T>(n, m);
	CrsMatrix<T> A;
	A.resize(n, m);
	int c = 0;
	unsigned dens = h.u(0, 4);
	for (SizeType i = 0; i < n; ++i) {
		A.setRow(i, c);
		VS p = h.perm(m);
		if (sorted) for (SizeType k = 0; k < m; ++k) p[k] = k;
		unsigned dd = h.u(0, 3) == 0 ? 0 : dens;
		for (SizeType k = 0; k < m; ++k) {
			if (h.u(0, 3) >= dd) continue;
			T v = Gen<T>::g(h);
			A.pushCol(p[k]);
			A.pushValue(v);
			d(i, p[k]) = v;
			++c;
		}
	}
	A.setRow(n, c);
	return A;
}
template <class T> D<T> read(const CrsMatrix<T>& A)
{
	SizeType n = A.rows(), m = A.cols();
	D<T> d(n, m);
	std::vector<char> seen(m);
	eq("getRowPtr(0)", A.getRowPtr(0), 0);
	for (SizeType i = 0; i < n; ++i) {
		ok("row pointers monotone", A.getRowPtr(i) <= A.getRowPtr(i + 1));
		seen.assign(m, 0);
		for (int k = A.getRowPtr(i); k < A.getRowPtr(i + 1); ++k) {
			int c = A.getCol(k);
			ok("column index in range", c >= 0 && SizeType(c) < m);
			ok("no repeated column in a row", !seen[c]);
			seen[c] = 1;
			d(i, c) += A.getValue(k);
		}
	}
	eq("number of column indices", SizeType(A.nonZero()), SizeType(A.getRowPtr(n)));
	if (n) eq("nonZeros", A.nonZeros(), SizeType(A.getRowPtr(n)));
	return d;
}
template <class T> void same(const std::string& w, const CrsMatrix<T>& A, const D<T>& d)
{
	eq(w + ": rows", A.rows(), d.n);
	eq(w + ": cols", A.cols(), d.m);
	D<T> g = read(A);
	for (SizeType i = 0; i < d.n; ++i)
		for (SizeType j = 0; j < d.m; ++j) {
			if (g(i, j) == d(i, j)) continue;
			std::ostringstream o;
			o << w << ": entry (" << i << "," << j << ")";
			eq(o.str(), g(i, j), d(i, j));
		}
}
template <class T> D<T> lin(const D<T>& b, T x, const D<T>& c, T y)
{
	D<T> r(std::max(b.n, c.n), std::max(b.m, c.m));
	for (SizeType i = 0; i < r.n; ++i) for (SizeType j = 0; j < r.m; ++j) r(i, j) = b(i, j) * x + c(i, j) * y;
	return r;
}
template <class T> D<T> mul(const D<T>& b, const D<T>& c)
{
	D<T> r(b.n, c.m);
	for (SizeType i = 0; i < b.n; ++i) for (SizeType j = 0; j < c.m; ++j) { T s = 0; for (SizeType k = 0; k < b.m; ++k) s += b(i, k) * c(k, j); r(i, j) = s; }
	return r;
}
template <class T> D<T> tc(const D<T>& b)
{
	D<T> r(b.m, b.n);
	for (SizeType i = 0; i < b.n; ++i) for (SizeType j = 0; j < b.m; ++j) r(j, i) = PsimagLite::conj(b(i, j));
	return r;
}
static SizeType sz1(G& h, SizeType k = 6) { return 1 + h.sz(k - 1); }
// ---------------------------------------------------------------- P01
template <class T> void plus(G& h)
{
	D<T> b, c;
	CrsMatrix<T> B = make<T>(h, b, sz1(h), sz1(h)), C = make<T>(h, c, sz1(h), sz1(h)), A;
	if (h.b()) { D<T> x; A = make<T>(h, x, sz1(h), sz1(h)); }
	T x = Gen<T>::g(h), y = Gen<T>::g(h);
	In()("B", b)("C", c)("b1", x)("c1", y);
	operatorPlus(A, B, x, C, y);
	same("operatorPlus", A, lin(b, x, c, y));
	same("operatorPlus leaves B alone", B, b);
	same("operatorPlus leaves C alone", C, c);
}
CHECK(crs_operatorPlus, 2000) { plus<double>(h); plus<Z>(h); }
template <class T> void pluseq(G& h)
{
	D<T> b, c;
	SizeType n = sz1(h), m = sz1(h);
	CrsMatrix<T> B = make<T>(h, b, n, n), C = make<T>(h, c, m, m);
	T x = Gen<T>::g(h);
	In()("B", b)("C", c)("x", x);
	CrsMatrix<T> A = B;
	A += C;
	same("A += C", A, lin<T>(b, 1, c, 1));
	A = B;
	A += x * C;
	same("A += x*C", A, lin<T>(b, 1, c, x));
	CrsMatrix<T> E;
	E = x * B;
	same("E = x*B", E, lin<T>(b, x, D<T>(), 0));
	CrsMatrix<T> E2(x * B);
	same("E(x*B)", E2, lin<T>(b, x, D<T>(), 0));
	E = B;
	E *= x;
	same("E *= x", E, lin<T>(b, x, D<T>(), 0));
	D<T> c2;
	CrsMatrix<T> C2 = make<T>(h, c2, n, n);
	A = B;
	In()("B", b)("C2", c2)("x", x);
	A += x * B * C2;
	same("A += x*B*C", A, lin<T>(b, 1, mul(b, c2), x));
}
CHECK(crs_pluseq, 1500) { pluseq<double>(h); pluseq<Z>(h); }
template <class T> void sumN(G& h)
{
	SizeType k = sz1(h, 4);
	std::vector<D<T>> ds(k);
	std::vector<CrsMatrix<T>> ms(k);
	std::vector<const CrsMatrix<T>*> ps;
	std::vector<T> w;
	In in;
	D<T> want;
	for (SizeType i = 0; i < k; ++i) {
		ms[i] = make<T>(h, ds[i], sz1(h), sz1(h));
		w.push_back(Gen<T>::g(h));
		in("M", ds[i]);
	}
	in("w", w);
	for (SizeType i = 0; i < k; ++i) { ps.push_back(&ms[i]); want = lin<T>(want, 1, ds[i], w[i]); }
	CrsMatrix<T> A;
	sum(A, ps, w);
	same("sum", A, want);
}
CHECK(crs_sum, 1500) { sumN<double>(h); sumN<Z>(h); }
// ---------------------------------------------------------------- P02
template <class T> void mm(G& h)
{
	D<T> a, b;
	SizeType k = sz1(h);
	CrsMatrix<T> A = make<T>(h, a, sz1(h), k), B = make<T>(h, b, k, sz1(h)), C;
	In()("A", a)("B", b);
	if (h.b()) { D<T> x; C = make<T>(h, x, sz1(h), sz1(h)); }
	multiply(C, A, B);
	same("multiply(C,A,B)", C, mul(a, b));
	CrsMatrix<T> E(A * B);
	same("E(A*B)", E, mul(a, b));
	D<T> b2;
	CrsMatrix<T> B2 = make<T>(h, b2, sz1(h), k);
	In()("A", a)("B2", b2);
	Matrix<T> M = multiplyTc(A, B2);
	D<T> w = mul(a, tc(b2));
	eq("multiplyTc rows", M.rows(), w.n);
	eq("multiplyTc cols", M.cols(), w.m);
	for (SizeType i = 0; i < w.n; ++i) for (SizeType j = 0; j < w.m; ++j) eq("multiplyTc", M(i, j), w(i, j));
}
CHECK(crs_multiply, 1500) { mm<double>(h); mm<Z>(h); }
template <class T> void mv(G& h)
{
	D<T> a;
	SizeType n = sz1(h), m = sz1(h);
	CrsMatrix<T> A = make<T>(h, a, n, m);
	std::vector<T> y(m), x(h.sz(5));
	for (auto& v : y) v = Gen<T>::g(h);
	for (auto& v : x) v = Gen<T>::g(h);
	In()("A", a)("y", y);
	multiply(x, A, y);
	eq("multiply(v2,m,v1) size", x.size(), n);
	for (SizeType i = 0; i < n; ++i) { T s = 0; for (SizeType j = 0; j < m; ++j) s += a(i, j) * y[j]; eq("multiply(v2,m,v1)", x[i], s); }
}
CHECK(crs_multiplyVec, 1500) { mv<double>(h); mv<Z>(h); }
template <class T> void mvp(G& h)
{
	D<T> a;
	SizeType n = sz1(h);
	CrsMatrix<T> A = make<T>(h, a, n, n);
	std::vector<T> y(n), x(n), x0;
	for (auto& v : y) v = Gen<T>::g(h);
	for (auto& v : x) v = Gen<T>::g(h);
	x0 = x;
	In()("A", a)("x", x)("y", y);
	A.matrixVectorProduct(x, y);
	for (SizeType i = 0; i < n; ++i) { T s = x0[i]; for (SizeType j = 0; j < n; ++j) s += a(i, j) * y[j]; eq("matrixVectorProduct", x[i], s); }
}
CHECK(crs_matrixVectorProduct, 1500) { mvp<double>(h); mvp<Z>(h); }
// ---------------------------------------------------------------- P03
template <class T> void tcc(G& h)
{
	D<T> a;
	CrsMatrix<T> A = make<T>(h, a, sz1(h), sz1(h)), B;
	if (h.b()) { D<T> x; B = make<T>(h, x, sz1(h), sz1(h)); }
	In()("A", a);
	transposeConjugate(B, A);
	same("transposeConjugate", B, tc(a));
	CrsMatrix<T> C = A;
	C.conjugate();
	D<T> cc = a;
	for (auto& v : cc.a) v = PsimagLite::conj(v);
	same("conjugate", C, cc);
}
CHECK(crs_transposeConjugate, 1500) { tcc<double>(h); tcc<Z>(h); }
template <class T> void dense(G& h)
{
	D<T> a, b;
	CrsMatrix<T> A = make<T>(h, a, sz1(h), sz1(h));
	In()("A", a);
	Matrix<T> m;
	crsMatrixToFullMatrix(m, A);
	auto cmp = [&](const std::string& w, const Matrix<T>& m2, const D<T>& d) {
		eq(w + " rows", m2.rows(), d.n);
		eq(w + " cols", m2.cols(), d.m);
		for (SizeType i = 0; i < d.n; ++i) for (SizeType j = 0; j < d.m; ++j) eq(w, m2(i, j), d(i, j));
	};
	cmp("crsMatrixToFullMatrix", m, a);
	cmp("toDense", A.toDense(), a);
	CrsMatrix<T> B(m);
	same("CrsMatrix(Matrix)", B, a);
	CrsMatrix<T> C;
	fullMatrixToCrsMatrix(C, m);
	same("fullMatrixToCrsMatrix", C, a);
	SizeType nz = 0;
	for (auto& v : a.a) if (v != T(0)) ++nz;
	eq("no stored zeros (ctor)", SizeType(B.nonZero()), nz);
	eq("no stored zeros (function)", SizeType(C.nonZero()), nz);
}
CHECK(crs_dense, 1500) { dense<double>(h); dense<Z>(h); }
// the target already holds another matrix of the same or another shape
template <class T> void denseReuse(G& h)
{
	D<T> a, b;
	SizeType n = sz1(h, 4), m = sz1(h, 4);
	CrsMatrix<T> A = make<T>(h, a, n, m);
	Matrix<T> t(h.b() ? n : sz1(h, 4), h.b() ? m : sz1(h, 4));
	for (SizeType i = 0; i < t.rows(); ++i) for (SizeType j = 0; j < t.cols(); ++j) t(i, j) = Gen<T>::g(h);
	In in;
	in("A", a)("old target rows", t.rows())("old target cols", t.cols());
	crsMatrixToFullMatrix(t, A);
	for (SizeType i = 0; i < n; ++i) for (SizeType j = 0; j < m; ++j) eq("crsMatrixToFullMatrix into a used matrix", t(i, j), a(i, j));
}
CHECK(crs_denseReuse, 1000) { denseReuse<double>(h); denseReuse<Z>(h); }
CHECK(crs_makeDiagonal, 300)
{
	SizeType n = sz1(h);
	double v = h.d();
	In()("n", n)("v", v);
	D<double> x, w(n, n);
	CrsMatrix<double> A = make<double>(h, x, sz1(h), sz1(h));
	A.makeDiagonal(n, v);
	for (SizeType i = 0; i < n; ++i) w(i, i) = v;
	same("makeDiagonal", A, w);
}
CHECK(crs_checkValidity, 300) { D<double> a; CrsMatrix<double> A = make<double>(h, a, sz1(h), sz1(h)); In()("A", a); A.checkValidity(); }
CHECK(crs_fromBlockToFull, 600)
{
	D<double> b;
	SizeType n = sz1(h), off = h.sz(4), nf = n + off + h.sz(3);
	CrsMatrix<double> B = make<double>(h, b, n, n), F;
	In()("B", b)("offset", off)("full", nf);
	F.makeDiagonal(nf, 3);
	fromBlockToFull(F, B, off);
	D<double> w(nf, nf);
	for (SizeType i = 0; i < n; ++i) for (SizeType j = 0; j < n; ++j) w(i + off, j + off) = b(i, j);
	same("fromBlockToFull", F, w);
}
CHECK(crs_swap, 300)
{
	D<double> a, b;
	CrsMatrix<double> A = make<double>(h, a, sz1(h), sz1(h)), B = make<double>(h, b, sz1(h), sz1(h));
	In()("A", a)("B", b);
	A.swap(B);
	same("swap", A, b);
	same("swap", B, a);
	eq("A==A", A == A, true);
	CrsMatrix<double> C = A;
	eq("copy equal", A == C, true);
	A.clear();
	eq("clear", A.rows() + A.cols(), SizeType(0));
	A.resize(2, 3);
	for (int i = 0; i < 3; ++i) eq("fresh row pointers", A.getRowPtr(i), 0);
}
CHECK(crs_triplet, 800)
{
	SizeType n = sz1(h);
	VS r, c;
	VD v;
	D<double> w(n, n);
	for (SizeType i = 0; i < n; ++i) for (SizeType j = 0; j < n; ++j) if (h.u(0, 2) == 0) { r.push_back(i); c.push_back(j); v.push_back(h.d()); w(i, j) = v.back(); }
	VS p = h.perm(r.size()), r2, c2;
	VD v2;
	for (auto k : p) { r2.push_back(r[k]); c2.push_back(c[k]); v2.push_back(v[k]); }
	In()("rank", n)("rows", r2)("cols", c2)("vals", v2);
	CrsMatrix<double> A(n, r2, c2, v2);
	same("triplet constructor", A, w);
}
template <class T> void ext(G& h)
{
	SizeType n = sz1(h, 4), nout = sz1(h, 4);
	D<T> a, b;
	CrsMatrix<T> A = make<T>(h, a, n, n), B = make<T>(h, b, nout, nout), C;
	bool order = h.b();
	VS p = h.perm(n * nout);
	VD s1, s2;
	for (SizeType k = 0; k < nout; ++k) s1.push_back(h.b() ? 1 : -1);
	// eye version: C(p[ia,ie], p[ja,ie]) = A(ia,ja) (times sign[ie] when !order)
	In()("A", a)("nout", nout)("signs", s1)("order", order)("perm", p);
	externalProduct(C, A, nout, s1, order, p);
	D<T> w(n * nout, n * nout);
	for (SizeType i = 0; i < n; ++i) for (SizeType j = 0; j < n; ++j) for (SizeType e = 0; e < nout; ++e) {
		SizeType I = order ? i + e * n : e + i * nout, J = order ? j + e * n : e + j * nout;
		w(p[I], p[J]) = a(i, j) * (order ? 1.0 : s1[e]);
	}
	same("externalProduct(B,A,nout)", C, w);
	SizeType k = order ? n : nout; // signs of the fast index
	for (SizeType q = 0; q < k; ++q) s2.push_back(h.b() ? 1 : -1);
	In()("A", a)("B", b)("signs", s2)("order", order)("perm", p);
	externalProduct(C, A, B, s2, order, p);
	D<T> w2(n * nout, n * nout);
	for (SizeType i = 0; i < n; ++i) for (SizeType j = 0; j < n; ++j) for (SizeType e = 0; e < nout; ++e) for (SizeType f = 0; f < nout; ++f) {
		SizeType I = order ? i + e * n : e + i * nout, J = order ? j + f * n : f + j * nout;
		w2(p[I], p[J]) = a(i, j) * b(e, f) * s2[order ? i : e];
	}
	same("externalProduct(C,A,B)", C, w2);
}
CHECK(crs_externalProduct, 800) { ext<double>(h); ext<Z>(h); }
template <class T> void pred(G& h)
{
	SizeType n = sz1(h, 4), m = h.u(0, 3) ? n : sz1(h, 4);
	D<T> a(n, m);
	unsigned how = h.u(0, 4);
	CrsMatrix<T> A;
	A.resize(n, m);
	int c = 0;
	for (SizeType i = 0; i < n; ++i) {
		A.setRow(i, c);
		for (SizeType j = 0; j < m; ++j) {
			T v = T(0);
			if (how == 0) v = (i == j) ? 1 : 0;
			if (how == 1) v = (i == j && h.u(0, 3)) ? 1 : 0;
			if (how == 2) v = (i == j) ? Gen<T>::g(h) : T(0);
			if (how == 3) v = Gen<T>::g(h);
			if (how == 4) v = (i < j && j < n) ? Gen<T>::g(h) : (i > j && i < m ? PsimagLite::conj(a(j, i)) : T(h.d()));
			if (how == 4 && h.u(0, 9) == 0) v = Gen<T>::g(h);
			a(i, j) = v;
			if (v == T(0) && h.u(0, 3)) continue;
			A.pushCol(j);
			A.pushValue(v);
			++c;
		}
	}
	A.setRow(n, c);
	In()("A", a);
	bool diag = (n == m), iden = (n == m), herm = (n == m), zero = true, anti = (n == m);
	double n2 = 0;
	for (SizeType i = 0; i < n; ++i) for (SizeType j = 0; j < m; ++j) {
		if (i != j && a(i, j) != T(0)) diag = iden = false;
		if (i == j && a(i, j) != T(1)) iden = false;
		if (n == m && a(i, j) != PsimagLite::conj(a(j, i))) herm = false;
		if (n == m && a(i, j) != -PsimagLite::conj(a(j, i))) anti = false;
		if (a(i, j) != T(0)) zero = false;
		n2 += std::norm(a(i, j));
	}
	eq("isDiagonal", isDiagonal(A), diag);
	eq("isTheIdentity", isTheIdentity(A), iden);
	eq("isHermitian", isHermitian(A), herm);
	eq("isAntiHermitian", isAntiHermitian(A), anti);
	eq("isZero", isZero(A), zero);
	eq("norm2", norm2(A), n2);
}
CHECK(crs_predicates, 1500) { pred<double>(h); pred<Z>(h); }
CHECK(crs_text, 500)
{
	D<double> a;
	CrsMatrix<double> A = make<double>(h, a, h.u(0, 9) ? sz1(h) : 0, sz1(h)), B;
	In()("A", a);
	std::stringstream s;
	s << A;
	if (h.b()) { D<double> x; B = make<double>(h, x, sz1(h), sz1(h)); }
	s >> B;
	if (A.rows() == 0) { eq("stream round trip of an empty matrix", B.rows(), SizeType(0)); return; }
	same("stream round trip", B, a);
}
