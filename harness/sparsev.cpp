// sparse vectors and sparse rows
#define VH_SPARSEV
#include "h.h"
#include <algorithm>
#include <memory>
#include <numeric>
#define private public
#include "Vector.h"
#include "CrsMatrix.h"
namespace PsimagLite { // the header leaves this one to its user
inline bool isAlmostZero(double x, double eps) { return std::fabs(x) < eps; }
inline bool isAlmostZero(const std::complex<double>& x, double eps) { return std::abs(x) < eps; }
}
#include "SparseVector.h"
#include "SparseRow.h"
#include "SparseRowCached.h"
#undef private
using namespace vh;
template <class T> using SV = PsimagLite::SparseVector<T>;
template <class T> std::vector<T> dense(const SV<T>& s, size_t total)
{
	std::vector<T> r(total, T(0));
	eq("as many values as indices", s.values_.size(), s.indices_.size());
	for (size_t k = 0; k < s.indices(); ++k) {
		ok("index inside the vector", s.index(k) < total);
		r[s.index(k)] += s.value(k);
	}
	return r;
}
template <class T> void same(const std::string& what, const std::vector<T>& a, const std::vector<T>& b)
{
	eq(what + ": length", a.size(), b.size());
	for (size_t k = 0; k < a.size(); ++k) eq(what + ": component " + std::to_string(k), a[k], b[k]);
}
template <class T> SV<T> gen(G& h, size_t n, std::vector<T>& d, const char* nm, In& in, bool repeats = true)
{
	SV<T> s(n);
	d.assign(n, T(0));
	std::vector<size_t> idx;
	std::vector<T> val;
	size_t m = n ? h.u(0, repeats ? 2 * n : n) : 0;
	std::vector<unsigned long> p = h.perm(n);
	for (size_t k = 0; k < m; ++k) {
		size_t i = repeats ? h.u(0, n - 1) : p[k];
		T v = Gen<T>::g(h);
		eq("place of the added entry", (size_t)s.add(i, v), k);
		d[i] += v;
		idx.push_back(i);
		val.push_back(v);
	}
	in((std::string(nm) + " size").c_str(), n)((std::string(nm) + " indices").c_str(), idx)((std::string(nm) + " values").c_str(), val);
	eq("size", (size_t)s.size(), n);
	return s;
}
template <class T> void basic(G& h)
{
	size_t n = h.sz(9);
	std::vector<T> v(n), d;
	for (auto& e : v) e = h.b() ? T(0) : Gen<T>::g(h);
	size_t off = h.u(0, 3), extra = h.u(0, 3);
	In in;
	in("dense", v)("offset", off)("extra", extra);
	SV<T> s(v);
	eq("size", (size_t)s.size(), n);
	same("from dense", dense(s, n), v);
	SV<T> t = gen<T>(h, h.u(1, 5), d, "reused", in);
	t.fromChunk(v, off, off + n + extra);
	eq("size after fromChunk", (size_t)t.size(), off + n + extra);
	std::vector<T> w(off + n + extra, T(0));
	for (size_t k = 0; k < n; ++k) w[off + k] = v[k];
	same("from chunk", dense(t, off + n + extra), w);
	size_t size = t.size();
	t.clear();
	eq("cleared", (size_t)t.indices(), (size_t)0);
	eq("clear keeps the size", (size_t)t.size(), size);
	t.resize(3);
	eq("resized", (size_t)t.size(), (size_t)3);
}
CHECK(sv_basic, 200) { basic<double>(h); }
CHECK(sv_basic, 200) { basic<Z>(h); }
template <class T> void chunk(G& h)
{
	size_t n = 1 + h.sz(9);
	std::vector<T> d, x(h.u(0, 12), T(7));
	In in;
	SV<T> s = gen<T>(h, n, d, "s", in, false);
	size_t i0 = h.u(0, n), total = h.u(0, n + 2 - i0);
	bool test = h.b();
	in("i0", i0)("total", total)("test", test)("old target", x);
	bool fits = true;
	for (size_t k = 0; k < s.indices(); ++k) fits = fits && s.index(k) >= i0 && s.index(k) < i0 + total;
	if ((!test && !fits) || (test && s.indices() == 0)) return;
	bool thrown = false;
	try {
		s.toChunk(x, i0, total, test);
	} catch (std::exception&) {
		thrown = true;
	}
	eq("refused exactly when entries lie outside the chunk", thrown, !fits);
	if (thrown) return;
	eq("length", x.size(), total);
	for (size_t k = 0; k < total; ++k) eq("component " + std::to_string(k), x[k], i0 + k < n ? d[i0 + k] : T(0));
}
CHECK(sv_chunk, 400) { chunk<double>(h); }
struct Parts {
	std::vector<size_t> v;
	size_t partition() const { return v.size(); }
	size_t partition(size_t i) const { return v[i]; }
};
CHECK(sv_part, 400)
{
	Parts p;
	p.v.push_back(0);
	size_t np = h.u(1, 4);
	for (size_t k = 0; k < np; ++k) p.v.push_back(p.v.back() + h.u(1, 4));
	size_t n = p.v.back(), part = h.u(0, np - 1);
	SV<double> s(n);
	std::vector<double> d(n, 0.0), x(h.u(0, 9), 7.0);
	std::vector<size_t> idx;
	bool stray = h.round % 3 == 0;
	for (size_t k = 0; k < n; ++k) {
		bool in = k >= p.v[part] && k < p.v[part + 1];
		if (!(in ? h.b() : stray && h.u(0, 3) == 0)) continue;
		d[k] = 1 + h.u(0, 5);
		s.add(k, d[k]);
		idx.push_back(k);
	}
	In()("partitions", p.v)("indices", idx);
	if (idx.empty()) return;
	size_t lo = 0, hi = 0;
	for (size_t k = 0; k < np; ++k) {
		if (idx.front() >= p.v[k]) lo = k;
		if (idx.back() >= p.v[k]) hi = k;
	}
	bool thrown = false;
	size_t got = 0;
	try {
		got = s.toChunk(x, p);
	} catch (std::exception&) {
		thrown = true;
	}
	eq("refused exactly when the entries lie in more than one partition", thrown, lo != hi);
	if (thrown) return;
	eq("partition", got, lo);
	eq("found", (size_t)s.findPartition(p), lo);
	eq("length", x.size(), p.v[lo + 1] - p.v[lo]);
	for (size_t k = 0; k < x.size(); ++k) eq("component", x[k], d[p.v[lo] + k]);
}
template <class T> void algebra(G& h)
{
	size_t n = h.sz(8);
	std::vector<T> d, f;
	In in;
	SV<T> s = gen<T>(h, n, d, "s", in), t = gen<T>(h, n, f, "t", in);
	T a = Gen<T>::g(h);
	in("a", a);
	SV<T> u = a * s;
	std::vector<T> w(n);
	for (size_t k = 0; k < n; ++k) w[k] = a * d[k];
	same("a*s", dense(u, n), w);
	same("s", dense(s, n), d);
	u = s;
	u *= a;
	same("s*=a", dense(u, n), w);
	u = s;
	u -= t;
	for (size_t k = 0; k < n; ++k) w[k] = d[k] - f[k];
	same("s-=t", dense(u, n), w);
	s.sort();
	double nn = 0;
	for (size_t k = 0; k < n; ++k) nn += std::norm(d[k]);
	if constexpr (std::is_same<T, double>::value) near("norm", PsimagLite::norm(s), sqrt(nn), 1e-9);
}
CHECK(sv_algebra, 200) { algebra<double>(h); }
CHECK(sv_algebra, 200) { algebra<Z>(h); }
template <class T> void sorting(G& h)
{
	size_t n = h.sz(10);
	std::vector<T> d;
	In in;
	SV<T> s = gen<T>(h, n, d, "s", in);
	for (int twice = 0; twice < 2; ++twice) {
		s.sort();
		same("after sort", dense(s, n), d);
		for (size_t k = 0; k + 1 < s.indices(); ++k) ok("indices increase", s.index(k) < s.index(k + 1));
		ok("marked sorted", s.isSorted_);
		eq("size", (size_t)s.size(), n);
		if (n && h.b()) {
			size_t i = h.u(0, n - 1);
			s.add(i, T(2));
			d[i] += T(2);
			in("added at", i);
		}
	}
}
CHECK(sv_sort, 250) { sorting<double>(h); }
CHECK(sv_sort, 250) { sorting<Z>(h); }
template <class T> void scalar(G& h)
{
	size_t n = h.sz(9);
	std::vector<T> d, f;
	In in;
	SV<T> s = gen<T>(h, n, d, "s", in), t = gen<T>(h, n, f, "t", in);
	s.sort();
	t.sort();
	T want = 0;
	for (size_t k = 0; k < n; ++k) want += d[k] * PsimagLite::conj(f[k]);
	eq("scalar product", s.scalarProduct(t), want);
	eq("operator*", s * t, want);
}
CHECK(sv_scalar, 300) { scalar<double>(h); }
CHECK(sv_scalar, 300) { scalar<Z>(h); }
CHECK(sv_equal, 400)
{
	size_t n = h.sz(5);
	std::vector<double> d, f;
	In in;
	SV<double> s = gen<double>(h, n, d, "s", in), t = h.u(0, 2) ? gen<double>(h, n, f, "t", in) : s;
	if (t.indices() == s.indices() && t.indices_ == s.indices_) f = d;
	if (h.round % 4 == 1 && s.indices()) { // longer or shorter by one
		t = s;
		t.values_.pop_back();
		t.indices_.pop_back();
	}
	s.sort();
	t.sort();
	for (auto* p : { &s.values_, &t.values_ }) // a stored zero is an entry like any other for ==
		for (double e : *p)
			if (e == 0) return;
	f = dense(t, n);
	d = dense(s, n);
	eq("s==t", s == t, d == f);
	eq("t==s", t == s, d == f);
}
typedef PsimagLite::CrsMatrix<double> M;
double entry(const M& a, size_t i, size_t j)
{
	double x = 0;
	for (int k = a.rowptr_[i]; k < a.rowptr_[i + 1]; ++k)
		if ((size_t)a.colind_[k] == j) x += a.values_[k];
	return x;
}
CHECK(sr_rows, 400)
{
	size_t n = 1 + h.sz(9), rows = h.u(1, 3), cache = h.u(0, 4);
	M a(rows, n), b(rows, n);
	std::vector<double> y(n);
	for (auto& e : y) e = h.d();
	In in;
	in("columns", n)("rows", rows)("cache", cache)("y", y);
	std::vector<std::vector<double> > d(rows, std::vector<double>(n, 0.0));
	PsimagLite::SparseRowCached<M> rc(cache);
	size_t counter = 0, counterC = 0;
	for (size_t i = 0; i < rows; ++i) {
		a.setRow(i, counter);
		b.setRow(i, counterC);
		PsimagLite::SparseRow<M> r, r2;
		std::vector<size_t> cols;
		std::vector<double> vals;
		size_t m = h.u(0, 2 * n);
		double want = 0;
		for (size_t k = 0; k < m; ++k) {
			size_t c = h.u(0, n - 1);
			double v = h.d();
			r.add(c, v);
			rc.add(c, v);
			d[i][c] += v;
			want += v * y[c];
			cols.push_back(c);
			vals.push_back(v);
		}
		in("row columns", cols)("row values", vals);
		eq("row times vector", r.matrixVectorProduct(y), want);
		eq("finalize(vector)", r.finalize(y), want);
		if (h.b()) {
			eq("cached row times vector", rc.matrixVectorProduct(y), want);
			eq("cache emptied", (size_t)rc.counter_, (size_t)0);
			for (size_t k = 0; k < m; ++k) rc.add(cols[k], vals[k]);
		}
		size_t before = a.colind_.size();
		size_t got = r.finalize(a), gotC = rc.finalize(b);
		eq("entries announced", got, a.colind_.size() - before);
		eq("entries announced (cached)", gotC, got);
		for (size_t k = before; k + 1 < a.colind_.size(); ++k) ok("columns increase", a.colind_[k] < a.colind_[k + 1]);
		counter += got;
		counterC += gotC;
	}
	a.setRow(rows, counter);
	b.setRow(rows, counterC);
	a.checkValidity();
	b.checkValidity();
	for (size_t i = 0; i < rows; ++i)
		for (size_t j = 0; j < n; ++j) {
			eq("entry", entry(a, i, j), d[i][j]);
			eq("entry (cached)", entry(b, i, j), d[i][j]);
		}
}
