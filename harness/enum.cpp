// enumerations
#define VH_ENUM
#include "h.h"
#include <algorithm>
#include <numeric>
#include <set>
#define private public
#include "Vector.h"
#include "Permutations.h"
#include "PackIndices.h"
#include "SumDecomposition.h"
#undef private
using namespace vh;
typedef std::vector<SizeType> VS;
CHECK(perms, 400)
{
	size_t n = h.round < 8 ? h.round : h.u(0, h.round < 60 ? 6 : 5);
	VS v(n);
	bool dup = h.b();
	for (size_t k = 0; k < n; ++k) v[k] = dup ? h.u(0, 3) : k * 3 + h.u(0, 2);
	for (size_t k = n; k > 1; --k) std::swap(v[k - 1], v[h.u(0, k - 1)]);
	In()("start", v);
	VS w = v;
	std::sort(w.begin(), w.end());
	PsimagLite::Permutations<VS> p(v);
	for (size_t count = 0;; ++count) {
		eq("size", (size_t)p.size(), n);
		for (size_t k = 0; k < n; ++k) eq("entry " + std::to_string(k) + " of permutation " + std::to_string(count), p[k], w[k]);
		bool a = p.increase(), b = std::next_permutation(w.begin(), w.end());
		if (!b) std::reverse(w.begin(), w.end()); // back to the last one
		eq("another permutation exists", a, b);
		if (!b) break;
	}
}
CHECK(perms, 3000)
{
	// one step from an arbitrary arrangement
	size_t n = h.sz(9);
	VS v(n);
	for (auto& e : v) e = h.u(0, n);
	In()("arrangement", v);
	PsimagLite::Permutations<VS> p(v);
	p.data_ = v;
	VS w = v;
	bool a = p.increase(), b = std::next_permutation(w.begin(), w.end());
	if (!b) w = v;
	eq("another permutation exists", a, b);
	ok("next arrangement", p.data_ == w);
}
CHECK(pack, 3000)
{
	SizeType n = h.u(1, h.b() ? 6 : 1000), ind = h.u(0, h.b() ? 30 : 1000000);
	if (h.u(0, 4) == 0) ind = (SizeType(1) << h.u(31, 61)) + h.u(0, 1000000);
	if (h.u(0, 9) == 0 && ind > (SizeType(1) << 34)) n = (SizeType(1) << 32) + h.u(0, 1000000);
	In()("n", n)("ind", ind);
	PsimagLite::PackIndices q(n);
	SizeType x = 77, y = 77;
	q.unpack(x, y, ind);
	eq("x", x, ind % n);
	eq("y", y, ind / n);
	if (n > 1000) return;
	SizeType m = h.u(1, 5);
	std::vector<unsigned long> pm = h.perm(n * m > 4000 ? n : n * m);
	VS inv(pm.begin(), pm.end());
	for (size_t k = 0; k < inv.size(); k += 1 + inv.size() / 50) {
		q.unpack(x, y, k);
		eq("pack(unpack)", q.pack(x, y, inv), inv[k]);
	}
}
static void allsums(SizeType total, SizeType sum, VS& cur, std::set<VS>& out)
{
	if (cur.size() == total) {
		if (sum == 0) out.insert(cur);
		return;
	}
	for (SizeType i = 0; i <= sum; ++i) {
		cur.push_back(i);
		allsums(total, sum - i, cur, out);
		cur.pop_back();
	}
}
CHECK(sums, 120)
{
	SizeType total = h.round < 49 ? h.round / 7 : h.u(0, 5), sum = h.round < 49 ? h.round % 7 : h.u(0, 7);
	In()("total", total)("sum", sum);
	std::set<VS> want;
	VS cur;
	allsums(total, sum, cur, want);
	PsimagLite::SumDecomposition a(total, sum), s(total, sum, PsimagLite::SumDecomposition::SEL_SIZE);
	eq("count", a.size(), (SizeType)want.size());
	eq("stored", a.storedSize(), (SizeType)want.size());
	eq("count only", s.size(), (SizeType)want.size());
	eq("count only, stored", s.storedSize(), (SizeType)0);
	std::set<VS> got;
	for (size_t k = 0; k < a.storedSize(); ++k) got.insert(a(k));
	ok("every decomposition exactly once", got == want);
	for (size_t k = 0; k < want.size(); k += 1 + want.size() / 4) {
		PsimagLite::SumDecomposition one(total, sum, PsimagLite::SumDecomposition::SEL_INDEX, (int)k);
		eq("one selected", one.storedSize(), (SizeType)1);
		ok("the selected one", one(0) == a(k));
	}
	bool thrown = false;
	try { a(a.storedSize()); } catch (std::exception&) { thrown = true; }
	ok("index too large is rejected", thrown);
}
