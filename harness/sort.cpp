#include "Sort.h"
#include "h.h"
using namespace vh;
typedef std::vector<SizeType> VS;
template <class T> void one(G& h, int range, bool viaLess, bool small)
{
	typedef std::vector<T> V;
	size_t len = h.sz(24);
	V x(len);
	for (auto& e : x) e = T(std::is_signed<T>::value ? h.i(-range, range) : h.i(0, range));
	if (h.b()) std::sort(x.begin(), x.end());
	size_t n = len;
	if (small && len > 0) n = h.u(1, len);
	VS ip(n, 77);
	In()("x", x)("n", n);
	V x0 = x;
	PsimagLite::Sort<V> s;
	if (small) s.sort(x, ip, n);
	else s.sort(x, ip);
	eq("size", x.size(), len);
	eq("index size", ip.size(), n);
	std::vector<int> seen(n, 0);
	for (size_t k = 0; k < n; ++k) {
		if (k) ok("ordered", !(x[k] < x[k - 1]));
		ok("index in range", ip[k] < n);
		eq("index visited once", seen[ip[k]]++, 0);
		eq("x[k]==x0[iperm[k]]", x[k], x0[ip[k]]);
	}
	for (size_t k = n; k < len; ++k) eq("tail untouched", x[k], x0[k]);
	(void)viaLess;
}
CHECK(sort, 800)
{
	int range = h.b() ? 3 : 1000;
	switch (h.u(0, 4)) {
	case 0: one<SizeType>(h, range, false, false); break;
	case 1: one<int>(h, range, false, false); break;
	case 2: one<double>(h, range, false, false); break;
	case 3: one<SizeType>(h, range, false, true); break;
	case 4: one<double>(h, range, false, true); break;
	}
}
CHECK(sort_big, 60)
{ // more than the threshold where std::sort switches algorithm
	size_t len = h.u(17, 300);
	VS x(len), ip(len);
	unsigned long r = h.b() ? 2 : 50;
	for (auto& e : x) e = h.u(0, r);
	VS x0 = x;
	In()("x", x);
	PsimagLite::Sort<VS> s;
	s.sort(x, ip);
	std::vector<int> seen(len, 0);
	for (size_t k = 0; k < len; ++k) {
		if (k) ok("ordered", x[k - 1] <= x[k]);
		ok("in range", ip[k] < len);
		eq("visited once", seen[ip[k]]++, 0);
		eq("maps", x[k], x0[ip[k]]);
	}
}
