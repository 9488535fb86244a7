// LINK: psimaglite
// SRC: src/Matrix.cpp src/Mpi.cpp src/PsimagLite.cpp src/Concurrency.cpp
#include <algorithm>
#include <cmath>
#include <fstream>
#include <list>
#include <memory>
#include <set>
#include "Matrix.h"
#include "InputNg.h"
#include "Io/IoNg.h"
#define private public
#include "Geometry/Geometry.h"
#undef private
#include "h.h"
using namespace vh;
using namespace PsimagLite;
// an input: the values the constructors ask for
struct Mock {
	std::map<std::string, double> num;
	std::map<std::string, std::string> str;
	std::map<std::string, std::vector<double>> vec;
	std::map<std::string, Matrix<double>> mat;
	std::string pre;
	std::string& prefix() { return pre; }
	const std::string& prefix() const { return pre; }
	int version() const { return 10; }
	template <class T> void readline(T& x, const std::string& l)
	{
		auto it = num.find(l);
		if (it == num.end()) throw RuntimeError("no " + l + "\n");
		x = T(it->second);
	}
	void readline(std::string& x, const std::string& l, bool = true)
	{
		auto it = str.find(l);
		if (it == str.end()) throw RuntimeError("no " + l + "\n");
		x = it->second;
	}
	void read(std::vector<double>& v, const std::string& l)
	{
		auto it = vec.find(pre + l);
		if (it == vec.end()) throw RuntimeError("no " + pre + l + "\n");
		v = it->second;
	}
	void read(Matrix<double>& v, const std::string& l)
	{
		auto it = mat.find(pre + l);
		if (it == mat.end()) throw RuntimeError("no " + pre + l + "\n");
		v = it->second;
	}
};
struct Quiet { // the constructors talk on cerr and cout
	std::streambuf *a, *b; std::ostringstream s;
	Quiet() : a(std::cerr.rdbuf(s.rdbuf())), b(std::cout.rdbuf(s.rdbuf())) { }
	~Quiet() { std::cerr.rdbuf(a); std::cout.rdbuf(b); }
};
typedef LongChain<double, Mock> Chain;
typedef Ladder<double, Mock> Lad;
typedef LadderX<double, Mock> LadX;
typedef LadderBath<double, Mock> LadB;
typedef KTwoNiFFour<double, Mock> K2;
typedef Star<double, Mock> St;
typedef LongRange<double, Mock> LR;
typedef Honeycomb<double, Mock> Hc;
struct Pg { enum class ConnectionEnum { SYSTEM_SYSTEM, SYSTEM_ENVIRON, ENVIRON_SYSTEM, ENVIRON_ENVIRON }; };
typedef Geometry<double, Mock, Pg> Geo;
typedef std::function<int(size_t, size_t)> Bond;   // -1: no bond; else its direction, -2: any direction
static std::string ij(size_t i, size_t j) { return "(" + std::to_string(i) + "," + std::to_string(j) + ")"; }
template <class T> void graph(const T& g, size_t n, const Bond& bond, bool handles)
{
	std::map<size_t, std::map<size_t, std::string>> seen;
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
		int d = bond(i, j);
		eq("connected" + ij(i, j), g.connected(i, j), d != -1);
		if (d == -1) continue;
		size_t dd = g.calcDir(i, j);
		eq("direction does not depend on the order" + ij(i, j), dd, g.calcDir(j, i));
		ok("direction in range" + ij(i, j), dd < g.dirs());
		if (d >= 0) eq("direction" + ij(i, j), dd, size_t(d));
		if (!handles) continue;
		size_t h = g.handle(i, j);
		eq("handle does not depend on the order" + ij(i, j), h, g.handle(j, i));
		ok("handle of " + ij(i, j) + " = " + std::to_string(h) + " below the announced number " + std::to_string(g.getVectorSize(dd)), h < g.getVectorSize(dd));
		if (i > j) continue;
		if (seen[dd].count(h)) fail("bonds " + seen[dd][h] + " and " + ij(i, j) + " of direction " + std::to_string(dd) + " share handle " + std::to_string(h));
		seen[dd][h] = ij(i, j);
	}
}
static size_t df(size_t a, size_t b) { return a < b ? b - a : a - b; }
static bool nb(size_t a, size_t b, bool per, size_t n) { return df(a, b) == 1 || (per && n > 1 && df(a, b) == n - 1); }
static size_t modl(size_t a, size_t n) { return a % n; }
template <class T> void moves(const T& g, size_t n, size_t lx, size_t ly, bool px, bool py, G& h)
{
	// x is the slow coordinate
	std::vector<size_t> hit(n, 0);
	for (size_t s = 0; s < n; ++s) {
		size_t r = g.findReflection(s);
		In()("reflection of", s);
		ok("reflected site " + std::to_string(s) + " is a site", r < n);
		++hit[r];
		eq("reflection of " + std::to_string(s), r, (lx - 1 - s / ly) * ly + s % ly);
		eq("reflection twice of " + std::to_string(s), size_t(g.findReflection(r)), s);
		for (size_t t = 0; t < n; ++t) eq("reflection keeps neighbours " + ij(s, t), g.connected(r, g.findReflection(t)), g.connected(s, t));
	}
	for (size_t d = 0; d < g.dirs() && d < 2; ++d) {
		size_t a = h.u(0, 3 * n);
		std::vector<size_t> im(n);
		for (size_t s = 0; s < n; ++s) {
			im[s] = g.translate(s, d, a);
			eq("translation of " + std::to_string(s) + " by " + std::to_string(a), im[s], d == 0 ? modl(s / ly + a, lx) * ly + s % ly : (s / ly) * ly + modl(s % ly + a, ly));
		}
		std::set<size_t> q(im.begin(), im.end());
		eq("translation is one to one", q.size(), n);
		if (d == 0 ? px : py)
			for (size_t s = 0; s < n; ++s) for (size_t t = 0; t < n; ++t)
				eq("translation keeps neighbours " + ij(s, t), g.connected(im[s], im[t]), g.connected(s, t));
	}
}
static size_t flag(Mock& io, const char* l, G& h)
{
	size_t k = h.u(0, 2);
	if (k < 2) io.num[l] = k;
	return k == 1;
}
CHECK(g_chain, 600)
{
	Mock io;
	size_t n = 2 + h.sz(10), d = h.b() ? 1 : h.u(1, n + 1);
	bool per = flag(io, "IsPeriodicX=", h);
	if (d != 1 || h.b()) io.num["LongChainDistance="] = d;
	In()("chain sites", n)("distance", d)("periodic", per);
	std::unique_ptr<Chain> g;
	try { Quiet q; g.reset(new Chain(n, io)); } catch (std::exception&) { }
	eq("accepted", bool(g), d < n);
	if (!g) return;
	graph(*g, n, [&](size_t i, size_t j) { return df(i, j) == d || (per && df(i, j) == n - d) ? 0 : -1; }, true);
	eq("number of directions", g->dirs(), 1ul);
	eq("length", g->length(0), n);
	eq("announced bonds", g->getVectorSize(0), per ? n : n - d);
	moves(*g, n, n, 1, per, false, h);
}
static bool mkladder(Mock& io, G& h, size_t& n, size_t& leg, bool& px, bool& py, size_t only)
{
	leg = only ? only : h.u(1, 5);
	size_t lx = 1 + h.sz(6);
	n = lx * leg;
	px = lx > 1 && flag(io, "IsPeriodicX=", h);
	py = false;
	io.num["LadderLeg="] = leg;
	if (leg > 2) { py = h.b(); io.num["IsPeriodicY="] = py; }
	In()("sites", n)("legs", leg)("periodic x", px)("periodic y", py);
	return true;
}
static Bond ladder(size_t n, size_t leg, bool px, bool py)
{
	return [=](size_t i, size_t j) {
		size_t a = i / leg, b = j / leg, r = i % leg, s = j % leg;
		if (i == j) return -1;
		if (a == b) return nb(r, s, py, leg) ? 1 : -1;
		if (r == s) return nb(a, b, px, n / leg) ? 0 : -1;
		return -1;
	};
}
CHECK(g_ladder, 600)
{
	Mock io; size_t n, leg; bool px, py;
	mkladder(io, h, n, leg, px, py, 0);
	bool spoil = leg > 1 && h.u(0, 9) == 0;
	std::unique_ptr<Lad> g;
	try { Quiet q; void* p = malloc(sizeof(Lad)); memset(p, 0xff, sizeof(Lad)); free(p); g.reset(new Lad(n + spoil, io)); } catch (std::exception&) { }
	eq("accepted", bool(g), !spoil);
	if (!g) return;
	graph(*g, n, ladder(n, leg, px, py), true);
	eq("length x", g->length(0), n / leg);
	eq("length y", g->length(1), leg);
	eq("announced x bonds", g->getVectorSize(0), px ? n : n - leg);
	eq("announced y bonds", g->getVectorSize(1), py ? n : n - n / leg);
	moves(*g, n, n / leg, leg, px, py, h);
	In()("sites", n)("legs", leg);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { eq("same column" + ij(i, j), g->sameColumn(i, j), i / leg == j / leg); eq("same row" + ij(i, j), g->sameRow(i, j), i % leg == j % leg); }
}
CHECK(g_ladderx, 400)
{
	Mock io; size_t n, leg; bool px, py;
	mkladder(io, h, n, leg, px, py, 2);
	std::unique_ptr<LadX> g;
	{ Quiet q; g.reset(new LadX(n, io)); }
	Bond l = ladder(n, leg, px, py);
	graph(*g, n, [&](size_t i, size_t j) {
		int d = l(i, j);
		if (d != -1 || i == j) return d;
		if (df(i / leg, j / leg) != 1 || i % leg == j % leg) return -1;
		return std::min(i, j) % 2 ? 2 : 3;
	}, true);
}
CHECK(g_ladderbath, 400)
{
	Mock io; size_t n, leg; bool px, py;
	mkladder(io, h, n, leg, px, py, h.b() ? 2 : 4);
	size_t b = h.u(1, 4), N = n * (1 + b), first = (n / 2) * b;
	io.num["BathSitesPerSite="] = b;
	In()("bath sites per site", b)("sites", N)("cluster", n)("legs", leg)("periodic x", px)("periodic y", py);
	std::unique_ptr<LadB> g;
	{ Quiet q; g.reset(new LadB(N, io)); }
	Bond l = ladder(n, leg, px, py);
	auto cl = [&](size_t i) { return i >= first && i < first + n; };
	std::vector<size_t> bath(N, 0), to(N, 0);
	graph(*g, N, [&](size_t i, size_t j) {
		bool p = cl(i), q = cl(j);
		if (p && q) return l(i - first, j - first);
		if (!p && !q) return -1;
		size_t c = p ? i : j, t = p ? j : i;
		// the bath sites of the left half of the cluster come first, layer by layer
		size_t half = n / 2;
		size_t own = t < first ? first + t % half : first + half + (t - first - n) % half;
		if (own != c) return -1;
		++bath[c]; ++to[t];
		return 2;
	}, true);
	for (size_t i = 0; i < N; ++i) if (cl(i)) eq("bath sites of " + std::to_string(i), bath[i], 2 * b); else eq("cluster sites of bath site " + std::to_string(i), to[i], 2ul);
	eq("announced bath bonds", g->getVectorSize(2), n * b);
}
CHECK(g_star, 100)
{
	Mock io;
	size_t n = 2 + h.sz(12);
	In()("star sites", n);
	St g(n, io);
	graph(g, n, [&](size_t i, size_t j) { return i != j && (i == 1 || j == 1) ? 0 : -1; }, true);
	eq("announced bonds", g.getVectorSize(0), n - 1);
	bool t = false;
	try { g.getVectorSize(1); } catch (std::exception&) { t = true; }
	ok("unknown direction is rejected", t);
}
CHECK(g_k2, 100)
{
	Mock io;
	size_t n = 4 + h.sz(24);
	int sc = h.b() ? 1 : -1;
	io.num["SignChange="] = sc;
	In()("ktwoniffour sites", n)("SignChange", sc);
	std::unique_ptr<K2> g;
	{ Quiet q; g.reset(new K2(n, io)); }
	graph(*g, n, [&](size_t i, size_t j) -> int {
		size_t a = i % 4, b = j % 4;
		if (a > b) { std::swap(a, b); std::swap(i, j); }
		// oxygen x (0), oxygen y (1 and 2), copper (3)
		long d = long(j) - long(i);
		if (b == 3 && a == 0) return d == 3 || d == -1 ? 0 : -1;
		if (b == 3 && a != 3) return (a == 1 && d == 2) || (a == 2 && d == 1) ? 1 : -1;
		if (a == 0 && b == 1) return d == 1 ? 2 : (d == -3 ? 3 : -1);
		if (a == 0 && b == 2) return d == 2 ? 3 : (d == -2 ? 2 : -1);
		return -1;
	}, false);
	std::set<int> ix;
	size_t rank = g->matrixRank(n, 2), c = 0;
	for (size_t i = 0; i < n; ++i) {
		eq("orbitals of " + std::to_string(i), g->orbitals(2, i), i % 4 == 3 ? 1ul : 2ul);
		for (size_t o = 0; o < 2; ++o) {
			int k = g->index(i, o, 2);
			if (i % 4 == 3 && o) { eq("no index", k, -1); continue; }
			++c;
			ok("index in range", k >= 0 && size_t(k) < rank);
			ok("index " + std::to_string(k) + " of site " + std::to_string(i) + " is used twice", ix.insert(k).second);
		}
		for (size_t j = 0; j < n; ++j) if (g->connected(i, j)) {
			bool cu = (i % 4 == 3) != (j % 4 == 3);
			int e = cu && df(i, j) == 1 ? -1 : 1;
			if (i % 8 == 4 || j % 8 == 4) e *= sc;
			eq("sign" + ij(i, j), g->signChange(i, j), e);
			eq("sign does not depend on the order" + ij(i, j), g->signChange(i, j), g->signChange(j, i));
		}
	}
	eq("rank", rank, c);
}
CHECK(g_honeycomb, 300)
{
	Mock io;
	size_t ly = 2 * (1 + h.sz(5)), lx = 1 + h.u(0, 4), n = lx * ly;
	io.num["HoneycombLy="] = ly;
	bool py = h.b(); io.num["IsPeriodicY="] = py;
	bool px = lx > 2 && flag(io, "IsPeriodicX=", h);
	if (ly == 2) { py = false; io.num["IsPeriodicY="] = 0; }
	if (py && ly % 4 != 0) { py = false; io.num["IsPeriodicY="] = 0; }
	In()("honeycomb ly", ly)("lx", lx)("periodic x", px)("periodic y", py);
	std::unique_ptr<Hc> g;
	{ Quiet q; g.reset(new Hc(n, io)); }
	std::vector<std::set<int>> dirs(n);
	graph(*g, n, [&](size_t i, size_t j) -> int {
		if (i == j) return -1;
		size_t x = i / ly, y = i % ly, u = j / ly, v = j % ly;
		if (x == u) { // zigzag along a column
			if (y > v) std::swap(y, v);
			if (v - y == 1) return y % 2 ? 2 : (y % 4 == 0 ? 1 : 0);
			return py && y == 0 && v == ly - 1 ? 2 : -1;
		}
		// the bond between columns goes from 4k or 4k+3 to the next column
		auto next = [&](size_t a, size_t c) { return a + 1 == c || (px && a + 1 == lx && c == 0); };
		if (!next(x, u)) { std::swap(x, u); std::swap(y, v); if (!next(x, u)) return -1; }
		if (y % 4 == 0 && v == y + 1) return 0;
		if (y % 4 == 3 && v + 1 == y) return 1;
		return -1;
	}, false);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (g->connected(i, j))
		ok("two bonds of the same kind at " + std::to_string(i), dirs[i].insert(g->calcDir(i, j)).second);
}
CHECK(g_longrange, 300)
{
	Mock io;
	size_t n = 1 + h.sz(5), o = h.u(1, 3), N = n * o;
	std::string opt[] = { "none", "ConstantValues", "compact" };
	size_t k = h.u(0, 3);
	Matrix<double> want(N, N);
	io.num["DegreesOfFreedom="] = o;
	io.num["GeometryMaxConnections="] = 2;
	std::vector<double> e;
	if (k == 3) { double v = h.d(); io.num["GeometryEntangler="] = v; e.push_back(v); for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) want(i, j) = v; }
	else if (k < 2) { for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { want(i, j) = h.d(); e.push_back(want(i, j)); } io.mat["Connectors"] = want; }
	else {
		size_t m = h.u(1, 6);
		Matrix<double> c(m, o > 1 ? 5 : 3);
		for (size_t r = 0; r < m; ++r) {
			size_t s0 = h.u(0, n - 1), s1 = h.u(0, n - 1), o0 = h.u(0, o - 1), o1 = h.u(0, o - 1), q = 0;
			c(r, q++) = s0; if (o > 1) c(r, q++) = o0; c(r, q++) = s1; if (o > 1) c(r, q++) = o1;
			c(r, q) = h.d();
			want(s0 * o + o0, s1 * o + o1) = c(r, q);
			for (size_t z = 0; z <= q; ++z) e.push_back(c(r, z));
		}
		io.mat["Connectors"] = c;
	}
	In()("long range sites", n)("orbitals", o)("mode", k)("data", e);
	std::unique_ptr<LR> g;
	{ Quiet q; g.reset(new LR(n, k == 3 ? "none" : opt[k], io)); }
	Matrix<double> got(2, 7, 9.0);
	g->set(got, o);
	eq("rows", got.rows(), N); eq("cols", got.cols(), N);
	for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) eq("connector" + ij(i, j), got(i, j), want(i, j));
	for (size_t s = 0; s < n; ++s) { eq("reflection", g->findReflection(s), n - 1 - s); size_t a = h.u(0, 20); eq("translation", g->translate(s, 0, a), (s + a) % n); }
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { eq("direction", g->calcDir(i, j), 0ul); ok("every pair may be connected", i == j || g->connected(i, j)); }
}
static void setup(Mock& io, G& h, size_t n, const std::string& pre, const std::string& kind, bool px, bool constant, std::vector<double>& v)
{
	io.str["GeometryKind="] = kind;
	io.str["GeometryOptions="] = constant ? "ConstantValues" : "none";
	io.num["IsPeriodicX="] = px;
	size_t dirs = kind == "ladder" ? 2 : 1;
	if (kind == "ladder") io.num["LadderLeg="] = 2;
	for (size_t d = 0; d < dirs; ++d) {
		size_t m = constant ? 1 : (kind == "chain" ? n - 1 + px : (d == 0 ? (px ? n : n - 2) : n / 2));
		std::vector<double> w;
		for (size_t k = 0; k < m; ++k) { w.push_back(h.i(1, 99)); v.push_back(w.back()); }
		io.vec[pre + "dir" + std::to_string(d) + ":Connectors"] = w;
	}
}
CHECK(g_term, 400)
{
	Mock io;
	std::string kind = h.b() ? "chain" : "ladder";
	size_t n = 2 * (1 + h.sz(5));
	if (n == 2) n = 4;
	bool px = h.b(), cst = h.b();
	std::vector<double> v;
	setup(io, h, n, "", kind, px, cst, v);
	io.num["TotalNumberOfSites="] = n; io.num["NumberOfTerms="] = 1;
	In()("kind", kind)("sites", n)("periodic", px)("constant", cst)("connectors", v);
	std::unique_ptr<Geo> g;
	{ Quiet q; g.reset(new Geo(io)); }
	std::multiset<double> used;
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
		double got = g->operator()(i, 0, j, 0, 0);
		eq("value does not depend on the order" + ij(i, j), got, g->operator()(j, 0, i, 0, 0));
		eq("value with system and environment touching" + ij(i, j), g->operator()(n / 2 - 1, n / 2, i, 0, j, 0, 0), got);
		bool con = g->connected(n / 2 - 1, n / 2, i, j);
		if (!con) { eq("no bond, no value" + ij(i, j), got, 0.0); continue; }
		size_t d = g->calcDir(0, i, j), hd = cst ? 0 : g->handle(0, i, j);
		const std::vector<double>& w = io.vec["dir" + std::to_string(d) + ":Connectors"];
		ok("handle within the connectors" + ij(i, j), hd < w.size());
		eq("value" + ij(i, j), got, w[hd]);
		if (i < j) used.insert(got);
	}
	if (!cst && !(kind == "chain" && px && n == 2) && !(kind == "ladder" && px && n <= 4)) {
		std::multiset<double> all(v.begin(), v.end());
		ok("every connector is used exactly once", used == all);
	}
	for (size_t s = 0; s < n; ++s) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
		Pg::ConnectionEnum e = i <= s ? (j <= s ? Pg::ConnectionEnum::SYSTEM_SYSTEM : Pg::ConnectionEnum::SYSTEM_ENVIRON) : (j <= s ? Pg::ConnectionEnum::ENVIRON_SYSTEM : Pg::ConnectionEnum::ENVIRON_ENVIRON);
		ok("kind of connection" + ij(i, j), g->connectionKind(s, i, j) == e);
	}
}
CHECK(g_orbitals, 200)
{
	// connectors between orbitals: value(i,a;j,b) = M[a][b] for the bond, and symmetric when both sites and orbitals are exchanged
	Mock io;
	size_t n = 2 + h.sz(5), o = h.u(2, 3);
	io.str["GeometryKind="] = "chain"; io.str["GeometryOptions="] = h.b() ? "ConstantValues" : "none";
	bool cst = io.str["GeometryOptions="] != "none";
	io.num["TotalNumberOfSites="] = n; io.num["NumberOfTerms="] = 1; io.num["DegreesOfFreedom="] = o;
	size_t m = cst ? 1 : n - 1;
	std::vector<double> v;
	for (size_t k = 0; k < m; ++k) {
		Matrix<double> q(o, o);
		for (size_t a = 0; a < o; ++a) for (size_t b = 0; b < o; ++b) { q(a, b) = h.i(1, 99); v.push_back(q(a, b)); }
		io.mat["dir0:Connectors" + (m > 1 ? std::to_string(k) : std::string(""))] = q;
	}
	In()("sites", n)("orbitals", o)("constant", cst)("connectors", v);
	std::unique_ptr<Geo> g;
	{ Quiet q; g.reset(new Geo(io)); }
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t a = 0; a < o; ++a) for (size_t b = 0; b < o; ++b) {
		double got = g->operator()(i, a, j, b, 0);
		eq("value does not depend on the order" + ij(i, j), got, g->operator()(j, b, i, a, 0));
		if (df(i, j) != 1) { eq("no bond", got, 0.0); continue; }
		size_t k = cst ? 0 : std::min(i, j);
		const Matrix<double>& q = io.mat["dir0:Connectors" + (m > 1 ? std::to_string(k) : std::string(""))];
		eq("value" + ij(i, j), got, i > j ? q(a, b) : q(b, a));
	}
}
CHECK(g_split, 500)
{
	Mock io;
	size_t s = h.b() ? 1 : h.u(1, 5), nb_ = h.u(1, 12), n = h.u(0, 7) ? s * nb_ : h.u(1, 30);
	io.num["TotalNumberOfSites="] = n; io.num["NumberOfTerms="] = 0; io.str["GeometryKind="] = "none";
	bool all = h.b();
	In()("sites", n)("sites per block", s)("all in system", all);
	Quiet q;
	Geo g(io);
	std::vector<SizeType> S, E;
	std::vector<std::vector<SizeType>> X, Y;
	bool thrown = false;
	try { g.split(s, S, X, Y, E, all); } catch (std::exception&) { thrown = true; }
	eq("rejected", thrown, s > 1 && (n % s != 0 || n / s < 3));
	if (thrown) return;
	std::vector<SizeType> left(S), order;
	for (auto& b : X) { eq("block size", b.size(), s); left.insert(left.end(), b.begin(), b.end()); }
	std::vector<int> cnt(n, 0);
	order = left;
	for (auto& b : Y) { eq("block size", b.size(), s); order.insert(order.end(), b.begin(), b.end()); }
	order.insert(order.end(), E.begin(), E.end());
	for (auto x : order) { ok("site " + std::to_string(x) + " exists", x < n); ++cnt[x]; }
	if (n == 1 && E.empty()) { eq("site 0", cnt[0], 1); return; }
	for (size_t i = 0; i < n; ++i) eq("times site " + std::to_string(i) + " is visited", cnt[i], 1);
	std::sort(left.begin(), left.end());
	for (size_t i = 0; i < left.size(); ++i) eq("the system grows contiguously from the left", left[i], i);
	if (all) ok("all in system", Y.empty());
	// the environment grows contiguously from the right
	size_t top = n - E.size();
	for (auto& b : Y) { for (size_t j = 0; j < s; ++j) eq("environment block", b[j], top - s + j); top -= s; }
	if (!all && n > 1) ok("halves", X.size() + 1 == Y.size() + 1 || X.size() == Y.size() + 1);
}
