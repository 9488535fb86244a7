// Bounded checks / replay of the real code.  usage: EXE SECONDS FUNC...
// Deterministic given VERIF_SEED: a fixed number of rounds, SECONDS only caps the time.
#ifndef VERIF_H_H
#define VERIF_H_H
#include <chrono>
#include <complex>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>
namespace vh {
typedef std::complex<double> Z;
inline std::string& input() { static std::string s; return s; }
inline std::string& fname() { static std::string s; return s; }
inline void dump(const char* why)
{
	fprintf(stdout, "FAILING INPUT [%s]: %s\n%s\n", fname().c_str(), input().c_str(), why);
	fflush(stdout);
}
inline void onsig(int s)
{
	char b[64];
	snprintf(b, sizeof b, "the code under test stopped with signal %d", s);
	dump(b);
	_exit(2);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void ondeath() { dump("sanitizer report (see below)"); }
struct G {
	std::mt19937_64 r;
	unsigned long round = 0;
	bool b() { return r() & 1; }
	unsigned long u(unsigned long lo, unsigned long hi) { return lo + r() % (hi - lo + 1); }
	long i(long lo, long hi) { return lo + long(r() % (unsigned long)(hi - lo + 1)); }
	double d(int m = 4) { return double(i(-m, m)); }
	// biased to small sizes first
	unsigned long sz(unsigned long hi) { unsigned long h = 1 + round / 8; return u(0, h < hi ? h : hi); }
	std::vector<unsigned long> perm(unsigned long n)
	{
		std::vector<unsigned long> p(n);
		for (unsigned long k = 0; k < n; ++k) p[k] = k;
		for (unsigned long k = n; k > 1; --k) std::swap(p[k - 1], p[u(0, k - 1)]);
		return p;
	}
};
template <class T> struct Gen { static T g(G& h) { return T(h.d()); } };
template <> struct Gen<Z> { static Z g(G& h) { double a = h.d(); return Z(a, h.d()); } };
struct In { // builds the description of the current input
	std::ostringstream o;
	In() { input() = ""; }
	template <class T> In& operator()(const char* n, const T& x) { o << n << "=" << x << " "; input() = o.str(); return *this; }
	template <class T> In& operator()(const char* n, const std::vector<T>& x)
	{
		o << n << "=[";
		for (size_t k = 0; k < x.size(); ++k) o << (k ? "," : "") << x[k];
		o << "] ";
		input() = o.str();
		return *this;
	}
};
struct Fail { std::string m; };
inline void fail(const std::string& m) { throw Fail { m }; }
template <class A, class B> void eq(const std::string& what, const A& got, const B& want)
{
	if (got == want) return;
	std::ostringstream o;
	o.precision(17);
	o << what << ": got " << got << ", expected " << want;
	fail(o.str());
}
inline void ok(const std::string& what, bool c) { if (!c) fail(what); }
inline void near(const std::string& what, double got, double want, double tol)
{
	if (std::isfinite(got) && std::fabs(got - want) <= tol) return;
	std::ostringstream o;
	o.precision(17);
	o << what << ": got " << got << ", expected " << want << " within " << tol;
	fail(o.str());
}
typedef std::function<void(G&)> F;
struct Ent { F f; unsigned long rounds; };
inline std::map<std::string, std::vector<Ent>>& reg() { static std::map<std::string, std::vector<Ent>> m; return m; }
struct Reg { Reg(const char* n, F f, unsigned long rounds = 400) { reg()[n].push_back({ f, rounds }); } };
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
// T(name, rounds) { ... uses h ... }
#define CHECK(name, rounds) \
	static void VH_CAT(chk_##name, __LINE__)(vh::G & h); \
	static vh::Reg VH_CAT(reg_##name, __LINE__)(#name, VH_CAT(chk_##name, __LINE__), rounds); \
	static void VH_CAT(chk_##name, __LINE__)(vh::G & h)
}
#ifndef VH_NOMAIN
int main(int argc, char** argv)
{
	using namespace vh;
	double secs = argc > 1 ? atof(argv[1]) : 10;
	const char* sd = getenv("VERIF_SEED");
	unsigned long seed = sd ? strtoul(sd, 0, 10) : 1;
	const char* ml = getenv("VERIF_TIER");
	unsigned long mul = (ml && !strcmp(ml, "thorough")) ? 20 : 1;
	signal(SIGABRT, onsig);
	signal(SIGFPE, onsig);
	signal(SIGSEGV, onsig);
	signal(SIGALRM, onsig);
	__sanitizer_set_death_callback(ondeath);
	if (argc == 2) {
		for (auto& e : reg()) printf("%s\n", e.first.c_str());
		return 0;
	}
	for (int a = 2; a < argc; ++a) {
		auto it = reg().find(argv[a]);
		if (it == reg().end()) {
			printf("no check named %s\n", argv[a]);
			return 0;
		}
		fname() = argv[a];
		unsigned long n = 0, ent = 0;
		for (auto& e : it->second) {
			++ent;
			auto t0 = std::chrono::steady_clock::now();
			for (unsigned long k = 0; k < e.rounds * mul; ++k) {
				alarm(90); // one input must not take this long
				G h;
				h.r.seed(seed * 1000003UL + k * 7919UL + ent * 104729UL);
				h.round = k;
				input() = "";
				try {
					// the code under test may chat on stdout/stderr
					std::cout.setstate(std::ios::failbit);
					std::cerr.setstate(std::ios::failbit);
					e.f(h);
				} catch (Fail& x) {
					dump(x.m.c_str());
					return 1;
				} catch (std::exception& x) {
					dump((std::string("unexpected exception: ") + x.what()).c_str());
					return 1;
				} catch (...) {
					dump("unexpected exception of unknown type");
					return 1;
				}
				++n;
				if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs / it->second.size()) break;
			}
		}
		printf("%s: %lu generated inputs, no failure\n", argv[a], n);
	}
	return 0;
}
#endif
#endif
