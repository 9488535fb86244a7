// random number generators
// SRC: src/MersenneTwister.cpp
#define VH_RND
#include "h.h"
#include <cstdlib>
#define private public
#include "Vector.h"
#include "MersenneTwister.h"
#include "Random48.h"
#include "RandomForTests.h"
#undef private
using namespace vh;
struct Ref {
	uint64_t s[624];
	unsigned at;
	void seed(uint64_t x)
	{
		at = 0;
		s[0] = x;
		for (unsigned k = 1; k < 624; ++k) {
			uint64_t p = s[k - 1];
			s[k] = (1812433253ULL * (((p ^ (p >> 30)) + k) % 4294967296ULL)) % 4294967296ULL;
		}
	}
	uint64_t next()
	{
		if (at == 0)
			for (unsigned k = 0; k < 624; ++k) {
				uint64_t y = (s[k] / 2147483648ULL) * 2147483648ULL + s[(k + 1) % 624] % 2147483648ULL;
				s[k] = s[(k + 397) % 624] ^ (y / 2) ^ ((y & 1) ? 0x9908b0dfULL : 0);
			}
		uint64_t y = s[at];
		at = (at + 1) % 624;
		y ^= y >> 11;
		y ^= (y << 7) & 0x9d2c5680ULL;
		y ^= (y << 15) & 0xefc60000ULL;
		return y ^ (y >> 18);
	}
};
CHECK(mt, 40)
{
	unsigned seed = h.round == 0 ? 0 : h.round == 1 ? 0xffffffffU : h.round == 2 ? 1 : (unsigned)h.u(0, 0xffffffffU);
	size_t draws = h.round < 4 ? 2600 : h.u(1, 1400);
	int rank = h.round % 3 ? -1 : (int)h.u(0, 900);
	In()("seed", (size_t)seed)("rank (-1: one process)", rank)("draws", draws);
	Ref r;
	r.seed(seed);
	if (rank >= 0) {
		uint64_t v = r.next();
		for (int k = 1; k < rank; ++k) v = r.next();
		r.seed(v);
	}
	PsimagLite::MersenneTwister a = rank < 0 ? PsimagLite::MersenneTwister(seed) : PsimagLite::MersenneTwister(seed, rank, 1000);
	bool real = h.b();
	for (size_t k = 0; k < draws; ++k) {
		uint64_t w = r.next();
		if (real) {
			double d = a();
			ok("draw within [0,1]", d >= 0 && d <= 1);
			near("draw " + std::to_string(k), d, w / 4294967295.0, 1e-14);
		} else {
			eq("draw " + std::to_string(k), (size_t)a.random(), (size_t)w);
		}
	}
	a.seed(seed);
	r.seed(seed);
	for (size_t k = 0; k < 700; ++k) eq("draw after reseeding " + std::to_string(k), (size_t)a.random(), (size_t)r.next());
}
CHECK(rft, 300)
{
	int seed = h.round == 0 ? 1 : h.round == 1 ? 2147483646 : h.round == 2 ? 127773 : (int)h.u(1, 2147483646);
	In()("seed", seed);
	PsimagLite::RandomForTests<double> a(seed);
	uint64_t x = seed;
	for (size_t k = 0; k < 300; ++k) {
		x = (16807 * x) % 2147483647ULL;
		double d = a();
		ok("draw within (0,1)", d > 0 && d < 1);
		near("draw " + std::to_string(k), d, x / 2147483647.0, 1e-14);
	}
}
CHECK(r48, 100)
{
	long seed = (long)h.u(0, 1000000);
	size_t n = h.u(1, 5), rank = h.u(0, n - 1);
	In()("seed", seed)("processes", n)("rank", rank);
	PsimagLite::Random48<double> a(seed, rank, n);
	std::vector<double> v;
	for (int k = 0; k < 50; ++k) {
		double d = k % 2 ? a() : a.random();
		ok("draw within [0,1)", d >= 0 && d < 1);
		v.push_back(d);
	}
	PsimagLite::Random48<double> b(seed, rank, n);
	eq("seed", a.seed(), b.seed());
	for (int k = 0; k < 50; ++k) ok("same seed, same sequence", b() == v[k]);
}
