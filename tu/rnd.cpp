#include "Vector.h"
#include "MersenneTwister.h"
#include "MersenneTwister.cpp"
#include "RandomForTests.h"
namespace vroot {
using namespace PsimagLite;
void mt_seed(MersenneTwister& m, unsigned s) { m.seed(s); }
void mt_generate(MersenneTwister& m) { m.generate(); }
unsigned mt_random(MersenneTwister& m) { return m.random(); }
double mt_real(MersenneTwister& m) { return m(); }
unsigned mt_first(unsigned s) { MersenneTwister m(s); return m.random(); }
double rft_next(RandomForTests<double>& r) { return r(); }
}
