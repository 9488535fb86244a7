// thread pools as the library is built (USE_PTHREADS)
#include "LoadBalancerMpi.h"
#include "LoadBalancerWeights.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
namespace vroot {
using namespace PsimagLite;
typedef std::vector<SizeType> VS;
struct Log {
	SizeType n;
	VS done;
	SizeType tasks() const { return n; }
	void doTask(SizeType t, SizeType) { done.push_back(t); }
};
typedef PthreadsNg<Log, LoadBalancerDefault> PD;
typedef PthreadsNg<Log, LoadBalancerWeights> PW;
void lb_weights(const VS& w, SizeType nthreads, LoadBalancerWeights& b) { b = LoadBalancerWeights(w, nthreads); }
void ng_default(PD& p, Log& log) { p.loopCreate(log); }
void ng_weights(PW& p, Log& log, const VS& w) { p.loopCreate(log, w); }
void par2(Parallelizer2<>& p, Log& log, SizeType start, SizeType end)
{
	p.parallelFor(start, end, [&log](SizeType i, SizeType t) { log.doTask(i, t); });
}
}
