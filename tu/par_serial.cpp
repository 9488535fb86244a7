#include "InterNodeSerial.h"
#include "LoadBalancerWeights.h"
#include "NoPthreadsNg.h"
#include "Parallelizer2Serial.h"
namespace vroot {
using namespace PsimagLite;
typedef std::vector<SizeType> VS;
struct Log {
	SizeType n;
	VS done;
	SizeType tasks() const { return n; }
	void doTask(SizeType t, SizeType) { done.push_back(t); }
};
typedef NoPthreadsNg<Log, LoadBalancerDefault> PD;
typedef NoPthreadsNg<Log, LoadBalancerWeights> PW;
void nong_default(PD& p, Log& log) { p.loopCreate(log); }
void nong_weights(PW& p, Log& log, const VS& w) { p.loopCreate(log, w); }
void par2_serial(Parallelizer2<>& p, Log& log, SizeType start, SizeType end)
{
	p.parallelFor(start, end, [&log](SizeType i, SizeType t) { log.doTask(i, t); });
}
void internode_serial(InterNode<>& p, Log& log, SizeType start, SizeType end)
{
	p.parallelFor(start, end, [&log](SizeType i, SizeType t) { log.doTask(i, t); });
}
}
