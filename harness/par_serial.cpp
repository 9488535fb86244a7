#include "InterNodeSerial.h"
#include "LoadBalancerWeights.h"
#include "NoPthreadsNg.h"
#include "Parallelizer2Serial.h"
#include "NoPthreads.h"
#include "h.h"
using namespace vh;
using namespace PsimagLite;
typedef std::vector<SizeType> VS;
static void partition(const VS& done, SizeType lo, SizeType hi)
{
	std::vector<int> c(hi - lo, 0);
	for (SizeType t : done) {
		ok("task inside the range", t >= lo && t < hi);
		++c[t - lo];
	}
	for (SizeType t = lo; t < hi; ++t) eq("times task " + std::to_string(t) + " ran", c[t - lo], 1);
}
struct Log {
	SizeType n;
	VS done;
	SizeType tasks() const { return n; }
	void doTask(SizeType t, SizeType) { done.push_back(t); }
};
struct Old {
	VS done;
	void thread_function_(SizeType threadNum, SizeType blockSize, SizeType total, pthread_mutex_t*)
	{
		for (SizeType p = 0; p < blockSize; p++) {
			SizeType t = threadNum * blockSize + p;
			if (t >= total) break;
			done.push_back(t);
		}
	}
};
CHECK(par_serial, 400)
{
	Log log;
	log.n = h.sz(40);
	SizeType s = h.u(0, 5), nt = 1;
	VS w(log.n);
	for (auto& x : w) x = h.u(0, 9);
	In()("tasks", log.n)("start", s)("threads", nt)("w", w);
	CodeSectionParams cs(nt);
	NoPthreadsNg<Log, LoadBalancerDefault> a(cs);
	a.loopCreate(log);
	partition(log.done, 0, log.n);
	log.done.clear();
	NoPthreadsNg<Log, LoadBalancerWeights> b(cs);
	b.loopCreate(log, w);
	partition(log.done, 0, log.n);
	VS d;
	Parallelizer2<> p(cs);
	p.parallelFor(s, s + log.n, [&](SizeType i, SizeType) { d.push_back(i); });
	partition(d, s, s + log.n);
	d.clear();
	InterNode<> q(0);
	q.parallelFor(s, s + log.n, [&](SizeType i, SizeType) { d.push_back(i); });
	partition(d, s, s + log.n);
	Old o;
	NoPthreads<Old> np(nt);
	np.loopCreate(log.n, o);
	partition(o.done, 0, log.n);
}
