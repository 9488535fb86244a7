#include "Pthreads.h"
#include "h.h"
#include <mutex>
using namespace vh;
typedef std::vector<SizeType> VS;
struct Old {
	VS done;
	std::mutex m;
	void thread_function_(SizeType threadNum, SizeType blockSize, SizeType total, pthread_mutex_t*)
	{
		for (SizeType p = 0; p < blockSize; p++) {
			SizeType t = threadNum * blockSize + p;
			if (t >= total) break;
			std::lock_guard<std::mutex> l(m);
			done.push_back(t);
		}
	}
};
CHECK(par_old, 200)
{
	SizeType n = h.sz(40), nt = h.u(1, 8);
	In()("total", n)("threads", nt);
	Old o;
	PsimagLite::Pthreads<Old> p(nt);
	p.loopCreate(n, o);
	std::vector<int> c(n, 0);
	for (SizeType t : o.done) {
		ok("in range", t < n);
		++c[t];
	}
	for (SizeType t = 0; t < n; ++t) eq("times task ran", c[t], 1);
}
