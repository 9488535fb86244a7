#include "Pthreads.h"
#include "NoPthreads.h"
#include <vector>
namespace vroot {
using namespace PsimagLite;
typedef std::vector<SizeType> VS;
// a client of the deprecated interface, written the way the library's own clients do it
struct Log {
	VS done;
	void thread_function_(SizeType threadNum, SizeType blockSize, SizeType total, pthread_mutex_t*)
	{
		for (SizeType p = 0; p < blockSize; p++) {
			SizeType t = threadNum * blockSize + p;
			if (t >= total) break;
			done.push_back(t);
		}
	}
};
void old_pthreads(Pthreads<Log>& p, Log& log, SizeType total) { p.loopCreate(total, log); }
void old_nopthreads(NoPthreads<Log>& p, Log& log, SizeType total) { p.loopCreate(total, log); }
}
