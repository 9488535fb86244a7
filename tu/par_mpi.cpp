#include "MpiNo.cpp"
#include "InterNodeMpi.h"
namespace vroot {
using namespace PsimagLite;
typedef std::vector<SizeType> VS;
struct Log {
	SizeType n;
	VS done;
	SizeType tasks() const { return n; }
	void doTask(SizeType t, SizeType) { done.push_back(t); }
};
void internode_mpi(InterNode<>& p, Log& log, SizeType start, SizeType end)
{
	p.parallelFor(start, end, [&log](SizeType i, SizeType t) { log.doTask(i, t); });
}
}
