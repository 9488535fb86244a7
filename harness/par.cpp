// LINK: psimaglite
// SRC: src/Concurrency.cpp src/PsimagLite.cpp src/MpiNo.cpp
#include <algorithm>
#include <iostream>
#include <mutex>
#include <vector>
#include <sstream>
#include <map>
#include <complex>
#include <cassert>
#include <stdexcept>
#include <fstream>
#define private public
#include "InterNodeMpi.h"
#include "LoadBalancerMpi.h"
#undef private
#include "LoadBalancerDefault.h"
#include "LoadBalancerWeights.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "h.h"
using namespace vh;
using namespace PsimagLite;
typedef std::vector<SizeType> VS;
static void partition(const VS& done, SizeType lo, SizeType hi)
{
	std::vector<int> c(hi - lo, 0);
	for (SizeType t : done) {
		ok("task inside the range", t >= lo && t < hi);
		++c[t - lo];
	}
	for (SizeType t = lo; t < hi; ++t) eq("times task " + std::to_string(t) + " ran", c[t - lo], 1);
}
struct Log {
	SizeType n;
	VS done;
	std::mutex m;
	SizeType tasks() const { return n; }
	void doTask(SizeType t, SizeType)
	{
		std::lock_guard<std::mutex> l(m);
		done.push_back(t);
	}
};
CHECK(par_ng, 300)
{
	Log log;
	log.n = h.sz(40);
	SizeType nt = h.u(1, h.b() ? 4 : 12);
	In()("tasks", log.n)("threads", nt);
	CodeSectionParams cs(nt, 1, h.u(0, 3) == 0, h.u(0, 3) ? 0 : 65536);
	Parallelizer<Log> p(cs);
	p.loopCreate(log);
	partition(log.done, 0, log.n);
}
CHECK(par_weights, 300)
{
	Log log;
	log.n = h.sz(40);
	SizeType nt = h.u(1, h.b() ? 4 : 12);
	VS w(log.n);
	for (auto& x : w) x = h.u(0, h.b() ? 2 : 100);
	In()("tasks", log.n)("threads", nt)("w", w);
	CodeSectionParams cs(nt);
	PthreadsNg<Log, LoadBalancerWeights> p(cs);
	if (h.b()) p.loopCreate(log, w);
	else p.loopCreate(log);
	partition(log.done, 0, log.n);
}
CHECK(lb_weights, 400)
{
	SizeType n = h.sz(60), nt = h.u(1, 12);
	VS w(n);
	for (auto& x : w) x = h.u(0, h.b() ? 2 : 100);
	In()("threads", nt)("w", w);
	LoadBalancerWeights b(w, nt);
	VS done;
	for (SizeType t = 0; t < nt; ++t)
		for (SizeType p = 0; p < b.blockSize(t); ++p) done.push_back(b.taskNumber(t, p));
	partition(done, 0, n);
}
CHECK(par_par2, 300)
{
	SizeType s = h.u(0, 5), e = s + h.sz(40), nt = h.u(1, 12);
	In()("start", s)("end", e)("threads", nt);
	CodeSectionParams cs(nt, 1, false, h.u(0, 3) ? 0 : 65536);
	Parallelizer2<> p(cs);
	VS done;
	std::mutex m;
	p.parallelFor(s, e, [&](SizeType i, SizeType) { std::lock_guard<std::mutex> l(m); done.push_back(i); });
	partition(done, s, e);
}
CHECK(par_mpi, 600)
{
	SizeType s = h.u(0, 5), e = s + h.sz(40), np = h.u(1, 12);
	In()("start", s)("end", e)("processes", np);
	VS done;
	InterNode<> node(PsimagLite::MPI::COMM_WORLD);
	for (SizeType r = 0; r < np; ++r) {
		node.mpiSize_ = np;
		node.mpiRank_ = r;
		node.parallelFor(s, e, [&](SizeType i, SizeType) { done.push_back(i); });
	}
	partition(done, s, e);
}
CHECK(lb_default, 400)
{
	SizeType n = h.sz(60), nt = h.u(1, 12);
	In()("tasks", n)("threads", nt);
	LoadBalancerDefault b(n, nt);
	VS done;
	for (SizeType t = 0; t < std::min(nt, n ? n : nt); ++t)
		for (SizeType p = 0; p < b.blockSize(t); ++p) {
			SizeType x = b.taskNumber(t, p);
			if (x >= n) break;
			done.push_back(x);
		}
	partition(done, 0, n);
}
