#include "Vector.h"
#include "Permutations.h"
#include "PackIndices.h"
#include "SumDecomposition.h"
namespace vroot {
using namespace PsimagLite;
typedef std::vector<SizeType> VS;
typedef Permutations<VS> PermT;
bool perm_increase(PermT& p) { return p.increase(); }
void perm_start(const VS& v, VS& out) { PermT p(v); out = p.data_; }
void pack_unpack(SizeType n, SizeType ind, SizeType& x, SizeType& y) { PackIndices p(n); p.unpack(x, y, ind); }
SizeType pack_pack(SizeType n, SizeType x, SizeType y, const VS& inv) { PackIndices p(n); return p.pack(x, y, inv); }
void sum_rec(SumDecomposition& s, VS& data, SizeType n, SizeType x) { s.reentrant1_(data, n, x); }
void sum_all(SizeType total, SizeType sum, std::vector<VS>& out, SizeType& size) { SumDecomposition s(total, sum); out = s.data_; size = s.size(); }
}
