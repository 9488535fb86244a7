#include "Sort.h"
namespace vroot {
using namespace PsimagLite;
typedef std::vector<SizeType> VS;
typedef std::vector<int> VI;
typedef std::vector<double> VD;
void sort_size(VS& x, VS& iperm) { Sort<VS> s; s.sort(x, iperm); }
void sort_int(VI& x, VS& iperm) { Sort<VI> s; s.sort(x, iperm); }
void sort_double(VD& x, VS& iperm) { Sort<VD> s; s.sort(x, iperm); }
void sort_small(VS& x, VS& iperm, SizeType n) { Sort<VS> s; s.sort(x, iperm, n); }
}
