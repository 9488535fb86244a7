#include "PsiBase64.h"
#include "PsiBase64.cpp"
#include "BitManip.h"
namespace vroot {
using namespace PsimagLite;
void b64_encode(const String& s, String& t) { PsiBase64::Encode e(s); t = e(); }
void b64_decode(const String& t, String& d) { PsiBase64::Decode e(t); d = e(); }
int bit_count(unsigned long w) { return BitManip::count(w); }
SizeType bit_countKernighan(unsigned long w) { return BitManip::countKernighan(w); }
}
