// base64 and bit counts
#include "h.h"
#include "PsiBase64.h"
#include "PsiBase64.cpp"
#include "BitManip.h"
using namespace vh;
static std::string oracle(const std::string& s)
{
	static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string out;
	for (size_t k = 0; k < s.size(); k += 3) {
		unsigned v = 0;
		for (size_t q = 0; q < 3; ++q) v = v * 256 + (k + q < s.size() ? (unsigned char)s[k + q] : 0);
		for (size_t q = 0; q < 4; ++q) out += (k + q <= s.size() ? std::string(1, A[(v >> (18 - 6 * q)) & 63]) : std::string("="));
	}
	return out;
}
CHECK(b64_roundtrip, 4000)
{
	std::string s;
	size_t n = h.u(0, 1 + h.round / 16 > 300 ? 300 : 1 + h.round / 16);
	int mode = (int)h.u(0, 3);
	for (size_t k = 0; k < n; ++k) s += char(mode == 0 ? h.u(0, 255) : (mode == 1 ? 0 : (mode == 2 ? 255 : h.u(200, 255))));
	if (h.round < 65536 / 16) {
		// sweep all triples of a sort
		s += char(h.round & 255);
		s += char((h.round * 37) & 255);
	}
	std::vector<int> codes(s.begin(), s.end());
	In()("bytes", codes);
	PsimagLite::String t = PsimagLite::PsiBase64::Encode(s)();
	eq("encoded text", t, oracle(s));
	PsimagLite::String t2 = PsimagLite::PsiBase64::Encode(reinterpret_cast<const unsigned char*>(s.data()), (unsigned)s.size())();
	eq("encoded text (bytes and length)", t2, oracle(s));
	PsimagLite::String d = PsimagLite::PsiBase64::Decode(t)();
	ok("decoding gives the bytes back", d == s);
}
CHECK(bits, 20000)
{
	unsigned long w = h.r();
	int m = (int)h.u(0, 5);
	if (m == 0) w &= h.r() & h.r();
	if (m == 1) w |= h.r() | h.r();
	if (m == 2) w = 1UL << h.u(0, 63);
	if (m == 3) w = ~(1UL << h.u(0, 63));
	if (h.round < 130) w = h.round < 65 ? (h.round == 64 ? ~0UL : (1UL << h.round) - 1) : h.round - 65;
	In()("word", w);
	eq("count", PsimagLite::BitManip::count(w), __builtin_popcountl(w));
	eq("countKernighan", (int)PsimagLite::BitManip::countKernighan(w), __builtin_popcountl(w));
}
