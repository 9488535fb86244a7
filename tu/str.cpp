#include "PsimagLite.cpp"
namespace vroot {
using namespace PsimagLite;
typedef std::vector<String> Strings;
void s_split(Strings& tokens, const String& str, const String& delims) { split(tokens, str, delims); }
void s_splitDefault(Strings& tokens, const String& str) { split(tokens, str); }
void s_replaceAll(String& str, const String& from, const String& to) { replaceAll(str, from, to); }
String s_basename(const String& path) { return PsimagLite::basename(path); }
bool s_sep(char c) { return MatchPathSeparator()(c); }
String s_basenameOf(const String& s) { return basenameOf(s); }
bool s_isAnInteger(const String& s) { return isAnInteger(s); }
bool s_isAfloat(const String& s) { return isAfloat(s); }
int s_atoi(const String& s) { return PsimagLite::atoi(s); }
double s_atof(const String& s) { return PsimagLite::atof(s); }
SizeType s_div(SizeType a, SizeType b) { return integerDivision(a, b); }
SizeType s_bits(SizeType x) { return log2Integer(x); }
}
