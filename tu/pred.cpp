#include "PsimagLite.cpp"
#include "Vector.h"
#include <algorithm>
#include "PredicateSimple.cpp"
#include "PredicateAwesome.h"
#include "OneOperatorSpec.h"
#include "GetBraOrKet.h"
#include "Options.h"
#include "QuasiCanonical.h"
namespace vroot {
using namespace PsimagLite;
typedef std::vector<String> Strings;
typedef std::vector<double> Vd;
OneOperatorSpec::SiteSplit p_site(const String& name, char cBegin, char cEnd) { return OneOperatorSpec::extractSiteIfAny(name, cBegin, cEnd); }
OneOperatorSpec p_spec(const String& s) { return OneOperatorSpec(s); }
bool p_nonneg(const String& s) { return OneOperatorSpec::isNonNegativeInteger(s); }
SizeType p_number(const String& s) { return OneOperatorSpec::strToNumberOrFail(s); }
SizeType p_numberFrom(String& str, SizeType start) { return GetBraOrKet::getNumberFrom(str, start); }
GetBraOrKet p_bra(const String& s) { return GetBraOrKet(s); }
SizeType p_level(const GetBraOrKet& g) { return g.levelIndex(); }
SizeType p_sector(const GetBraOrKet& g) { return g.sectorIndex(); }
SizeType p_pIndex(const GetBraOrKet& g) { return g.pIndex(); }
bool p_isP(const GetBraOrKet& g) { return g.isPvector(); }
bool p_isR(const GetBraOrKet& g) { return g.isRvector(); }
bool p_isSet(const Options::Readable& r, const String& s) { return r.isSet(s); }
void p_set(Options::Writeable& w, Strings& set, const String& opts) { w.set(set, opts); }
SizeType p_opLength(const String& op) { return PredicateSimple::operatorLength(op); }
PredicateSimple p_simple(const String& pred, const String& sep) { return PredicateSimple(pred, sep); }
bool p_compare(SizeType a, const String& op, SizeType b) { return PredicateSimple::compareOnOp<SizeType>(a, op, b); }
bool p_compareReal(const double& a, const String& op, const double& b) { return PredicateSimple::compareOnOp<double>(a, op, b); }
String p_value(const String& hs, const String& name, SizeType val) { return PredicateSimple::replaceVariable(hs, name, val); }
bool p_and1(PredicateAnd& p, const String& n, SizeType v) { return p.isTrue(n, v); }
bool p_and2(PredicateAnd& p, const String& n1, SizeType v1, const String& n2, SizeType v2) { return p.isTrue(n1, v1, n2, v2); }
bool p_and3(PredicateAnd& p, const String& n1, SizeType v1, const String& n2, SizeType v2, const String& n3, SizeType v3) { return p.isTrue(n1, v1, n2, v2, n3, v3); }
bool p_and4(PredicateAnd& p, const String& n1, SizeType v1, const String& n2, SizeType v2, const String& n3, SizeType v3, const String& n4, SizeType v4) { return p.isTrue(n1, v1, n2, v2, n3, v3, n4, v4); }
bool p_or1(PredicateAwesome<>& p, const String& n, SizeType v) { return p.isTrue(n, v); }
bool p_or2(PredicateAwesome<>& p, const String& n1, SizeType v1, const String& n2, SizeType v2) { return p.isTrue(n1, v1, n2, v2); }
bool p_or3(PredicateAwesome<>& p, const String& n1, SizeType v1, const String& n2, SizeType v2, const String& n3, SizeType v3) { return p.isTrue(n1, v1, n2, v2, n3, v3); }
bool p_or4(PredicateAwesome<>& p, const String& n1, SizeType v1, const String& n2, SizeType v2, const String& n3, SizeType v3, const String& n4, SizeType v4) { return p.isTrue(n1, v1, n2, v2, n3, v3, n4, v4); }
String p_values(const String& hs, const Strings& names, const std::vector<SizeType>& vals) { return PredicateSimple::replaceVariables(hs, names, vals); }
bool p_simpleTrue(PredicateSimple& p, const Strings& names, const std::vector<SizeType>& vals) { return p.isTrue(names, vals); }
typedef QuasiCanonical<double> Quasi;
bool p_real(const String& s) { return Quasi::isRealScalar(s); }
bool p_imag(const String& s) { return Quasi::isPureComplex(s); }
int p_scalar(const Quasi& q, const String& s) { return q.scalarIndex(s); }
double p_plus(const Plus<Vd>& o, const Vd& v) { return o.exec(v); }
double p_minus(const Minus<Vd>& o, const Vd& v) { return o.exec(v); }
double p_times(const Times<Vd>& o, const Vd& v) { return o.exec(v); }
double p_divided(const DividedBy<Vd>& o, const Vd& v) { return o.exec(v); }
double p_ternary(const TernaryOp<Vd>& o, const Vd& v) { return o.exec(v); }
double p_modulus(const Modulus<Vd>& o, const Vd& v) { return o.exec(v); }
PredicateAnd p_mkAnd(const String& pred, const String& sep) { return PredicateAnd(pred, sep); }
PredicateAwesome<> p_mkOr(const String& pred, const String& orSep, const String& andSep) { return PredicateAwesome<>(pred, orSep, andSep); }
SizeType p_getValue(PredicateSimple& p, const String& hs, const Strings& names, const std::vector<SizeType>& vals) { return p.getValue(hs, names, vals); }
}
