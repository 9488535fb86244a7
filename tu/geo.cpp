#include "Matrix.h"
#include "InputNg.h"
#include "Io/IoNg.h"
#include "Geometry/Geometry.h"
namespace vroot {
using namespace PsimagLite;
struct Mock {
	String& prefix();
	int version() const;
	void readline(SizeType&, const String&);
	void readline(int&, const String&);
	void readline(double&, const String&);
	void readline(String&, const String&, bool = true);
	void read(std::vector<double>&, const String&);
	void read(Matrix<double>&, const String&);
};
struct Pg { enum class ConnectionEnum { SYSTEM_SYSTEM, SYSTEM_ENVIRON, ENVIRON_SYSTEM, ENVIRON_ENVIRON }; };
typedef LongChain<double, Mock> Chain;
typedef Ladder<double, Mock> Lad;
typedef LadderX<double, Mock> LadX;
typedef LadderBath<double, Mock> LadB;
typedef KTwoNiFFour<double, Mock> K2;
typedef Star<double, Mock> St;
typedef LongRange<double, Mock> LR;
typedef Honeycomb<double, Mock> Hc;
typedef Geometry<double, Mock, Pg> Geo;
#define GRAPH(p, G) \
bool p##_con(const G& g, SizeType i, SizeType j) { return g.connected(i, j); } \
bool p##_sym(const G& g, SizeType i, SizeType j) { return g.connected(i, j) == g.connected(j, i); } \
SizeType p##_dir(const G& g, SizeType i, SizeType j) { return g.calcDir(i, j); } \
SizeType p##_dirs(const G& g) { return g.dirs(); }
#define HANDLE(p, G) \
SizeType p##_han(const G& g, SizeType i, SizeType j) { return g.handle(i, j); } \
bool p##_hsym(const G& g, SizeType i, SizeType j) { return g.handle(i, j) == g.handle(j, i); } \
bool p##_room(const G& g, SizeType i, SizeType j) { return g.handle(i, j) < g.getVectorSize(g.calcDir(i, j)); } \
bool p##_inj(const G& g, SizeType i, SizeType j, SizeType k, SizeType l) { return g.calcDir(i, j) != g.calcDir(k, l) || g.handle(i, j) != g.handle(k, l); } \
SizeType p##_num(const G& g, SizeType d) { return g.getVectorSize(d); }
#define MOVE(p, G) \
SizeType p##_ref(const G& g, SizeType s) { return g.findReflection(s); } \
SizeType p##_ref2(const G& g, SizeType s) { return g.findReflection(g.findReflection(s)); } \
bool p##_refcon(const G& g, SizeType i, SizeType j) { return g.connected(g.findReflection(i), g.findReflection(j)) == g.connected(i, j); } \
SizeType p##_tr(const G& g, SizeType s, SizeType d, SizeType a) { return g.translate(s, d, a); } \
bool p##_trinj(const G& g, SizeType i, SizeType j, SizeType d, SizeType a) { return g.translate(i, d, a) == g.translate(j, d, a); } \
bool p##_trcon(const G& g, SizeType i, SizeType j, SizeType d, SizeType a) { return g.connected(g.translate(i, d, a), g.translate(j, d, a)) == g.connected(i, j); } \
SizeType p##_len(const G& g, SizeType d) { return g.length(d); }
GRAPH(chain, Chain) HANDLE(chain, Chain) MOVE(chain, Chain)
GRAPH(lad, Lad) HANDLE(lad, Lad) MOVE(lad, Lad)
GRAPH(ladx, LadX) HANDLE(ladx, LadX)
GRAPH(star, St) HANDLE(star, St)
GRAPH(hc, Hc)
GRAPH(k2, K2)
bool hc_one(const Hc& g, SizeType i, SizeType j, SizeType k) { return g.connected(i, j) && g.connected(i, k) && g.calcDir(i, j) == g.calcDir(i, k); }
int k2_index(const K2& g, SizeType i, SizeType o) { return g.index(i, o, 2); }
bool k2_idist(const K2& g, SizeType i, SizeType o, SizeType j, SizeType p) { return g.index(i, o, 2) == g.index(j, p, 2); }
SizeType k2_rank(const K2& g) { return g.matrixRank(0, 0); }
SizeType k2_orb(const K2& g, SizeType n, SizeType s) { return g.orbitals(n, s); }
int k2_sign(const K2& g, SizeType i, SizeType j) { return g.signChange(i, j); }
SizeType lr_dir(const LR& g, SizeType i, SizeType j) { return g.calcDir(i, j); }
bool lr_con(const LR& g, SizeType i, SizeType j) { return g.connected(i, j); }
SizeType lr_ref(const LR& g, SizeType s) { return g.findReflection(s); }
SizeType lr_ref2(const LR& g, SizeType s) { return g.findReflection(g.findReflection(s)); }
SizeType lr_tr(const LR& g, SizeType s, SizeType d, SizeType a) { return g.translate(s, d, a); }
bool lr_trinj(const LR& g, SizeType i, SizeType j, SizeType d, SizeType a) { return g.translate(i, d, a) == g.translate(j, d, a); }
SizeType lr_len(const LR& g, SizeType d) { return g.length(d); }
#define B(p, T, f) T p(LadB& g, Lad& l, SizeType i, SizeType j) { g.ladder_ = &l; f; }
SizeType bath_dirs(const LadB& g, Lad& l) { return g.dirs(); }
B(bath_con, bool, return g.connected(i, j))
B(bath_sym, bool, return g.connected(i, j) == g.connected(j, i))
B(bath_dir, SizeType, return g.calcDir(i, j))
B(bath_han, SizeType, return g.handle(i, j))
B(bath_hsym, bool, return g.handle(i, j) == g.handle(j, i))
B(bath_room, bool, return g.handle(i, j) < g.getVectorSize(g.calcDir(i, j)))
bool bath_inj(LadB& g, Lad& l, SizeType i, SizeType j, SizeType k, SizeType m) { g.ladder_ = &l; return g.calcDir(i, j) != g.calcDir(k, m) || g.handle(i, j) != g.handle(k, m); }
void g_split(const Geo& g, SizeType spb, std::vector<SizeType>& S, std::vector<std::vector<SizeType>>& X, std::vector<std::vector<SizeType>>& Y, std::vector<SizeType>& E, bool all) { g.split(spb, S, X, Y, E, all); }
int g_kind(const Geo& g, SizeType smax, SizeType i, SizeType j) { return int(g.connectionKind(smax, i, j)); }
}
