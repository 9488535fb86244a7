"""Lattices: neighbours, directions, handles (P08), reflections, translations and blocks (P09)."""
from contracts.lib import *
from contracts.matrix import IMUL, IDX, IMUL_AX, IMUL_LEM
TU = 'geo.cpp'
Q, M = z3.Function('idiv', I, I, I), z3.Function('imod', I, I, I)
x, y, l, a, q = z3.Ints('gx gy gl ga gq')
ok = all_(l > 0, x >= 0)
oky = all_(ok, y >= 0)
# C++ division of natural numbers, and products
DEF = [z3.ForAll([x, l], imp(ok, all_(x == M(x, l) + IMUL(Q(x, l), l), 0 <= M(x, l), M(x, l) < l, Q(x, l) >= 0)), patterns=[t]) for t in (Q(x, l), M(x, l))]
SUCC = z3.ForAll([x, y, l], imp(x == y + 1, IMUL(x, l) == IMUL(y, l) + l), patterns=[z3.MultiPattern(IMUL(x, l), IMUL(y, l))])
IDXDEF = z3.ForAll([a, q, l], IDX(a, q, l) == a + IMUL(q, l), patterns=[IDX(a, q, l)])
LEM = IMUL_LEM + [Lemma('products of integers: successor', lambda: ([x, y, l], imp(x == y + 1, x * l == y * l + l), None), only_prove=True)]
def L(name, vs, body, pats, **kw):
    return Lemma('division: ' + name, lambda: (vs, body, pats), local=IMUL_AX + [SUCC, IDXDEF] + DEF, only_local=True, **kw)
QX, QY, MX, MY = Q(x, l), Q(y, l), M(x, l), M(y, l)
def pair(f): return [[QX, QY], [QX, MY], [MX, MY]] if f else [[QX, QY]]
def at_(ax, *ts):
    "the universally quantified fact at given terms"
    return z3.substitute_vars(ax.body(), *reversed(ts))
STEPAX = IMUL_AX[3]
D_UNIQ = L('unique', [a, q, l], imp(all_(l > 0, q >= 0, 0 <= a, a < l), all_(Q(IDX(a, q, l), l) == q, M(IDX(a, q, l), l) == a)), [IDX(a, q, l)])
D_SMALL = L('below the divisor', [x, l], imp(ok, (QX == 0) == (x < l)), [QX])
D_SMALLM = L('remainder below the divisor', [x, l], imp(all_(ok, x < l), all_(MX == x, QX == 0)), [MX])
D_NEXT = L('consecutive quotients', [x, y, l], imp(oky, all_(imp(QX == QY + 1, x - y == MX - MY + l), imp(QX == QY, x - y == MX - MY), imp(QX < QY, x < y))), [[QX, QY]])
D_STEP = L('one divisor apart', [x, y, l], imp(all_(oky, x == y + l), all_(MX == MY, QX == QY + 1)), [[MX, MY], [QX, QY]], here=[D_UNIQ.inst(None, None, ga=MY, gq=QY + 1), at_(SUCC, QY + 1, QY, l), at_(IDXDEF, MY, QY + 1, l), at_(DEF[0], y, l)])
D_CYC = L('remainders of close numbers', [x, y, l], imp(all_(oky, x - y < l, y - x < l), z3.Or(MX - MY == x - y, MX - MY == x - y - l, MX - MY == x - y + l)), [[MX, MY]], here=[at_(STEPAX, QX, QY, l), at_(STEPAX, QY, QX, l), at_(STEPAX, QX, QY + 1, l), at_(STEPAX, QY, QX + 1, l), at_(STEPAX, QX + 1, QY, l), at_(STEPAX, QY + 1, QX, l), at_(SUCC, QX, QY, l), at_(SUCC, QY, QX, l), at_(SUCC, QX + 1, QX, l), at_(SUCC, QY + 1, QY, l), at_(DEF[0], x, l), at_(DEF[0], y, l)])
SLOPE = z3.ForAll([x, y, l], imp(all_(x < y, l >= 1), IMUL(y, l) - IMUL(x, l) >= y - x + l - 1), patterns=[z3.MultiPattern(IMUL(x, l), IMUL(y, l))])
LEM += [Lemma('products of integers: slope', lambda: ([x, y, l], imp(all_(x < y, l >= 1), y * l - x * l >= y - x + l - 1), None), only_prove=True)]
D_COL = L('numbers not at the end of a block', [x, y, l], imp(all_(oky, x < y, MX <= l - 2), x - QX < y - QY), [[QX, QY]], here=[at_(SLOPE, QX, QY, l), at_(DEF[0], x, l), at_(DEF[0], y, l), at_(STEPAX, QY, QX, l)])
DL = LEM + [D_UNIQ, D_SMALL, D_SMALLM, D_NEXT, D_STEP, D_CYC, D_COL]
AXD = IMUL_AX + [SUCC, IDXDEF] + DEF
BIG = 1 << 62
def con(P, root, hf, title, ax=(), **kw):
    contract(P, 'vroot::' + root, tu=TU, title=title, opts=dict(imul=True, hfuncs=[hf]), axioms=AXD + list(ax), lemmas=DL, **kw)
df = lambda u, v: z3.If(u < v, v - u, u - v)
def nb(u, v, per, n): return z3.Or(df(u, v) == 1, all_(per, df(u, v) == n - 1))
mn = lambda u, v: z3.If(u < v, u, v)
mx = lambda u, v: z3.If(u < v, v, u)
def graph(p, hf, kind, wf, size, bond, direc, dirs, ij=('i', 'j'), P='P08', hfun=None, num=None, **kw):
    """bond(g,i,j), direc(g,i,j): the mathematical definition of the lattice"""
    g = lambda c: c['g']
    i, j = (lambda c: c['i']), (lambda c: c['j'])
    sites = lambda c: wf(c) + [c['i'] < size(c), c['j'] < size(c)]
    joined = lambda c: sites(c) + [bond(c, c['i'], c['j'])]
    con(P, p + '_con', hf, kind + ': which sites are neighbours', pre=sites, post=lambda c: [('definition', c.result == bond(c, c['i'], c['j'])), ('no self loops', imp(c['i'] == c['j'], z3.Not(c.result)))], **kw)
    con(P, p + '_sym', hf, kind + ': neighbourhood is symmetric', pre=sites, post=lambda c: [('symmetric', c.result)], **kw)
    con(P, p + '_dirs', hf, kind + ': number of directions', pre=wf, post=lambda c: [('number', c.result == dirs)], **kw)
    con(P, p + '_dir', hf, kind + ': direction of a bond', pre=joined, post=lambda c: [('direction', c.result == direc(c, c['i'], c['j'])), ('one of the directions', c.result < dirs), ('order of the sites', direc(c, c['i'], c['j']) == direc(c, c['j'], c['i']))], **kw)
    if hfun:
        con(P, p + '_han', hf, kind + ': handle of a bond', pre=joined, post=lambda c: [('handle', c.result == hfun(c, c['i'], c['j']))], **kw)
        con(P, p + '_hsym', hf, kind + ': the handle does not depend on the order of the sites', pre=joined, post=lambda c: [('symmetric', c.result)], **kw)
        con(P, p + '_room', hf, kind + ': handles lie within the announced number', pre=joined, post=lambda c: [('in range', c.result)], **kw)
        k, m = ij if ij != ('i', 'j') else ('k', 'l')
        con(P, p + '_inj', hf, kind + ': bonds of one direction have distinct handles', post=lambda c: [('distinct', c.result)],
            pre=lambda c: joined(c) + [c[k] < size(c), c[m] < size(c), bond(c, c[k], c[m]), c['i'] < c['j'], c[k] < c[m], z3.Or(c['i'] != c[k], c['j'] != c[m])], **kw)
# ---- chain
cw = lambda c: [c['g'].linSize_ < BIG, c['g'].distance_ >= 1, c['g'].distance_ < c['g'].linSize_]
N_ = lambda c: c['g'].linSize_
def cbond(c, i, j): return z3.Or(df(i, j) == c['g'].distance_, all_(c['g'].isPeriodic_, df(i, j) == N_(c) - c['g'].distance_))
def chan(c, i, j): return z3.If(all_(c['g'].isPeriodic_, df(i, j) != c['g'].distance_), mx(i, j), mn(i, j))
graph('chain', 'g_chain', 'chain', cw, N_, cbond, lambda c, i, j: z3.IntVal(0), 1, hfun=chan)
con('P08', 'chain_num', 'g_chain', 'chain: announced number of bonds', pre=lambda c: cw(c) + [c['d'] == 0], post=lambda c: [('number', c.result == z3.If(c['g'].isPeriodic_, N_(c), N_(c) - c['g'].distance_))])
# ---- ladder
def lw_(g): return [g.linSize_ < BIG, g.leg_ >= 1, g.linSize_ >= 1, M(g.linSize_, g.leg_) == 0, Q(g.linSize_, g.leg_) >= 1, imp(g.leg_ <= 2, z3.Not(g.isPeriodicY_)), imp(g.isPeriodicX_, Q(g.linSize_, g.leg_) >= 2)]
lw = lambda c: lw_(c['g'])
def lbond_(g, i, j):
    t, n = g.leg_, g.linSize_
    return all_(i != j, z3.Or(all_(Q(i, t) == Q(j, t), nb(M(i, t), M(j, t), g.isPeriodicY_, t)), all_(M(i, t) == M(j, t), nb(Q(i, t), Q(j, t), g.isPeriodicX_, Q(n, t)))))
def ldir_(g, i, j): return z3.If(Q(i, g.leg_) == Q(j, g.leg_), z3.IntVal(1), z3.IntVal(0))
def lhan_(g, i, j):
    t, n = g.leg_, g.linSize_
    u, v = mn(i, j), mx(i, j)
    return z3.If(Q(i, t) == Q(j, t), z3.If(g.isPeriodicY_, z3.If(all_(M(u, t) == 0, M(v, t) == t - 1), v, u), u - Q(u, t)), z3.If(all_(g.isPeriodicX_, Q(u, t) == 0, Q(v, t) == Q(n, t) - 1), v, u))
lbond, ldir, lhan = [lambda c, i, j, f=f: f(c['g'], i, j) for f in (lbond_, ldir_, lhan_)]
graph('lad', 'g_ladder', 'ladder', lw, N_, lbond, ldir, 2, hfun=lhan)
def lnum_(g, d): return z3.If(d == 0, z3.If(g.isPeriodicX_, g.linSize_, g.linSize_ - g.leg_), z3.If(g.isPeriodicY_, g.linSize_, g.linSize_ - Q(g.linSize_, g.leg_)))
con('P08', 'lad_num', 'g_ladder', 'ladder: announced number of bonds', pre=lw, throws=lambda c: c['d'] > 1, post=lambda c: [('number', c.result == lnum_(c['g'], c['d']))])
# ---- star
sw = lambda c: [N_(c) >= 2, N_(c) < BIG]
graph('star', 'g_star', 'star', sw, N_, lambda c, i, j: all_(i != j, z3.Or(i == 1, j == 1)), lambda c, i, j: z3.IntVal(0), 1, hfun=lambda c, i, j: mx(i, j) - 1)
con('P08', 'star_num', 'g_star', 'star: announced number of bonds', pre=sw, throws=lambda c: c['d'] != 0, post=lambda c: [('number', c.result == N_(c) - 1)])
# ---- two legs with diagonals: a bond between adjacent columns for each pair of sites
IMUL2 = z3.ForAll([x, l], imp(l == 2, IMUL(x, l) == x + x), patterns=[IMUL(x, l)])
LEM += [Lemma('products of integers: two', lambda: ([x, l], imp(l == 2, x * l == x + x), None), only_prove=True)]
LEM += [Lemma('products of integers: unit', lambda: ([x, l], all_(imp(x == 1, x * l == l), imp(x == 0, x * l == 0)), None), only_prove=True)]
LEM += [Lemma('products of integers: double', lambda: ([x, y, l], imp(x == y + y, x * l == y * l + y * l), None), only_prove=True)]
LEM += [Lemma('products of integers: unit', lambda: ([x, l], all_(imp(x == 1, x * l == l), imp(x == 0, x * l == 0)), None), only_prove=True)]
LEM += [Lemma('products of integers: double', lambda: ([x, y, l], imp(x == y + y, x * l == y * l + y * l), None), only_prove=True)]
def xw(c):
    g = c['g']
    return [g.linSize_ == g.ladder_.linSize_, g.leg_ == 2, g.ladder_.leg_ == 2] + lw_(g.ladder_)
def diag(c, i, j): return all_(M(i, c['g'].leg_) != M(j, c['g'].leg_), df(Q(i, c['g'].leg_), Q(j, c['g'].leg_)) == 1)
def xbond(c, i, j): return z3.Or(lbond_(c['g'].ladder_, i, j), diag(c, i, j))
def xdir(c, i, j): return z3.If(lbond_(c['g'].ladder_, i, j), ldir_(c['g'].ladder_, i, j), z3.If(z3.If(i < j, M(i, c['g'].leg_), M(j, c['g'].leg_)) == 1, z3.IntVal(2), z3.IntVal(3)))
def xhan(c, i, j): return z3.If(lbond_(c['g'].ladder_, i, j), lhan_(c['g'].ladder_, i, j), z3.If(i < j, Q(i, c['g'].leg_), Q(j, c['g'].leg_)))
graph('ladx', 'g_ladderx', 'ladder with diagonals', xw, N_, xbond, xdir, 4, hfun=xhan, ax=[IMUL2])
con('P08', 'ladx_num', 'g_ladderx', 'ladder with diagonals: announced number of bonds', pre=xw, throws=lambda c: c['d'] > 3, post=lambda c: [('number', c.result == z3.If(c['d'] >= 2, c['g'].linSize_ - 2, lnum_(c['g'].ladder_, c['d'])))])
# ---- K2NiF4: cells of four sites, oxygen x, two oxygens y, copper
kw = lambda c: [N_(c) < 1 << 30, z3.Or(c['g'].signChange_ == 1, c['g'].signChange_ == -1)]
def kdir_(i, j):
    "direction from a site of smaller residue to one of larger residue, -1 without bond"
    u, v, d = i % 4, j % 4, j - i
    return z3.If(v == 3, z3.If(z3.Or(all_(u == 0, z3.Or(d == 3, d == -1))), z3.IntVal(0), z3.If(z3.Or(all_(u == 1, d == 2), all_(u == 2, d == 1)), z3.IntVal(1), z3.IntVal(-1))),
                 z3.If(z3.Or(all_(u == 0, v == 1, d == 1), all_(u == 0, v == 2, d == -2)), z3.IntVal(2), z3.If(z3.Or(all_(u == 0, v == 1, d == -3), all_(u == 0, v == 2, d == 2)), z3.IntVal(3), z3.IntVal(-1))))
def kdir(c, i, j): return z3.If(i % 4 < j % 4, kdir_(i, j), z3.If(i % 4 > j % 4, kdir_(j, i), z3.IntVal(-1)))
graph('k2', 'g_k2', 'K2NiF4', kw, N_, lambda c, i, j: kdir(c, i, j) != -1, kdir, 4)
kc = lambda i: i % 4 == 3
kix = lambda c, i, o: z3.If(kc(i), z3.If(o == 0, i, z3.IntVal(-1)), z3.If(o == 0, i, N_(c) + i - (i + 1) / 4))
con('P08', 'k2_index', 'g_k2', 'K2NiF4: index of an orbital', pre=lambda c: kw(c) + [c['i'] < N_(c), c['o'] < 2], post=lambda c: [('definition', c.result == kix(c, c['i'], c['o'])), ('in range', imp(z3.Or(c['o'] == 0, z3.Not(kc(c['i']))), all_(0 <= c.result, c.result < 2 * N_(c) - N_(c) / 4)))])
con('P08', 'k2_idist', 'g_k2', 'K2NiF4: indices are distinct', pre=lambda c: kw(c) + [c['i'] < N_(c), c['o'] < 2, c['j'] < N_(c), c['p'] < 2, z3.Or(c['o'] == 0, z3.Not(kc(c['i']))), z3.Or(c['p'] == 0, z3.Not(kc(c['j']))), z3.Or(c['i'] != c['j'], c['o'] != c['p'])], post=lambda c: [('distinct', z3.Not(c.result))])
con('P08', 'k2_rank', 'g_k2', 'K2NiF4: number of orbitals', pre=kw, post=lambda c: [('number', c.result == 2 * N_(c) - N_(c) / 4)],
    hints=[Hint('counted', lambda e: all_(e['no'] + e['nc'] == e['i'], e['nc'] == e['i'] / 4, e['i'] <= e['sites']), vars=('no', 'nc', 'i', 'sites'))])
con('P08', 'k2_orb', 'g_k2', 'K2NiF4: orbitals of a site', pre=lambda c: kw(c) + [c['s'] < N_(c)], post=lambda c: [('one on copper', c.result == z3.If(kc(c['s']), z3.IntVal(1), c['n']))])
con('P08', 'k2_sign', 'g_k2', 'K2NiF4: sign of a bond', pre=lambda c: kw(c) + [c['i'] < N_(c), c['j'] < N_(c), kdir(c, c['i'], c['j']) != -1],
    post=lambda c: [('definition', c.result == z3.If(all_(kc(c['i']) != kc(c['j']), df(c['i'], c['j']) == 1), -1, 1) * z3.If(z3.Or(c['i'] % 8 == 4, c['j'] % 8 == 4), c['g'].signChange_, z3.IntVal(1)))])
# ---- honeycomb: columns of zigzags
def hw(c):
    g = c['g']
    t, n = g.ly_, g.linSize_
    return [n < 1 << 31, n >= 1, t >= 2, t < 1 << 31, t % 2 == 0, M(n, t) == 0, Q(n, t) >= 1, imp(g.periodicY_, t % 4 == 0), imp(g.periodicX_, Q(n, t) > 2)]
def hdir(c, i, j):
    g = c['g']
    t, n = g.ly_, g.linSize_
    X, Y, U, V = Q(i, t), M(i, t), Q(j, t), M(j, t)
    lo, hi = mn(Y, V), mx(Y, V)
    nxt = lambda s, u: z3.Or(s + 1 == u, all_(g.periodicX_, s + 1 == Q(n, t), u == 0))
    a = lambda X, Y, U, V: z3.If(all_(Y % 4 == 0, V == Y + 1), z3.IntVal(0), z3.If(all_(Y % 4 == 3, V + 1 == Y), z3.IntVal(1), z3.IntVal(-1)))
    col = z3.If(hi == lo + 1, z3.If(lo % 2 == 1, z3.IntVal(2), z3.If(lo % 4 == 0, z3.IntVal(1), z3.IntVal(0))), z3.If(all_(g.periodicY_, lo == 0, hi == t - 1), z3.IntVal(2), z3.IntVal(-1)))
    return z3.If(i == j, z3.IntVal(-1), z3.If(X == U, col, z3.If(nxt(X, U), a(X, Y, U, V), z3.If(nxt(U, X), a(U, V, X, Y), z3.IntVal(-1)))))
graph('hc', 'g_honeycomb', 'honeycomb', hw, N_, lambda c, i, j: hdir(c, i, j) != -1, hdir, 3)
# callers use the two contracts above instead of the bodies
def hspec(f, needs):
    def spec(eng, e, st, obj, vs):
        c = {'g': eng.read(st, obj), 'i': vs[0], 'j': vs[1]}
        eng.oblige(st, all_(*hw(c), vs[0] < c['g'].linSize_, vs[1] < c['g'].linSize_), 'sites of a lattice', 'callee precondition', e.get('loc'))
        if needs:
            eng.oblige(st, hdir(c, vs[0], vs[1]) != -1, 'neighbours', 'callee precondition', e.get('loc'))
        return [(st, f(hdir(c, vs[0], vs[1])))]
    return spec
HS = {'PsimagLite::Honeycomb<double, vroot::Mock>::connected': hspec(lambda d: d != -1, False), 'PsimagLite::Honeycomb<double, vroot::Mock>::calcDir': hspec(lambda d: d, True)}
con('P08', 'hc_one', 'g_honeycomb', 'honeycomb: at most one bond of each kind at a site', pre=lambda c: hw(c) + [c['i'] < N_(c), c['j'] < N_(c), c['k'] < N_(c), c['j'] != c['k']], post=lambda c: [('at most one', z3.Not(c.result))], specs=HS)
# ---- ladder with b bath sites for each of its sites: half of the baths before it, half after it, layer by layer
def bh(c): return IMUL(Q2(c), c['g'].bathSitesPerSite_)
Q2 = lambda c: c['g'].clusterSize_ / 2
def bw(c):
    g, l = c['g'], c['l']
    C = g.clusterSize_
    return [g.linSize_ < 1 << 31, g.bathSitesPerSite_ >= 1, C >= 2, C % 2 == 0, g.linSize_ == C + 2 * bh(c), l.linSize_ == C, IMUL(g.bathSitesPerSite_, C) == 2 * bh(c), IMUL(Q2(c), g.bathSitesPerSite_) == IMUL(g.bathSitesPerSite_, Q2(c))] + lw_(l)
def bin_(c, i): return all_(bh(c) <= i, i < bh(c) + c['g'].clusterSize_)
def bown(c, t):
    "cluster site of a bath site"
    f, h = bh(c), Q2(c)
    return z3.If(t < f, f + M(t, h), f + h + M(t - f - c['g'].clusterSize_, h))
def blayer(c, t): return z3.If(t < bh(c), Q(t, Q2(c)), Q(t - bh(c) - c['g'].clusterSize_, Q2(c)))
def bbond(c, i, j):
    f = bh(c)
    return z3.If(bin_(c, i) == bin_(c, j), all_(bin_(c, i), lbond_(c['l'], i - f, j - f)), z3.If(bin_(c, i), bown(c, j) == i, bown(c, i) == j))
def bdir(c, i, j): return z3.If(all_(bin_(c, i), bin_(c, j)), ldir_(c['l'], i - bh(c), j - bh(c)), z3.IntVal(2))
def bhan(c, i, j):
    g = c['g']
    own = lambda s, t: IDX(blayer(c, t), s - bh(c), g.bathSitesPerSite_)
    return z3.If(all_(bin_(c, i), bin_(c, j)), lhan_(c['l'], i - bh(c), j - bh(c)), z3.If(bin_(c, i), own(i, j), own(j, i)))
graph('bath', 'g_ladderbath', 'ladder with baths', bw, N_, bbond, bdir, 3, hfun=bhan, ij=('k', 'm'))
# ---- P09: reflections and translations
def moves(p, hf, kind, wf, size, ref, tr, bond, per, dirs, axis, hints, length):
    site = lambda c, *v: [c[k] < size(c) for k in v]
    con('P09', p + '_ref', hf, kind + ': mirror image of a site', pre=lambda c: wf(c) + site(c, 's'), post=lambda c: [('definition', c.result == ref(c, c['s'])), ('a site', c.result < size(c))])
    con('P09', p + '_ref2', hf, kind + ': reflecting twice', pre=lambda c: wf(c) + site(c, 's'), post=lambda c: [('identity', c.result == c['s'])])
    move = lambda c: [c['a'] < BIG, c['d'] < dirs]
    con('P09', p + '_tr', hf, kind + ': translation of a site', pre=lambda c: wf(c) + site(c, 's') + move(c), hints=hints, post=lambda c: [('definition', c.result == tr(c, c['s'], c['d'], c['a'])), ('a site', c.result < size(c))])
    con('P09', p + '_trinj', hf, kind + ': translations are one to one', pre=lambda c: wf(c) + site(c, 'i', 'j') + move(c) + [c['i'] != c['j']], hints=hints, post=lambda c: [('distinct', z3.Not(c.result))])
    con('P09', p + '_len', hf, kind + ': lengths', pre=lambda c: wf(c) + [c['d'] < dirs], post=lambda c: [('definition', c.result == length(c))])
    if bond:
        con('P09', p + '_refcon', hf, kind + ': reflection keeps neighbours', pre=lambda c: wf(c) + site(c, 'i', 'j'), post=lambda c: [('kept', c.result)])
        con('P09', p + '_trcon', hf, kind + ': translation keeps neighbours of a periodic lattice', pre=lambda c: wf(c) + site(c, 'i', 'j') + move(c) + [per(c)], hints=hints, post=lambda c: [('kept', c.result)])
chints = [Hint('same remainder', lambda e: all_(M(e['site'], e['this'].linSize_) == M(e.init('site'), e['this'].linSize_), e['site'] <= e.init('site')), vars=('site',))]
lhints = [Hint('same remainder', lambda e: all_(M(e['c'], e['l']) == M(e.init('c'), e['l']), e['c'] <= e.init('c')), vars=('c', 'l'))]
moves('chain', 'g_chain', 'chain', cw, N_, lambda c, s: N_(c) - 1 - s, lambda c, s, d, a: M(s + a, N_(c)), cbond, lambda c: c['g'].isPeriodic_, 1, None, chints, N_)
lleg = lambda c: c['g'].leg_
lx_ = lambda c: Q(N_(c), lleg(c))
def ltr(c, s, d, a):
    t = lleg(c)
    return z3.If(d == 0, IDX(M(s, t), M(Q(s, t) + a, lx_(c)), t), IDX(M(M(s, t) + a, t), Q(s, t), t))
moves('lad', 'g_ladder', 'ladder', lw, N_, lambda c, s: IDX(M(s, lleg(c)), lx_(c) - Q(s, lleg(c)) - 1, lleg(c)), ltr, lbond, lambda c: z3.If(c['d'] == 0, c['g'].isPeriodicX_, c['g'].isPeriodicY_), 2, None, lhints, lambda c: z3.If(c['d'] == 0, lx_(c), lleg(c)))
moves('lr', 'g_longrange', 'long range', lambda c: [N_(c) < BIG], N_, lambda c, s: N_(c) - 1 - s, lambda c, s, d, a: M(s + a, N_(c)), None, None, 1, None, chints, N_)
for nm, want in (('lr_con', True), ('lr_dir', 0)):
    con('P08', nm, 'g_longrange', 'long range: every pair of sites, one direction', pre=lambda c: [N_(c) < BIG, c['i'] < N_(c), c['j'] < N_(c)], post=lambda c, want=want: [('value', c.result == want)])
# ---- P09: which part of the lattice a bond joins
con('P09', 'g_kind', 'g_term', 'Geometry: kind of connection', pre=lambda c: [c['smax'] < BIG], post=lambda c: [('definition', c.result == z3.If(c['i'] <= c['smax'], z3.If(c['j'] <= c['smax'], 0, 1), z3.If(c['j'] <= c['smax'], 2, 3)))])
# ---- P09: growing the lattice block by block
DBL = z3.ForAll([x, y, l], imp(x == y + y, IMUL(x, l) == IMUL(y, l) + IMUL(y, l)), patterns=[z3.MultiPattern(IMUL(x, l), IMUL(y, l))])
UNIT = z3.ForAll([x, l], all_(imp(x == 1, IMUL(x, l) == l), imp(x == 0, IMUL(x, l) == 0)), patterns=[IMUL(x, l)])
kk, jj = z3.Ints('gk gj')
def blocks(V, spb, f):
    "each block has spb sites, block k has site f(k) + j at position j"
    return all_(z3.ForAll([kk], imp(all_(0 <= kk, kk < V.len), V[kk].len == spb), patterns=[V.arr[kk]]),
                z3.ForAll([kk, jj], imp(all_(0 <= kk, kk < V.len, 0 <= jj, jj < spb), V[kk].arr[jj] == f(kk) + jj), patterns=[V[kk].arr[jj]]))
def run(v, n, f): return all_(v.len == n, z3.ForAll([kk], imp(all_(0 <= kk, kk < n), v.arr[kk] == f + kk), patterns=[v.arr[kk]]))
spN = lambda c: c.old('g').linSize_
Hn = lambda c: (Q(spN(c), c.old('spb')) - 1) / 2   # blocks before the middle
A2 = lambda u, v: at_(DBL, u, v, l)
MONO = lambda u, v: [at_(STEPAX, u, v, l), at_(STEPAX, v, u, l)]
XL, YL = IMUL(x, l), IMUL(y, l)
def LS(name, body, here): return Lemma('blocks: ' + name, lambda: ([x, y, l], body, [[XL, YL]]), local=IMUL_AX + [SUCC, DBL], only_local=True, here=here)
S_GAP = LS('gap', imp(all_(l > 0, XL + l < YL), XL + 2 * l <= YL), MONO(x, y) + MONO(x + 1, y) + [at_(SUCC, x + 1, x, l)])
S_ONE = LS('next', imp(all_(l > 0, XL + l == YL), y == x + 1), MONO(x, y) + MONO(x + 1, y) + [at_(SUCC, x + 1, x, l)])
S_GAP2 = LS('half gap', imp(all_(l > 0, x >= 1, XL + XL < YL), all_(x + x < y, XL + 2 * l <= YL)), MONO(x + x, y) + MONO(x + 1, y) + MONO(x, y) + [A2(x + x, x), at_(SUCC, x + 1, x, l)])
S_HALF = LS('middle', imp(all_(l > 0, x >= 1, y >= 2, XL >= YL / 2 + YL % 2, z3.Or(x == 1, XL - l < YL / 2 + YL % 2)), x == (y + 1) / 2), MONO(x + x, y) + MONO(2 * x - 2, y) + [A2(x + x, x), A2(2 * x - 2, x - 1), at_(SUCC, x, x - 1, l)])
def left(c, X):
    s_, b = c.old('spb'), (lambda k: IMUL(k + 1, c.old('spb')))
    return all_(z3.ForAll([kk], imp(all_(0 <= kk, kk < X.len), X[kk].len == s_), patterns=[X.arr[kk]]),
                z3.ForAll([kk, jj], imp(all_(0 <= kk, kk < X.len, 0 <= jj, jj < s_), z3.Or(all_(kk < Hn(c), X[kk].arr[jj] == b(kk) + jj), all_(kk >= Hn(c), X[kk].arr[jj] == b(kk) + s_ - 1 - jj))), patterns=[X[kk].arr[jj]]))
# the environment shrinks from the right: block k starts at N - (k + 2) spb
def right(c, Y): return blocks(Y, c.old('spb'), lambda k: spN(c) - 2 * c.old('spb') - (IMUL(Hn(c) + 1 + k, c.old('spb')) - IMUL(Hn(c) + 1, c.old('spb'))))
def spost(c):
    s, n = c.old('spb'), spN(c)
    X, Y = c['X'], c['Y']
    return [('first block', run(c['S'], s, 0)), ('system blocks', left(c, X)), ('environment blocks', right(c, Y)), ('last block', run(c['E'], s, n - s)),
            ('every block once', X.len + Y.len + 2 == Q(n, s)), ('all in the system', imp(c.old('all'), Y.len == 0)), ('halves', imp(z3.Not(c.old('all')), z3.Or(X.len == Y.len, X.len == Y.len + 1)))]
def sthrow(c): return all_(c['spb'] > 1, z3.Or(M(spN(c), c['spb']) != 0, Q(spN(c), c['spb']) < 3))
hs = [Hint('i in S', lambda e: run(e.root('S'), e['i'], 0), vars=('i',)),
      Hint('S', lambda e: run(e.root('S'), e.ctx.old('spb'), 0)),
      Hint('X', lambda e: left(e.ctx, e.root('X'))),
      Hint('Y', lambda e: right(e.ctx, e.root('Y'))),
      Hint('blocks', lambda e: e['i'] == IMUL(e.root('X').len + e.root('Y').len + 1, e.ctx.old('spb')), vars=('i',)),
      Hint('below the middle', lambda e: z3.Or(e.root('X').len == 0, e['i'] - e.ctx.old('spb') < e['middle']), vars=('i', 'middle')),
      Hint('half all', lambda e: imp(e.ctx.old('all'), e.root('Y').len == 0)),
      Hint('half not', lambda e: imp(z3.Not(e.ctx.old('all')), e.root('X').len == Hn(e.ctx))),
      Hint('in half', lambda e: e.root('X').len <= Hn(e.ctx)),
      Hint('from half', lambda e: e.root('X').len >= Hn(e.ctx)),
      Hint('half', lambda e: e['middle'] == IMUL(Hn(e.ctx) + 1, e.ctx.old('spb')), vars=('middle',)),
      Hint('room', lambda e: e['i'] <= spN(e.ctx) - e.ctx.old('spb'), vars=('i',)),
      Hint('size', lambda e: e['tmpV'].len == e.ctx.old('spb'), vars=('tmpV',)),
      Hint('size2', lambda e: all_(e['tmpV'].len == e.ctx.old('spb'), e['tmpV2'].len == e.ctx.old('spb')), vars=('tmpV', 'tmpV2')),
      Hint('fill', lambda e: z3.ForAll([kk], imp(all_(0 <= kk, kk < e['j']), e['tmpV'].arr[kk] == e['i'] + kk), patterns=[e['tmpV'].arr[kk]]), vars=('i', 'j', 'tmpV'), mod=('j',)),
      Hint('fill right', lambda e: z3.ForAll([kk], imp(all_(0 <= kk, kk < e['j']), e['tmpV'].arr[kk] == spN(e.ctx) + e['middle'] - e['i'] - 2 * e.ctx.old('spb') + kk), patterns=[e['tmpV'].arr[kk]]), vars=('i', 'j', 'tmpV', 'middle'), mod=('j',)),
      Hint('fill left', lambda e: z3.ForAll([kk], imp(all_(0 <= kk, kk < e['j']), e['tmpV2'].arr[kk] == e['i'] + e.ctx.old('spb') - 1 - kk), patterns=[e['tmpV2'].arr[kk]]), vars=('i', 'j', 'tmpV2'), mod=('j',)),
      Hint('E', lambda e: run(e.root('E'), e['i'] - e.init('i'), e.init('i')), vars=('i',)),
      ]
contract('P09', 'vroot::g_split', tu=TU, title='Geometry::split: every site in exactly one block', opts=dict(imul=True, hfuncs=['g_split']), axioms=AXD + [DBL, UNIT], lemmas=DL + [S_ONE, S_GAP, S_GAP2, S_HALF],
    pre=lambda c: [spN(c) >= 2, spN(c) < BIG, c['spb'] >= 1, c['spb'] < BIG, c['S'].len == 0, c['X'].len == 0, c['Y'].len == 0, c['E'].len == 0], post=spost, throws=sthrow, hints=hs)
