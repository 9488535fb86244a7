from contracts.lib import *
from contracts.sort import sort_post, ISPERM, ISPERM_AX
P = 'P15'
TU = 'sparsev.cpp'
cj = z3.Function('conj', R, R)
def n(s): return s.indices_.len
def wf(s): return all_(s.indices_.len == s.values_.len)
def D(s, j, upto=None):
    """component j of the vector the collected entries denote"""
    return E_(s.indices_.arr, s.values_.arr, j, z3.IntVal(0), n(s) if upto is None else upto)
def DP(s, upto=None):
    """patterns for statements about D (with and without fuel)"""
    return [D(s, j_, upto), E_.F0(s.indices_.arr, s.values_.arr, j_, z3.IntVal(0), n(s) if upto is None else upto)]
def fa(v, lo, hi, body, pat): return forall(v, imp(all_(lo <= v, v < hi), body), pat if isinstance(pat, list) else [pat])
def incr(s): return forall([k_, l_], imp(all_(0 <= k_, k_ < l_, l_ < n(s)), s.indices_.arr[k_] < s.indices_.arr[l_]), [[s.indices_.arr[k_], s.indices_.arr[l_]]])
def nodup(s): return forall([k_, l_], imp(all_(0 <= k_, k_ < l_, l_ < n(s)), s.indices_.arr[k_] != s.indices_.arr[l_]), [[s.indices_.arr[k_], s.indices_.arr[l_]]])
def _zero():
    col, val, j, lo, k, x = z3.Const('ec', AI), z3.Const('ev', AR), z3.Int('ej'), z3.Int('elo'), z3.Int('ek'), z3.Int('ex')
    t = E_(col, val, j, lo, k)
    return [col, val, j, lo, k], z3.Or(t == 0, z3.Exists([x], z3.And(lo <= x, x < k, col[x] == j))), [t], k, lo
E_zero = Lemma('a sum without entries of the column is zero', _zero)
def _tail():
    col, val, j, lo, m, k, x = z3.Const('ec', AI), z3.Const('ev', AR), z3.Int('ej'), z3.Int('elo'), z3.Int('em'), z3.Int('ek'), z3.Int('ex')
    t, u = E_(col, val, j, lo, k), E_(col, val, j, lo, m)
    return [col, val, j, lo, m, k], z3.Implies(z3.And(lo <= m, m <= k), z3.Or(t == u, z3.Exists([x], z3.And(m <= x, x < k, col[x] == j)))), [[t, u]], k, m
E_tail = Lemma('entries of other columns at the end do not count', _tail)
H1 = lambda *f: {'hfuncs': list(f)}
contract(P, 'vroot::sv_dense', tu=TU, title='SparseVector from a dense vector', opts=H1('sv_basic'),
    post=lambda c: [('size', c['s'].size_ == c['x'].len), ('arrays', wf(c['s'])), ('increasing', incr(c['s'])), ('inside', fa(k_, 0, n(c['s']), all_(c['s'].indices_.arr[k_] >= 0, c['s'].indices_.arr[k_] < c['x'].len), c['s'].indices_.arr[k_])),
        ('components', fa(j_, 0, c['x'].len, D(c['s'], j_) == c['x'].arr[j_], [D(c['s'], j_)]))], axioms=[E_], lemmas=[E_push],
    hints=[Hint('arrays', lambda e: wf(e['this']), vars=()), Hint('size', lambda e: e['this'].size_ == e.root('x').len, vars=()),
           Hint('increasing', lambda e: incr(e['this']), vars=()),
           Hint('below', lambda e: fa(k_, 0, n(e['this']), all_(e['this'].indices_.arr[k_] >= 0, e['this'].indices_.arr[k_] < e['i']), e['this'].indices_.arr[k_]), vars=('i',)),
           Hint('so far', lambda e: forall(j_, D(e['this'], j_) == z3.If(all_(0 <= j_, j_ < e['i']), e.root('x').arr[j_], z3.RealVal(0)), DP(e['this'])), vars=('i',))])
contract(P, 'vroot::sv_fromChunk', tu=TU, title='SparseVector::fromChunk', opts=H1('sv_basic'), pre=lambda c: [c['offset'] + c['x'].len < (1 << 63)],
    post=lambda c: [('size', c['s'].size_ == c['total']), ('arrays', wf(c['s'])), ('increasing', incr(c['s'])),
        ('components', forall(j_, D(c['s'], j_) == z3.If(all_(c['offset'] <= j_, j_ < c['offset'] + c['x'].len), c['x'].arr[j_ - c['offset']], z3.RealVal(0)), [D(c['s'], j_)]))], axioms=[E_], lemmas=[E_push],
    hints=[Hint('arrays', lambda e: all_(n(e.root('s')) == e['i'], e.root('s').values_.len == e['i']), vars=('i',)), Hint('size', lambda e: e.root('s').size_ == e.root('total'), vars=()),
           Hint('indices', lambda e: fa(k_, 0, e['i'], e.root('s').indices_.arr[k_] == e.root('offset') + k_, e.root('s').indices_.arr[k_]), vars=('i',)),
           Hint('so far', lambda e: forall(j_, D(e.root('s'), j_) == z3.If(all_(e.root('offset') <= j_, j_ < e.root('offset') + e['i']), e.root('x').arr[j_ - e.root('offset')], z3.RealVal(0)), DP(e.root('s'))), vars=('i',))])
for t in ('', 'Test'):
    contract(P, 'vroot::sv_toChunk' + t, tu=TU, title='SparseVector::toChunk%s: the dense piece' % (' with the check' if t else ''), opts=H1('sv_chunk'),
        pre=lambda c, t=t: [wf(c['s']), nodup(c['s']), c['i0'] + c['total'] < (1 << 63)] + ([n(c['s']) > 0] if t else [fa(k_, 0, n(c['s']), all_(c['s'].indices_.arr[k_] >= c['i0'], c['s'].indices_.arr[k_] < c['i0'] + c['total']), c['s'].indices_.arr[k_])]),
        post=lambda c: [('length', c['dest'].len == c['total']), ('components', fa(j_, 0, c['total'], c['dest'].arr[j_] == D(c['s'], j_ + c['i0']), c['dest'].arr[j_]))], axioms=[E_], lemmas=[E_zero],
        throws=(lambda c: z3.Not(fa(k_, 0, n(c['s']), all_(c['s'].indices_.arr[k_] >= c['i0'], c['s'].indices_.arr[k_] < c['i0'] + c['total']), c['s'].indices_.arr[k_]))) if t else None,
        hints=[Hint('length', lambda e: e.root('dest').len == e.root('total'), vars=()),
               Hint('zeroed', lambda e: fa(j_, 0, e['i'], e.root('dest').arr[j_] == 0, e.root('dest').arr[j_]), vars=('i',)),
               Hint('copied', lambda e: fa(j_, 0, e.root('total'), e.root('dest').arr[j_] == D(e.root('s'), j_ + e.root('i0'), e['i']), e.root('dest').arr[j_]), vars=('i',))])
contract(P, 'vroot::sv_add', tu=TU, title='SparseVector::add', opts=H1('sv_basic'), pre=lambda c: [wf(c['s']), c['index'] >= 0],
    post=lambda c: [('arrays', wf(c['s'])), ('place', c.result == n(c.old('s'))), ('size', c['s'].size_ == c.old('s').size_), ('components', forall(j_, D(c['s'], j_) == D(c.old('s'), j_) + z3.If(j_ == c['index'], c['value'], z3.RealVal(0)), [D(c['s'], j_)])),
        ('no longer sorted', z3.Not(c['s'].isSorted_))], axioms=[E_], lemmas=[E_push])
for f, nm in (('sv_clear', 'clear'), ('sv_resize', 'resize')):
    contract(P, 'vroot::' + f, tu=TU, title='SparseVector::%s' % nm, opts=H1('sv_basic'),
        post=lambda c, f=f: [('empty', all_(n(c['s']) == 0, c['s'].values_.len == 0)), ('size', c['s'].size_ == (c['n'] if f == 'sv_resize' else c.old('s').size_))])
fm = z3.Function('fmul', R, R, R)
_x, _y = z3.Reals('cx cy')
COMM = z3.ForAll([_x, _y], fm(_x, _y) == fm(_y, _x), patterns=[fm(_x, _y)])
def scaled(new, old, a): return [('arrays', wf(new)), ('indices kept', all_(n(new) == n(old), fa(k_, 0, n(old), new.indices_.arr[k_] == old.indices_.arr[k_], new.indices_.arr[k_]))),
    ('values', fa(k_, 0, n(old), new.values_.arr[k_] == fm(old.values_.arr[k_], a), new.values_.arr[k_])), ('size', new.size_ == old.size_), ('order flag', new.isSorted_ == old.isSorted_)]
contract(P, 'vroot::sv_scale', tu=TU, title='SparseVector *= scalar', opts=H1('sv_algebra'), pre=lambda c: [wf(c['s'])], post=lambda c: scaled(c['s'], c.old('s'), c['a']), axioms=[COMM],
    hints=[Hint('frame', lambda e: all_(wf(e.root('s')), n(e.root('s')) == n(e.old('s')), e.root('s').indices_.arr == e.old('s').indices_.arr, e.root('s').size_ == e.old('s').size_, e.root('s').isSorted_ == e.old('s').isSorted_), vars=()),
           Hint('done', lambda e: fa(k_, 0, e['i'], e.root('s').values_.arr[k_] == fm(e.old('s').values_.arr[k_], e.root('a')), e.root('s').values_.arr[k_]), vars=('i',)),
           Hint('todo', lambda e: forall(k_, imp(k_ >= e['i'], e.root('s').values_.arr[k_] == e.old('s').values_.arr[k_]), [e.root('s').values_.arr[k_]]), vars=('i',))])
contract(P, 'vroot::sv_times', tu=TU, title='scalar * SparseVector', opts=H1('sv_algebra'), pre=lambda c: [wf(c['s'])], post=lambda c: scaled(c['r'], c['s'], c['a']), axioms=[COMM],
    hints=[Hint('frame', lambda e: all_(wf(e['res']), n(e['res']) == n(e.root('s')), e['res'].indices_.arr == e.root('s').indices_.arr, e['res'].size_ == e.root('s').size_, e['res'].isSorted_ == e.root('s').isSorted_), vars=('res',)),
           Hint('done', lambda e: fa(k_, 0, e['i'], e['res'].values_.arr[k_] == fm(e.root('s').values_.arr[k_], e.root('a')), e['res'].values_.arr[k_]), vars=('i', 'res')),
           Hint('todo', lambda e: forall(k_, imp(k_ >= e['i'], e['res'].values_.arr[k_] == e.root('s').values_.arr[k_]), [e['res'].values_.arr[k_]]), vars=('i', 'res'))])
contract(P, 'vroot::sv_minus', tu=TU, title='SparseVector -= SparseVector', opts=H1('sv_algebra'), pre=lambda c: [wf(c['s']), wf(c['t'])],
    post=lambda c: [('arrays', wf(c['s'])), ('components', forall(j_, D(c['s'], j_) == D(c.old('s'), j_) - D(c['t'], j_), [D(c['s'], j_)])), ('size', c['s'].size_ == c.old('s').size_), ('no longer sorted', z3.Not(c['s'].isSorted_))], axioms=[E_], lemmas=[E_push],
    hints=[Hint('arrays', lambda e: all_(wf(e.root('s')), n(e.root('s')) == n(e.old('s')) + e['i'], e.root('s').size_ == e.old('s').size_), vars=('i',)),
           Hint('so far', lambda e: forall(j_, D(e.root('s'), j_) == D(e.old('s'), j_) - D(e.root('t'), j_, e['i']), DP(e.root('s'))), vars=('i',))])
# ---- products
idn = lambda x: x
SPSZ = SumFn('spsz', [AI, AR, AI, AR, I], term=lambda ci, cv, di, dv, nd, x: fm(cv[x], cj(E_(di, dv, ci[x], z3.IntVal(0), nd))))
SPSR = SumFn('sps', [AI, AR, AI, AR, I], term=lambda ci, cv, di, dv, nd, x: fm(cv[x], E_(di, dv, ci[x], z3.IntVal(0), nd)))
ZERO = [z3.ForAll([_x], fm(_x, cj(z3.RealVal(0))) == 0, patterns=[fm(_x, cj(z3.RealVal(0)))]), cj(z3.RealVal(0)) == 0, z3.ForAll([_x], fm(_x, z3.RealVal(0)) == 0, patterns=[fm(_x, z3.RealVal(0))])]
for f, SPS, co in (('sv_scalar', SPSR, idn), ('sv_dot', SPSR, idn), ('sv_scalar_z', SPSZ, cj)):
    def sps(s, t, k, SPS=SPS): return SPS(s.indices_.arr, s.values_.arr, t.indices_.arr, t.values_.arr, n(t), k)
    def cur(e, co=co): return fm(e.root('s').values_.arr[e['i']], co(D(e.root('t'), e.root('s').indices_.arr[e['i']], e['j'])))
    contract(P, 'vroot::' + f, tu=TU, title='scalar product of two sorted sparse vectors', opts=H1('sv_scalar'),
        pre=lambda c: [wf(c['s']), wf(c['t']), incr(c['s']), incr(c['t']), c['s'].isSorted_, c['t'].isSorted_],
        post=lambda c, sps=sps: [('sum over the components', c.result == sps(c['s'], c['t'], n(c['s'])))], axioms=[E_, SPS, COMM] + ZERO, lemmas=[E_zero, E_tail],
        hints=[Hint('outer sum', lambda e, sps=sps: e['sum'] == sps(e.root('s'), e.root('t'), e['i']), vars=('i', 'sum')),
               Hint('passed entries lie below', lambda e: fa(k_, 0, e['j'], imp(e['i'] < n(e.root('s')), e.root('t').indices_.arr[k_] < e.root('s').indices_.arr[e['i']]), [e.root('t').indices_.arr[k_]]), vars=('i', 'j')),
               Hint('range of j', lambda e: all_(e['j'] >= 0, e['j'] <= n(e.root('t'))), vars=('j',)),
               Hint('inner sum', lambda e, sps=sps, cur=cur: e['sum'] == sps(e.root('s'), e.root('t'), e['i']) + cur(e), vars=('i', 'j', 'sum'), fix=('i',)),
               Hint('passed entries do not exceed', lambda e: fa(k_, 0, e['j'], e.root('t').indices_.arr[k_] <= e.root('s').indices_.arr[e['i']], [e.root('t').indices_.arr[k_]]), vars=('i', 'j'), fix=('i',)),
               ])
MV = SumFn('srmv', [AI, AR, AR], term=lambda ci, cv, y, x: fm(cv[x], y[ci[x]]))
for f, cached in (('sr_mvp', 0), ('sr_finalizeVec', 0), ('src_mvp', 1)):
    cnt = (lambda r, cached=cached: r.counter_ if cached else r.cols_.len)
    contract(P, 'vroot::' + f, tu=TU, title='%s: product of the row with a vector' % f, opts=H1('sr_rows'),
        pre=lambda c, cached=cached: [(c['r'].cols_.len == c['r'].values_.len), fa(k_, 0, c['r'].counter_ if cached else c['r'].cols_.len, c['r'].cols_.arr[k_] < c['y'].len, c['r'].cols_.arr[k_])] + ([c['r'].counter_ <= c['r'].cols_.len] if cached else []),
        post=lambda c, cached=cached: [('sum over the entries', c.result == MV(c.old('r').cols_.arr, c.old('r').values_.arr, c['y'].arr, c.old('r').counter_ if cached else c.old('r').cols_.len))] + ([('cache emptied', c['r'].counter_ == 0)] if cached else []),
        axioms=[MV, COMM], hints=[Hint('sum so far', lambda e: e['sum'] == MV(e.root('r').cols_.arr, e.root('r').values_.arr, e.root('y').arr, e['i']), vars=('i', 'sum'))])
contract(P, 'vroot::sr_add', tu=TU, title='SparseRow::add', opts=H1('sr_rows'), pre=lambda c: [c['r'].cols_.len == c['r'].values_.len],
    post=lambda c: [('one more entry', all_(c['r'].cols_.len == c.old('r').cols_.len + 1, c['r'].values_.len == c['r'].cols_.len)),
        ('components', forall(j_, E_(c['r'].cols_.arr, c['r'].values_.arr, j_, z3.IntVal(0), c['r'].cols_.len) == E_(c.old('r').cols_.arr, c.old('r').values_.arr, j_, z3.IntVal(0), c.old('r').cols_.len) + z3.If(j_ == c['c'], c['v'], z3.RealVal(0))))], axioms=[E_], lemmas=[E_push])
contract(P, 'vroot::src_add', tu=TU, title='SparseRowCached::add', opts=H1('sr_rows'), pre=lambda c: [c['r'].cols_.len == c['r'].values_.len, c['r'].counter_ <= c['r'].cols_.len, c['r'].cols_.len < (1 << 58)],
    post=lambda c: [('one more entry', all_(c['r'].counter_ == c.old('r').counter_ + 1, c['r'].values_.len == c['r'].cols_.len, c['r'].counter_ <= c['r'].cols_.len)),
        ('earlier entries kept', fa(k_, 0, c.old('r').counter_, all_(c['r'].cols_.arr[k_] == c.old('r').cols_.arr[k_], c['r'].values_.arr[k_] == c.old('r').values_.arr[k_]), [c['r'].cols_.arr[k_], c['r'].values_.arr[k_]])),
        ('new entry', all_(c['r'].cols_.arr[c.old('r').counter_] == c['c'], c['r'].values_.arr[c.old('r').counter_] == c['v']))])
# ---- comparison
EQT = 1e-8
contract(P, 'vroot::sv_equal', tu=TU, title='SparseVector == compares every entry', opts=H1('sv_equal'), pre=lambda c: [wf(c['s']), wf(c['t']), c['s'].isSorted_, c['t'].isSorted_],
    post=lambda c: [('equal exactly when all entries agree', c.result == all_(n(c['s']) == n(c['t']), fa(k_, 0, n(c['s']), all_(c['s'].indices_.arr[k_] == c['t'].indices_.arr[k_],
        c['s'].values_.arr[k_] - c['t'].values_.arr[k_] < z3.RealVal('1/100000000'), c['t'].values_.arr[k_] - c['s'].values_.arr[k_] < z3.RealVal('1/100000000')), [c['s'].indices_.arr[k_]])))],
    hints=[Hint('agree so far', lambda e: fa(k_, 0, e['i'], all_(e.root('s').indices_.arr[k_] == e.root('t').indices_.arr[k_],
        e.root('s').values_.arr[k_] - e.root('t').values_.arr[k_] < z3.RealVal('1/100000000'), e.root('t').values_.arr[k_] - e.root('s').values_.arr[k_] < z3.RealVal('1/100000000')), [e.root('s').indices_.arr[k_]]), vars=('i',))])
# ---- sorting and merging
from contracts.sort import spec_sort
SORT = {'PsimagLite::Sort<std::vector<unsigned long>>::sort': spec_sort}
U_ = SumFn('permsum', [AI, AR, AI, I, I], term=lambda ind, val, inv, j, m, x: z3.If(z3.And(inv[x] < m, ind[x] == j), val[x], z3.RealVal(0)))
def _u_args(): return z3.Const('pi', AI), z3.Const('pv', AR), z3.Const('pinv', AI), z3.Int('pj'), z3.Int('pm'), z3.Int('pn'), z3.Int('px')
def _u_same():
    ind, val, inv, j, m, k, x = _u_args()
    m1 = z3.Int('pm1')
    t, u = U_(ind, val, inv, j, m1, k), U_(ind, val, inv, j, m, k)
    return [ind, val, inv, j, m, m1, k], z3.Implies(all_(m1 == m + 1, forall(x, imp(all_(0 <= x, x < k), inv[x] != m), [inv[x]])), t == u), [[t, u]], k, z3.IntVal(0)
L_usame = Lemma('permuted sums: no new element', _u_same)
def _u_step():
    ind, val, inv, j, m, k, x = _u_args()
    p, m1 = z3.Ints('pp pm1')
    t, u = U_(ind, val, inv, j, m1, k), U_(ind, val, inv, j, m, k)
    return [ind, val, inv, j, m, m1, p, k], z3.Implies(all_(m1 == m + 1, 0 <= p, p < k, inv[p] == m, forall(x, imp(all_(0 <= x, x < k, x != p), inv[x] != m), [inv[x]])),
        t == u + z3.If(ind[p] == j, val[p], z3.RealVal(0))), [[t, u, inv[p]]], k, p + 1
L_ustep = Lemma('permuted sums: one new element', _u_step, uses=[L_usame])
def _u_none():
    ind, val, inv, j, m, k, x = _u_args()
    t = U_(ind, val, inv, j, m, k)
    return [ind, val, inv, j, m, k], z3.Implies(forall(x, imp(all_(0 <= x, x < k), inv[x] >= m), [inv[x]]), t == 0), [t], k, z3.IntVal(0)
L_unone = Lemma('permuted sums: nothing', _u_none)
def _u_all():
    ind, val, inv, j, m, k, x = _u_args()
    t = U_(ind, val, inv, j, m, k)
    return [ind, val, inv, j, m, k], z3.Implies(forall(x, imp(all_(0 <= x, x < k), inv[x] < m), [inv[x]]), t == E_(ind, val, j, z3.IntVal(0), k)), [t], k, z3.IntVal(0)
L_uall = Lemma('permuted sums: everything', _u_all)
_mkp = z3.Function('mkp', AI, B)
MKP = z3.ForAll([z3.Const('pperm', AI)], _mkp(z3.Const('pperm', AI)), patterns=[_mkp(z3.Const('pperm', AI))])
def perm_hyp(s_i, s_v, ind, val, perm, inv, nn, x):
    return forall(x, imp(all_(0 <= x, x < nn), all_(perm[x] >= 0, perm[x] < nn, inv[x] >= 0, inv[x] < nn, perm[inv[x]] == x, inv[perm[x]] == x)), [perm[x], inv[x]]), \
        forall(x, imp(all_(0 <= x, x < nn), all_(s_i[x] == ind[perm[x]], s_v[x] == val[perm[x]])), [s_i[x], s_v[x]])
def _perm_part():
    ind, val, inv, j, m, k, x = _u_args()
    si, sv, perm, nn = z3.Const('psi', AI), z3.Const('psv', AR), z3.Const('pperm', AI), z3.Int('pnn')
    t, u = E_(si, sv, j, z3.IntVal(0), m), U_(ind, val, inv, j, m, nn)
    h1, h2 = perm_hyp(si, sv, ind, val, perm, inv, nn, x)
    return [si, sv, ind, val, perm, inv, nn, j, m], z3.Implies(all_(0 <= m, m <= nn, h1, h2, _mkp(perm)), t == u), [[t, u, _mkp(perm)]], m, z3.IntVal(0)
L_permpart = Lemma('a sum in permuted order, first part', _perm_part, uses=[L_ustep, L_unone])
INV = z3.Function('inverse_of', AI, AI)
PM = z3.Function('same_up_to_order', AI, AR, AI, AR, AI, I, B)   # always true: asks for an instance of the lemma
_pma = [z3.Const('pm%d' % k, t) for k, t in enumerate((AI, AR, AI, AR, AI, I))]
PM_AX = z3.ForAll(_pma, PM(*_pma), patterns=[PM(*_pma)])
def _perm():
    ind, val, inv, j, m, k, x = _u_args()
    si, sv, perm, nn = z3.Const('psi', AI), z3.Const('psv', AR), z3.Const('pperm', AI), z3.Int('pnn')
    t, u, w = E_(si, sv, j, z3.IntVal(0), nn), E_(ind, val, j, z3.IntVal(0), nn), U_(ind, val, INV(perm), j, nn, nn)
    h1, h2 = perm_hyp(si, sv, ind, val, perm, INV(perm), nn, x)
    return [si, sv, ind, val, perm, nn], z3.Implies(all_(0 <= nn, ISPERM(perm, nn), h2, _mkp(perm)), forall(j, all_(_mkr(w), t == u), [t])), [PM(si, sv, ind, val, perm, nn)]
_mkr = z3.Function('mkr', R, B)
MKR = z3.ForAll([_x], _mkr(_x), patterns=[_mkr(_x)])
L_perm = Lemma('a finite sum does not depend on the order', _perm, uses=[L_permpart, L_uall])
for L in (L_perm, L_permpart, L_uall, L_ustep, L_unone, L_usame): L.local = U_.axioms() + [ISPERM_AX]
absr = lambda x: z3.If(x >= 0, x, -x)
EPS = z3.Q(1, 10**16)
def cut(x): return z3.If(absr(x) > EPS, x, z3.RealVal(0))
def DS(e, j, upto): return E_(e.root('s').indices_.arr, e['values'].arr, j, z3.IntVal(0), upto)
def NW(e, j): return E_(e['indices'].arr, e.root('s').values_.arr, j, z3.IntVal(0), e['indices'].len)
def NW0(e, j): return E_.F0(e['indices'].arr, e.root('s').values_.arr, j, z3.IntVal(0), e['indices'].len)
contract(P, 'vroot::sv_sort', tu=TU, title='SparseVector::sort: sorted, merged, same vector (up to dropped sums of size 1e-16)', opts=H1('sv_sort'),
    pre=lambda c: [wf(c['s']), imp(c['s'].isSorted_, incr(c['s']))],
    post=lambda c: [('arrays', wf(c['s'])), ('strictly increasing indices', incr(c['s'])), ('flag', c['s'].isSorted_), ('size', c['s'].size_ == c.old('s').size_),
        ('components', forall(j_, z3.Or(D(c['s'], j_) == D(c.old('s'), j_), all_(D(c['s'], j_) == 0, absr(D(c.old('s'), j_)) <= EPS)), [D(c['s'], j_)]))],
    axioms=[E_, MKR, MKP, PM_AX], lemmas=[E_zero, E_push, L_perm], specs=SORT,
    hints=[Hint('same vector', lambda e: imp(PM(e.root('s').indices_.arr, e['values'].arr, e.old('s').indices_.arr, e.old('s').values_.arr, e['iperm'].arr, n(e.root('s'))),
                forall(j_, DS(e, j_, n(e.root('s'))) == D(e.old('s'), j_), [DS(e, j_, n(e.root('s')))])), vars=('values', 'iperm')),
           Hint('values permuted', lambda e: fa(k_, 0, e['i'], e['values'].arr[k_] == e.root('s').values_.arr[e['iperm'].arr[k_]], [e['values'].arr[k_]]), vars=('i', 'values', 'iperm')),
           Hint('range', lambda e: all_(e['i'] >= 1, e['i'] <= n(e.root('s'))), vars=('i',)),
           Hint('arrays', lambda e: e.root('s').values_.len == e['indices'].len, vars=('indices',)),
           Hint('current group', lambda e: all_(e['prevIndex'] == e.root('s').indices_.arr[e['i'] - 1], e['sum'] == DS(e, e['prevIndex'], e['i'])), vars=('i', 'prevIndex', 'sum', 'values')),
           Hint('current group not stored yet', lambda e: NW(e, e['prevIndex']) == 0, vars=('prevIndex', 'indices')),
           Hint('finished groups', lambda e: forall(j_, imp(j_ != e['prevIndex'], NW(e, j_) == cut(DS(e, j_, e['i']))), [NW(e, j_), NW0(e, j_)]), vars=('i', 'prevIndex', 'indices', 'values')),
           Hint('kept indices lie below', lambda e: fa(k_, 0, e['indices'].len, e['indices'].arr[k_] < e['prevIndex'], [e['indices'].arr[k_]]), vars=('prevIndex', 'indices')),
           Hint('kept indices increase', lambda e: forall([k_, l_], imp(all_(0 <= k_, k_ < l_, l_ < e['indices'].len), e['indices'].arr[k_] < e['indices'].arr[l_]), [[e['indices'].arr[k_], e['indices'].arr[l_]]]), vars=('indices',)),
           ])
COMP = z3.Function('values_in_order', AR, AI, AR)
_ca, _cp = z3.Const('ca', AR), z3.Const('cp', AI)
COMP_AX = z3.ForAll([_ca, _cp, k_], COMP(_ca, _cp)[k_] == _ca[_cp[k_]], patterns=[COMP(_ca, _cp)[k_]])
def fin(root, cached):
    cnt = (lambda r: r.counter_) if cached else (lambda r: r.cols_.len)
    S = lambda e: e.root('r').cols_.arr
    n0 = lambda e: cnt(e.old('r'))
    L0 = lambda e: e.old('m').colind_.len
    V = lambda e: COMP(e.root('r').values_.arr, e['iperm'].arr)
    DS = lambda e, j, k: E_(S(e), V(e), j, z3.IntVal(0), k)
    New = lambda e, j: E_(e.root('m').colind_.arr, e.root('m').values_.arr, j, L0(e), e.root('m').colind_.len)
    New0 = lambda e, j: E_.F0(e.root('m').colind_.arr, e.root('m').values_.arr, j, L0(e), e.root('m').colind_.len)
    def prefix(m, m0):
        return forall(k_, imp(all_(0 <= k_, k_ < m0.colind_.len), all_(m.colind_.arr[k_] == m0.colind_.arr[k_], m.values_.arr[k_] == m0.values_.arr[k_])), [m.colind_.arr[k_], m.values_.arr[k_]])
    def rising(m, lo): return forall([k_, l_], imp(all_(lo <= k_, k_ < l_, l_ < m.colind_.len), m.colind_.arr[k_] < m.colind_.arr[l_]), [[m.colind_.arr[k_], m.colind_.arr[l_]]])
    contract(P, 'vroot::' + root, tu=TU, title='%s: the sorted, merged row appended to the matrix' % root, opts=H1('sr_rows'), specs=SORT,
        pre=lambda c: [c['r'].cols_.len == c['r'].values_.len, c['m'].colind_.len == c['m'].values_.len, c['m'].ncol_ <= INTMAX, fa(k_, 0, cnt(c['r']), c['r'].cols_.arr[k_] < c['m'].ncol_, c['r'].cols_.arr[k_])]
            + ([c['r'].counter_ <= c['r'].cols_.len] if cached else []),
        post=lambda c: [('entries appended', all_(c.result == c['m'].colind_.len - c.old('m').colind_.len, c['m'].colind_.len == c['m'].values_.len)),
            ('earlier entries kept', prefix(c['m'], c.old('m'))), ('columns increase', rising(c['m'], c.old('m').colind_.len)),
            ('components', forall(j_, E_(c['m'].colind_.arr, c['m'].values_.arr, j_, c.old('m').colind_.len, c['m'].colind_.len) == E_(c.old('r').cols_.arr, c.old('r').values_.arr, j_, z3.IntVal(0), cnt(c.old('r'))))),
            ('rest of the matrix kept', all_(c['m'].nrow_ == c.old('m').nrow_, c['m'].ncol_ == c.old('m').ncol_, c['m'].rowptr_.arr == c.old('m').rowptr_.arr, c['m'].rowptr_.len == c.old('m').rowptr_.len))]
            + ([('cache emptied', c['r'].counter_ == 0)] if cached else []),
        axioms=[E_, MKR, MKP, PM_AX, COMP_AX], lemmas=[E_zero, E_push, L_perm],
        hints=[Hint('same vector', lambda e: imp(PM(S(e), V(e), e.old('r').cols_.arr, e.old('r').values_.arr, e['iperm'].arr, n0(e)), forall(j_, DS(e, j_, n0(e)) == E_(e.old('r').cols_.arr, e.old('r').values_.arr, j_, z3.IntVal(0), n0(e)), [DS(e, j_, n0(e))])), vars=('iperm',)),
           Hint('range', lambda e: all_(e['i'] >= 0, e['i'] <= n0(e)), vars=('i',)),
           Hint('arrays', lambda e: all_(e.root('m').values_.len == e.root('m').colind_.len, e.root('m').colind_.len == L0(e) + e['counter']), vars=('counter',)),
           Hint('current column', lambda e: all_(imp(e['i'] == 0, e['prevCol'] == S(e)[0]), imp(e['i'] > 0, e['prevCol'] == S(e)[e['i'] - 1])), vars=('i', 'prevCol')),
           Hint('current group', lambda e: e['value'] == DS(e, e['prevCol'], e['i']), vars=('i', 'prevCol', 'value', 'iperm')),
           Hint('current group not stored yet', lambda e: New(e, e['prevCol']) == 0, vars=('prevCol',)),
           Hint('finished groups', lambda e: forall(j_, imp(j_ != e['prevCol'], New(e, j_) == DS(e, j_, e['i'])), [New(e, j_), New0(e, j_)]), vars=('i', 'prevCol', 'iperm')),
           Hint('kept columns lie below', lambda e: forall(k_, imp(all_(L0(e) <= k_, k_ < e.root('m').colind_.len), e.root('m').colind_.arr[k_] < e['prevCol']), [e.root('m').colind_.arr[k_]]), vars=('prevCol',)),
           Hint('kept columns increase', lambda e: rising(e.root('m'), L0(e)), vars=()),
           Hint('prefix', lambda e: prefix(e.root('m'), e.old('m')), vars=()),
           Hint('rest', lambda e: all_(e.root('m').nrow_ == e.old('m').nrow_, e.root('m').ncol_ == e.old('m').ncol_, e.root('m').rowptr_.arr == e.old('m').rowptr_.arr, e.root('m').rowptr_.len == e.old('m').rowptr_.len), vars=()),
           Hint('source kept', lambda e: all_(e.root('r').values_.arr == e.old('r').values_.arr, e.root('r').values_.len == e.old('r').values_.len), vars=()),
           ])
fin('sr_finalize', 0)
fin('src_finalize', 1)
# ---- partitions
def pv(c): return c['p'].v.arr
def np_(c): return c['p'].v.len
def part_pre(c): return [wf(c['s']), nodup(c['s']), n(c['s']) > 0, np_(c) > 1, pv(c)[0] == 0, forall([k_, l_], imp(all_(0 <= k_, k_ < l_, l_ < np_(c)), pv(c)[k_] <= pv(c)[l_]), [[pv(c)[k_], pv(c)[l_]]]),
    fa(k_, 0, n(c['s']), c['s'].indices_.arr[k_] < pv(c)[np_(c) - 1], c['s'].indices_.arr[k_])]
def within(c, p): return fa(k_, 0, n(c['s']), all_(c['s'].indices_.arr[k_] >= pv(c)[p], c['s'].indices_.arr[k_] < pv(c)[p + 1]), c['s'].indices_.arr[k_])
def pvx(e): return e.root('p').v.arr
def passed(e, q, x): return all_(e[q] >= 0, e[q] < np_(e.ctx), imp(e['i'] > 0, all_(e[q] == e['i'] - 1, fa(k_, 0, e['i'], x >= pvx(e)[k_], pvx(e)[k_]))))
def PH(): return [
    Hint('first: passed partitions', lambda e: passed(e, 'ret', e['firstLast'].fields['first']), vars=('i', 'ret', 'firstLast')),
    Hint('last: passed partitions', lambda e: passed(e, 'ret2', e['firstLast'].fields['second']), vars=('i', 'ret2', 'firstLast'))]
nopart = lambda c: forall(l_, imp(all_(0 <= l_, l_ + 1 < np_(c)), z3.Not(within(c, l_))), [pv(c)[l_]])
contract(P, 'vroot::sv_findPartition', tu=TU, title='SparseVector::findPartition finds the partition that holds every entry', opts=H1('sv_part'), pre=part_pre,
    post=lambda c: [('a partition', all_(c.result >= 0, c.result + 1 < np_(c))), ('holds every entry', within(c, c.result))], throws=nopart, hints=PH())
contract(P, 'vroot::sv_toChunkPart', tu=TU, title='SparseVector::toChunk of a partition', opts=H1('sv_part'), pre=lambda c: part_pre(c),
    post=lambda c: [('a partition', all_(c.result >= 0, c.result + 1 < np_(c))), ('holds every entry', within(c, c.result)), ('length', c['dest'].len == pv(c)[c.result + 1] - pv(c)[c.result]),
        ('components', fa(j_, 0, c['dest'].len, c['dest'].arr[j_] == D(c['s'], j_ + pv(c)[c.result]), c['dest'].arr[j_]))], throws=nopart, axioms=[E_], lemmas=[E_zero],
    hints=PH() + [Hint('zeroed', lambda e: fa(j_, 0, e['i'], e.root('dest').arr[j_] == 0, e.root('dest').arr[j_]), vars=('i',)),
        Hint('length', lambda e: e.root('dest').len == e['total'], vars=('total',)),
        Hint('copied', lambda e: fa(j_, 0, e['total'], e.root('dest').arr[j_] == D(e.root('s'), j_ + e['offset'], e['i']), e.root('dest').arr[j_]), vars=('i', 'total', 'offset'))])
