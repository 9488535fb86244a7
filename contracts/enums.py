from contracts.lib import *
from contracts.sort import spec_sort, sort_post
P = 'P12'
TU = 'enum.cpp'
SORTSPEC = {'PsimagLite::Sort<std::vector<unsigned long>>::sort': spec_sort, 'PsimagLite::Sort::sort': spec_sort}
KK, LL = z3.Ints('ghost_pivot ghost_next')
def D(c): return c.old('p').data_
def iskk(a, n):
    """KK is the last position whose right neighbour is larger, -1 if there is none"""
    return all_(KK >= -1, KK < n, imp(KK >= 0, all_(KK + 1 < n, a[KK] < a[KK + 1])), forall(k_, imp(all_(KK < k_, 0 <= k_, k_ + 1 < n), a[k_] >= a[k_ + 1]), [a[k_]]))
def isll(a, n):
    """LL is the last position with an entry larger than the pivot"""
    return imp(KK >= 0, all_(LL > KK, LL < n, a[LL] > a[KK], forall(k_, imp(all_(LL < k_, k_ < n), a[k_] <= a[KK]), [a[k_]])))
def swapped(a): return z3.Store(z3.Store(a, KK, a[LL]), LL, a[KK])
def ppost(c):
    a, n, b = D(c).arr, D(c).len, c['p'].data_
    return [('ends exactly at the last permutation', c.result == (KK >= 0)), ('length kept', b.len == n),
        ('nothing changes at the end', imp(KK < 0, forall(k_, imp(all_(0 <= k_, k_ < n), b.arr[k_] == a[k_]), [b.arr[k_]]))),
        ('prefix kept, pivot replaced by the next larger entry', imp(KK >= 0, all_(b.arr[KK] == a[LL], forall(k_, imp(all_(0 <= k_, k_ < KK), b.arr[k_] == a[k_]), [b.arr[k_]])))),
        ('the rest is the rest of the swapped sequence, reversed', imp(KK >= 0, forall(k_, imp(all_(KK < k_, k_ < n), b.arr[k_] == swapped(a)[n + KK - k_]), [b.arr[k_]]))),
        ('the rest is ascending: the smallest continuation', imp(KK >= 0, forall(k_, imp(all_(KK < k_, k_ + 1 < n), b.arr[k_] <= b.arr[k_ + 1]), [b.arr[k_]])))]
def _desc():
    """a sequence that descends step by step descends altogether"""
    a, n, k, l, x = z3.Const('da', AI), z3.Int('dn'), z3.Int('dk'), z3.Int('dl'), z3.Int('dx')
    h = z3.ForAll([x], z3.Implies(z3.And(k <= x, x + 1 < n), a[x] >= a[x + 1]), patterns=[a[x]])
    return [a, n, k, l], z3.Implies(z3.And(h, k <= l, l < n), a[k] >= a[l]), None, l, k
contract(P, 'vroot::perm_increase', tu=TU, title='Permutations::increase: the next permutation in lexicographic order', opts={'hfuncs': ['perms']},
    pre=lambda c: [c['p'].data_.len < INTMAX, iskk(D(c).arr, D(c).len), isll(D(c).arr, D(c).len)], post=ppost,
    hints=[Hint('largest k so far', lambda e: z3.If(KK < e['i'], e['saved'] == KK, all_(e['saved'] >= -1, e['saved'] < e['i'])), vars=('i', 'saved')),
           Hint('largest l so far', lambda e: imp(LL < e['i'], e['saved'] == LL), vars=('i', 'saved')),
           Hint('mirror', lambda e: e['c'] + e['i'] == D(e.ctx).len + KK, vars=('c', 'i')),
           Hint('reversed part', lambda e: forall(k_, imp(all_(e['c'] < k_, k_ < D(e.ctx).len), e.root('p').data_.arr[k_] == e['tmp'].arr[D(e.ctx).len + KK - k_]), [e.root('p').data_.arr[k_]]), vars=('c', 'tmp')),
           Hint('untouched part', lambda e: forall(k_, imp(all_(0 <= k_, k_ <= e['c']), e.root('p').data_.arr[k_] == e['tmp'].arr[k_]), [e.root('p').data_.arr[k_]]), vars=('c', 'tmp'))])
def spost(c):
    v, o = c['v'], c['out']
    return [('length', o.len == v.len), ('starts with the ascending arrangement', forall([k_, l_], imp(all_(0 <= k_, k_ < l_, l_ < v.len), o.arr[k_] <= o.arr[l_]), [[o.arr[k_], o.arr[l_]]])),
        ('made of the given entries', forall(k_, imp(all_(0 <= k_, k_ < v.len), z3.Exists([l_], all_(0 <= l_, l_ < v.len, o.arr[k_] == v.arr[l_]))), [o.arr[k_]]))]
contract(P, 'vroot::perm_start', tu=TU, title='Permutations start from the ascending arrangement', opts={'hfuncs': ['perms']}, specs=SORTSPEC, post=spost,
    hints=[Hint('copied', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), e['this'].data_.arr[k_] == e.root('v').arr[k_]), [e['this'].data_.arr[k_]]), vars=('i',))])
contract(P, 'vroot::pack_unpack', tu=TU, title='PackIndices::unpack: ind == x + y*n with x < n', opts={'hfuncs': ['pack']},
    pre=lambda c: [c['n'] > 0, c['n'] < 1 << 62, c['ind'] < 1 << 62],
    post=lambda c: [('ind == x + y*n', c['ind'] == c['x'] + c['y'] * c['n']), ('x below n', all_(c['x'] >= 0, c['x'] < c['n'])), ('y not negative', c['y'] >= 0)])
contract(P, 'vroot::pack_pack', tu=TU, title='PackIndices::pack: the entry of the inverse permutation at x + y*n', opts={'hfuncs': ['pack']},
    pre=lambda c: [c['n'] > 0, c['x'] < c['n'], c['x'] + c['y'] * c['n'] < c['inv'].len, c['y'] >= 0, c['y'] * c['n'] >= 0, c['inv'].len < 1 << 62],
    post=lambda c: [('value', c.result == c['inv'].arr[c['x'] + c['y'] * c['n']])])

# ------------------------------------------------------------------ decompositions of a sum
GW, GL = z3.Const('ghost_w', AI), z3.Int('ghost_len')
ACC = SumFn('acc', [AI], term=lambda a, k: a[k], rng=I)
BIGSUM = 1 << 30
def _ext():
    a, b, n, x = z3.Const('xa', AI), z3.Const('xb', AI), z3.Int('xn'), z3.Int('xx')
    return [a, b, n], z3.Or(ACC(a, n) == ACC(b, n), z3.Exists([x], z3.And(0 <= x, x < n, a[x] != b[x]))), [[ACC(a, n), ACC(b, n)]], n, z3.IntVal(0)
MT, WM = z3.Function('agrees', AI, I, B), z3.Function('disagreement', AI, I, I)
_ma, _mx = z3.Const('ma', AI), z3.Int('mx')
MT_AX = z3.And(z3.ForAll([_ma, _mx, k_], imp(z3.And(MT(_ma, _mx), 0 <= k_, k_ < _mx), _ma[k_] == GW[k_]), patterns=[z3.MultiPattern(MT(_ma, _mx), _ma[k_])]),
    z3.ForAll([_ma, _mx, k_], imp(z3.And(MT(_ma, _mx), 0 <= k_, k_ < _mx), _ma[k_] == GW[k_]), patterns=[z3.MultiPattern(MT(_ma, _mx), GW[k_])]),
    z3.ForAll([_ma, _mx], z3.Or(MT(_ma, _mx), all_(WM(_ma, _mx) >= 0, WM(_ma, _mx) < _mx, _ma[WM(_ma, _mx)] != GW[WM(_ma, _mx)])), patterns=[MT(_ma, _mx)]))
def _nn():
    n = z3.Int('xn')
    return [n], z3.Implies(GPOS, ACC(GW, n) >= 0), [ACC(GW, n)], n, z3.IntVal(0)
def _mono():
    n, m = z3.Int('xn'), z3.Int('xm')
    return [n, m], z3.Implies(z3.And(0 <= m, m <= n, GPOS), ACC(GW, m) <= ACC(GW, n)), [[ACC(GW, n), ACC(GW, m)]], n, m
GPOS = z3.ForAll([k_], GW[k_] >= 0, patterns=[GW[k_]])
L_ext = Lemma('equal entries have equal sums', _ext)
L_nn = Lemma('sums of non-negative entries are not negative', _nn)
L_mono = Lemma('sums of non-negative entries grow', _mono)
VALID = lambda S: ACC(GW, GL) == S
_eq = {}
def eqf(eng):
    s = eng.T.sort(vec_t(SZ))
    if s not in _eq:
        EQ, WQ = z3.Function('isghost', s, B), z3.Function('isghostw', s, I)
        CW = SumFn('cntghost', [z3.ArraySort(I, s)], term=lambda A, k: z3.If(EQ(A[k]), z3.IntVal(1), z3.IntVal(0)), rng=I)
        _eq[s] = (s, EQ, WQ, CW)
    return _eq[s]
def ax_eq(eng):
    s, EQ, WQ, CW = eqf(eng)
    v = z3.Const('qv', s)
    ln, dat = s.accessor(0, 0)(v), s.accessor(0, 1)(v)
    return z3.And(z3.ForAll([v], imp(EQ(v), ln == GL), patterns=[EQ(v)]),
        z3.ForAll([v, k_], imp(z3.And(EQ(v), 0 <= k_, k_ < GL), dat[k_] == GW[k_]), patterns=[z3.MultiPattern(EQ(v), dat[k_])]),
        z3.ForAll([v, k_], imp(z3.And(EQ(v), 0 <= k_, k_ < GL), dat[k_] == GW[k_]), patterns=[z3.MultiPattern(EQ(v), GW[k_])]),
        z3.ForAll([v], imp(z3.Not(EQ(v)), z3.Or(ln != GL, all_(WQ(v) >= 0, WQ(v) < GL, dat[WQ(v)] != GW[WQ(v)]))), patterns=[EQ(v)]))
def ax_cw(eng): return eqf(eng)[3]
def l_push(eng):
    s, EQ, WQ, CW = eqf(eng)
    def mk_():
        A, c, v, k = z3.Const('qa', z3.ArraySort(I, s)), z3.Int('qc'), z3.Const('qv', s), z3.Int('qk')
        return [A, c, v, k], imp(k <= c, CW(z3.Store(A, c, v), k) == CW(A, k)), [CW(z3.Store(A, c, v), k)], k, z3.IntVal(0)
    return Lemma('an appended entry leaves earlier counts alone', mk_)
def cw(eng, v): return eqf(eng)[3](v.arr, v.len)
def match(d, x): return MT(d.arr, x)
def allvalid(v, S):
    t = v[k_]
    return forall(k_, imp(all_(0 <= k_, k_ < v.len), all_(t.len == GL, ACC(t.arr, GL) == S)), [v.arr[k_]])
def rec_pre(s, data, n, x):
    return [('all decompositions are kept', s.sel_ == 0), ('position', all_(x >= 0, x <= data.len)), ('ghost length', all_(GL == data.len, GL < INTMAX)),
            ('rest to distribute', all_(n >= 0, n == s.sum_ - ACC(data.arr, x), ACC(data.arr, x) >= 0)), ('sum in range', all_(s.sum_ >= 0, s.sum_ < BIGSUM)),
            ('count', all_(s.size_ >= 0, s.size_ == s.data_.len)), ('so far', allvalid(s.data_, s.sum_))]
def rec_post(eng, s0, d0, n, x, s1, d1):
    g = all_(VALID(s0.sum_), match(d0, x))
    return [('the ghost is listed exactly once more, if it extends the given start', cw(eng, s1.data_) == cw(eng, s0.data_) + z3.If(g, 1, 0)),
            ('every listed one has the right length and sum', allvalid(s1.data_, s0.sum_)),
            ('start kept', all_(d1.len == d0.len, forall(k_, imp(all_(0 <= k_, k_ < x), d1.arr[k_] == d0.arr[k_]), [d1.arr[k_]]))),
            ('parameters kept', all_(s1.sum_ == s0.sum_, s1.sel_ == s0.sel_, s1.selection_ == s0.selection_)),
            ('count kept', all_(s1.size_ >= 0, s1.size_ == s1.data_.len))]
def spec_rec(eng, e, st, obj, vs):
    """contract of reentrant1_, proved as sum_rec"""
    loc = e.get('loc', '')
    n, x = [eng.read(st, v) if isinstance(v, Loc) else v for v in vs[1:3]]
    s0, d0 = eng.read(st, obj), eng.read(st, vs[0])
    for nm, g in rec_pre(s0, d0, n, x):
        eng.oblige(st, g, 'reentrant1_: ' + nm, 'callee precondition', loc)
    facts = []
    cls = s0.cls
    s1 = eng.fresh(cls, 'sd', facts)
    d1 = eng.fresh(vec_t(SZ), 'data', facts)
    st.assume(*facts)
    st.assume(*[f for _, f in rec_post(eng, s0, d0, n, x, s1, d1)])
    eng.write(st, obj, s1)
    eng.write(st, vs[0], d1)
    return [(st, None)]
def spec_rec_in(eng, e, st, obj, vs):
    return spec_rec(eng, e, st, obj, vs)
spec_rec_in.recursive = True
def spec_accumulate(eng, e, st, obj, vs):
    """std::accumulate over a whole vector of SizeType"""
    a, b = vs[0], vs[1]
    init = eng.read(st, vs[2]) if isinstance(vs[2], Loc) else vs[2]
    la = Loc(a.loc.root, a.loc.path[:-1])
    v = eng.read(st, la)
    lo, hi = a.loc.path[-1][1], b.loc.path[-1][1]
    if not (eng.quick(st, lo == 0) and eng.quick(st, init == 0)):
        raise Unsupported('accumulate over a part')
    r = ACC(v.arr, hi)
    eng.oblige(st, all_(r >= 0, r < 1 << 62), 'accumulate does not wrap around', 'overflow', e.get('loc', ''))
    return [(st, r)]
def spec_push(eng, e, st, obj, vs):
    """push_back on the list of decompositions: fewer than 2^31 of them exist (the class counts them with an int)"""
    v, x = eng.read(st, obj), vs[0]
    x = eng.read(st, x) if isinstance(x, Loc) else x
    st.assume(v.len < INTMAX)
    eng.assumed.add('fewer than 2^31 decompositions (SumDecomposition counts them with an int)')
    eng.write(st, obj, Vec(eng.T, v.ety, v.len + 1, z3.Store(v.arr, v.len, eng.T.pack(x, v.ety)), 'vector'))
    return [(st, None)]
RQ = 'PsimagLite::SumDecomposition::reentrant1_'
contract(P, 'vroot::sum_rec', tu=TU, title='SumDecomposition::reentrant1_: lists every completion of the given start exactly once', opts={'hfuncs': ['sums']},
    specs={RQ: spec_rec_in, 'std::accumulate': spec_accumulate, 'std::vector<std::vector<unsigned long>>::push_back': spec_push}, axioms=[ACC, ax_eq, ax_cw, MT_AX], lemmas=[L_ext, L_nn, L_mono, l_push],
    pre=lambda c: [GPOS] + [f for _, f in rec_pre(c['s'], c['data'], c['n'], c['x'])],
    post=lambda c: rec_post(c.eng, c.old('s'), c.old('data'), c.old('n'), c.old('x'), c['s'], c['data']),
    hints=[Hint('listed so far', lambda e: cw(e.eng, e.root('s').data_) == cw(e.eng, e.old('s').data_) +
                z3.If(all_(VALID(e.old('s').sum_), match(e.old('data'), e.old('x')), GW[e.old('x')] < e['i']), 1, 0), vars=('i',)),
           Hint('room left', lambda e: (lambda x: all_(ACC(GW, x + 1) == ACC(GW, x) + GW[x], ACC(GW, x + 1) <= ACC(GW, GL), imp(match(e.old('data'), x), ACC(GW, x) == ACC(e.old('data').arr, x))))(e.old('x'))),
           Hint('valid so far', lambda e: allvalid(e.root('s').data_, e.old('s').sum_)),
           Hint('kept', lambda e: all_(e.root('s').sum_ == e.old('s').sum_, e.root('s').sel_ == e.old('s').sel_, e.root('s').selection_ == e.old('s').selection_)),
           Hint('count', lambda e: all_(e.root('s').size_ >= 0, e.root('s').size_ == e.root('s').data_.len)),
           Hint('start', lambda e: all_(e.root('data').len == e.old('data').len, forall(k_, imp(all_(0 <= k_, k_ < e.old('x')), e.root('data').arr[k_] == e.old('data').arr[k_]), [e.root('data').arr[k_]])))])
contract(P, 'vroot::sum_all', tu=TU, title='SumDecomposition lists every decomposition exactly once', opts={'hfuncs': ['sums']},
    specs={RQ: spec_rec}, axioms=[ACC, ax_eq, ax_cw, MT_AX], lemmas=[L_ext, L_nn, L_mono, l_push],
    pre=lambda c: [GPOS, GL == c['total'], c['total'] >= 0, c['total'] < INTMAX, c['sum'] < BIGSUM],
    post=lambda c: [('listed exactly once if it adds up, not at all otherwise', cw(c.eng, c['out']) == z3.If(VALID(c['sum']), 1, 0)),
                    ('every listed one has the right length and sum', allvalid(c['out'], c['sum'])), ('size', c['size'] == c['out'].len)])
