"""P02: the sparse product C = A*B."""
from contracts.lib import *
TU = 'crs.cpp'
P = 'P02'
# V(bcol, bval, v, c, lo, k) = sum_{lo<=x<k} [bcol[x]==c] v*bval[x]
V_ = SumFn('crsV', [AI, AR, R, I, I], term=lambda col, val, v, c, lo, x: z3.If(col[x] == c, fm(v, val[x]), z3.RealVal(0)), lof=lambda col, val, v, c, lo: lo)
# PR(acol, aval, brp, bcol, bval, c, lo, k) = sum_{lo<=x<k} sum_y [bcol[y]==c] aval[x]*bval[y], y over row acol[x] of B
PR = SumFn('crsPR', [AI, AR, AI, AI, AR, I, I], term=lambda ac, av, br, bc, bv, c, lo, x: V_(bc, bv, av[x], c, br[ac[x]], br[ac[x] + 1]), lof=lambda ac, av, br, bc, bv, c, lo: lo)
# number of scalar products before entry k of A
PW = SumFn('crsPW', [AI, AI], term=lambda ac, br, x: br[ac[x] + 1] - br[ac[x]], rng=I)
# number of columns already met
CN = SumFn('crsCN', [AI], term=lambda p, x: z3.If(p[x] >= 0, z3.IntVal(1), z3.IntVal(0)), rng=I)
def _pw_mono():
    ac, br, l, k, x = z3.Const('wa', AI), z3.Const('wb', AI), z3.Int('wl'), z3.Int('wk'), z3.Int('wx')
    return [ac, br, l, k], imp(all_(0 <= l, l <= k, forall(x, imp(all_(l <= x, x < k), br[ac[x]] <= br[ac[x] + 1]), [ac[x]])), PW(ac, br, l) <= PW(ac, br, k)), [[PW(ac, br, l), PW(ac, br, k)]], k, l
L_pw = Lemma('the number of products grows along the entries', _pw_mono)
def _cn_store():
    p, c, v, n = z3.Const('np', AI), z3.Int('nc'), z3.Int('nv'), z3.Int('nn')
    t = CN(z3.Store(p, c, v), n)
    one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))
    return [p, c, v, n], imp(all_(0 <= c, 0 <= n), t == CN(p, n) + z3.If(c < n, one(v >= 0) - one(p[c] >= 0), 0)), [t], n, z3.IntVal(0)
L_cnstore = Lemma('marking one column', _cn_store)
def _cn_bound():
    p, c, n = z3.Const('np', AI), z3.Int('nc'), z3.Int('nn')
    return [p, c, n], imp(0 <= n, all_(CN(p, n) >= 0, CN(p, n) <= n, imp(all_(0 <= c, c < n, p[c] < 0), CN(p, n) < n))), [[CN(p, n), p[c]]], n, z3.IntVal(0)
L_cnbound = Lemma('an unmarked column is not counted', _cn_bound)
def _cn_zero():
    p, n, x = z3.Const('np', AI), z3.Int('nn'), z3.Int('nx')
    return [p, n], imp(all_(0 <= n, forall(x, imp(all_(0 <= x, x < n), p[x] < 0), [p[x]])), CN(p, n) == 0), [CN(p, n)], n, z3.IntVal(0)
L_cnzero = Lemma('nothing marked, nothing counted', _cn_zero)
A, B, C = (lambda e: e.root('A')), (lambda e: e.root('B')), (lambda e: e.root('C'))
def pr(e, c, lo, k): return PR(A(e).colind_.arr, A(e).values_.arr, B(e).rowptr_.arr, B(e).colind_.arr, B(e).values_.arr, c, lo, k)
def pw(e, k): return PW(A(e).colind_.arr, B(e).rowptr_.arr, k)
ptr, idx, tmp = (lambda e: e['ptr'].arr), (lambda e: e['index'].arr), (lambda e: e['temp'].arr)
nb = lambda e: B(e).ncol_
fc = lambda e, body, p: forall(j_, imp(all_(0 <= j_, j_ < nb(e)), body), p)
rA = lambda e, d=0: A(e).rowptr_.arr[e['i'] + d]
rowspec = lambda e, i, j: pr(e, j, A(e).rowptr_.arr[i], A(e).rowptr_.arr[i + 1])
curj = lambda e, c: pr(e, c, rA(e), e['j'])
curk = lambda e, c: pr(e, c, rA(e), e['j']) + V_(B(e).colind_.arr, B(e).values_.arr, A(e).values_.arr[e['j']], c, e['istart'], e['k'])
curr = lambda e, c: pr(e, c, rA(e), rA(e, 1))
curE = lambda e, c: E_(C(e).colind_.arr, C(e).values_.arr, c, C(e).rowptr_.arr[e['i']], e['mlast'] + e['s'])
def marks(e, lo): return fc(e, z3.Or(ptr(e)[j_] == -1, all_(lo <= ptr(e)[j_], ptr(e)[j_] < e['itemp'], idx(e)[ptr(e)[j_]] == j_)), [ptr(e)[j_]])
def slots(e, lo): return forall(k_, imp(all_(lo <= k_, k_ < e['itemp']), all_(0 <= idx(e)[k_], idx(e)[k_] < nb(e), ptr(e)[idx(e)[k_]] == k_)), [idx(e)[k_]])
def hints():
    hs = build_hints('C', 'i', 'mlast', rowspec)
    hs = [h for h in hs if not h.name.endswith('inner') and h.name != 'row started']
    for h in hs: h.mod = ('i',)
    fl = [h for h in build_hints('C', 'i', lambda e: e['mlast'] + e['s'], rowspec, cvars=('mlast', 's')) if not h.name.endswith('outer')]
    for h in fl:
        h.name += ' (flush)'; h.fix = ('i',); h.mod = ('s',)
    hs += fl + [
        Hint('lengths', lambda e: all_(e['ptr'].len == nb(e), e['index'].len == nb(e), e['temp'].len == nb(e)), vars=('ptr', 'index', 'temp')),
        Hint('shape', lambda e: all_(C(e).nrow_ == A(e).nrow_, C(e).ncol_ == nb(e), C(e).rowptr_.len == A(e).nrow_ + 1), vars=()),
        Hint('nothing marked', lambda e: fc(e, ptr(e)[j_] == -1, [ptr(e)[j_]]), vars=('ptr', 'i'), mod=('i',)),
        Hint('marks', lambda e: marks(e, 0), vars=('ptr', 'index', 'itemp', 'j'), fix=('i',), mod=('itemp',)),
        Hint('slots', lambda e: slots(e, 0), vars=('ptr', 'index', 'itemp', 'j'), fix=('i',), mod=('itemp',)),
        Hint('number of marks', lambda e: all_(e['itemp'] >= 0, e['itemp'] == CN(ptr(e), nb(e))), vars=('ptr', 'itemp', 'j'), fix=('i',), mod=('itemp',)),
        Hint('sums per entry of A', lambda e: fc(e, z3.If(ptr(e)[j_] < 0, curj(e, j_) == 0, tmp(e)[ptr(e)[j_]] == curj(e, j_)), [ptr(e)[j_]]), vars=('ptr', 'temp', 'j'), fix=('i',), mod=('j',)),
        Hint('sums per entry of B', lambda e: fc(e, z3.If(ptr(e)[j_] < 0, curk(e, j_) == 0, tmp(e)[ptr(e)[j_]] == curk(e, j_)), [ptr(e)[j_]]), vars=('ptr', 'temp', 'j', 'k'), fix=('i', 'j'), mod=('k',)),
        Hint('work', lambda e: e['mlast'] <= pw(e, rA(e)), vars=('mlast', 'i'), mod=('i',)),
        Hint('work per entry of A', lambda e: e['mlast'] + e['itemp'] <= pw(e, e['j']), vars=('mlast', 'itemp', 'j'), fix=('i',), mod=('j',)),
        Hint('work per entry of B', lambda e: e['mlast'] + e['itemp'] <= pw(e, e['j']) + e['k'] - e['istart'], vars=('mlast', 'itemp', 'j', 'k'), fix=('i', 'j'), mod=('k',)),
        Hint('marks left', lambda e: marks(e, e['s']), vars=('ptr', 'index', 'itemp', 's'), fix=('i',), mod=('s',)),
        Hint('slots left', lambda e: slots(e, e['s']), vars=('ptr', 'index', 'itemp', 's'), fix=('i',), mod=('s',)),
        Hint('sums left', lambda e: fc(e, imp(ptr(e)[j_] >= 0, tmp(e)[ptr(e)[j_]] == curr(e, j_)), [ptr(e)[j_]]), vars=('ptr', 'temp', 's'), fix=('i',), mod=('s',)),
        Hint('current row', lambda e: fc(e, curE(e, j_) == z3.If(ptr(e)[j_] >= 0, z3.RealVal(0), curr(e, j_)), [curE(e, j_), ptr(e)[j_]]), vars=('ptr', 's', 'mlast'), fix=('i',), mod=('s',)),
        Hint('pushed columns are unmarked', lambda e: forall(k_, imp(all_(C(e).rowptr_.arr[e['i']] <= k_, k_ < e['mlast'] + e['s']), ptr(e)[C(e).colind_.arr[k_]] < 0), [C(e).colind_.arr[k_]]), vars=('ptr', 's', 'mlast'), fix=('i',), mod=('s',)),
        Hint('no repeats in the row', lambda e: forall([k_, l_], imp(all_(C(e).rowptr_.arr[e['i']] <= k_, k_ < l_, l_ < e['mlast'] + e['s']), C(e).colind_.arr[k_] != C(e).colind_.arr[l_]), [[C(e).colind_.arr[k_], C(e).colind_.arr[l_]]]), vars=('s', 'mlast'), fix=('i',), mod=('s',)),
    ]
    return hs
for z in ('', 'z'):
    contract(P, 'vroot::crs%s_multiply' % z, tu=TU, title='C = A*B' + (' (complex)' if z else ''), opts={'hfuncs': ['crs_multiply']}, axioms=[E_, V_, PR, PW, CN, MK_AX], lemmas=[E_push, L_pw, L_cnstore, L_cnbound, L_cnzero], specs=CRS_SPECS,
        pre=lambda c: [crs_wf(c['A']), crs_wf(c['B']), c['A'].ncol_ == c['B'].nrow_, c['A'].nrow_ > 0, c['B'].ncol_ > 0, c['B'].ncol_ < INTMAX, c['A'].nrow_ < INTMAX,
            PW(c['A'].colind_.arr, c['B'].rowptr_.arr, c['A'].colind_.len) < INTMAX],
        post=lambda c: crs_wf_items(c['C']) + [('shape', all_(c['C'].nrow_ == c['A'].nrow_, c['C'].ncol_ == c['B'].ncol_)),
            ('entries', forall([i_, j_], imp(all_(0 <= i_, i_ < c['A'].nrow_, 0 <= j_, j_ < c['B'].ncol_), crs_elem(c['C'], i_, j_) ==
                PR(c['A'].colind_.arr, c['A'].values_.arr, c['B'].rowptr_.arr, c['B'].colind_.arr, c['B'].values_.arr, j_, c['A'].rowptr_.arr[i_], c['A'].rowptr_.arr[i_ + 1]))))],
        hints=hints())

def prod_entries(c, Cm, A, B): return forall([i_, j_], imp(all_(0 <= i_, i_ < A.nrow_, 0 <= j_, j_ < B.ncol_), crs_elem(Cm, i_, j_) ==
    PR(A.colind_.arr, A.values_.arr, B.rowptr_.arr, B.colind_.arr, B.values_.arr, j_, A.rowptr_.arr[i_], A.rowptr_.arr[i_ + 1])), [crs_elem(Cm, i_, j_)])
def mult_pre(A, B): return [crs_wf(A), crs_wf(B), A.ncol_ == B.nrow_, A.nrow_ > 0, B.ncol_ > 0, B.ncol_ < INTMAX, A.nrow_ < INTMAX, PW(A.colind_.arr, B.rowptr_.arr, A.colind_.len) < INTMAX]
def spec_mult(eng, e, st, obj, vs):
    """contract of multiply(C, A, B), proved as crs_multiply / crsz_multiply"""
    C0, A, B = [eng.read(st, v) for v in vs]
    for g in mult_pre(A, B): eng.oblige(st, g, 'multiply: operands', 'callee precondition', e.get('loc', ''))
    facts = []
    C = eng.fresh(C0.cls, 'product', facts)
    st.assume(*facts)
    st.assume(crs_wf(C), C.nrow_ == A.nrow_, C.ncol_ == B.ncol_, prod_entries(None, C, A, B))
    eng.write(st, vs[0], C)
    return [(st, None)]
contract(P, 'vroot::crs_mulctor', tu=TU, title='CrsMatrix(a*b)', opts={'hfuncs': ['crs_multiply']}, pre=lambda c: mult_pre(c['a'], c['b']), specs={'PsimagLite::multiply': spec_mult},
    post=lambda c: crs_wf_items(c.result) + [('shape', all_(c.result.nrow_ == c['a'].nrow_, c.result.ncol_ == c['b'].ncol_)), ('entries', prod_entries(c, c.result, c['a'], c['b']))])
