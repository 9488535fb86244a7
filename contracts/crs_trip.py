"""P03: sparse matrix from triplets (row, column, value) in any order."""
from contracts.lib import *
from contracts.sort import spec_sort, ISPERM_AX, INVERSE
TU = 'crs.cpp'
P = 'P03'
# sum over the triplets x < k at place (i, j) whose position in sorted order is below m
UT = SumFn('tripsum', [AI, AI, AR, AI, I, I, I], term=lambda rw, cl, vl, inv, i, j, m, x: z3.If(z3.And(inv[x] < m, rw[x] == i, cl[x] == j), vl[x], z3.RealVal(0)))
TT = SumFn('trips', [AI, AI, AR, I, I], term=lambda rw, cl, vl, i, j, x: z3.If(z3.And(rw[x] == i, cl[x] == j), vl[x], z3.RealVal(0)))
def _a(): return z3.Const('tr', AI), z3.Const('tc', AI), z3.Const('tv', AR), z3.Const('tinv', AI), z3.Int('ti'), z3.Int('tj'), z3.Int('tm'), z3.Int('tn'), z3.Int('tx')
def _same():
    r, c, v, inv, i, j, m, k, x = _a()
    m1 = z3.Int('tm1')
    t, u = UT(r, c, v, inv, i, j, m1, k), UT(r, c, v, inv, i, j, m, k)
    return [r, c, v, inv, i, j, m, m1, k], imp(all_(m1 == m + 1, forall(x, imp(all_(0 <= x, x < k), inv[x] != m), [inv[x]])), t == u), [[t, u]], k, z3.IntVal(0)
L_same = Lemma('triplet sums: no new triplet', _same)
def _step():
    r, c, v, inv, i, j, m, k, x = _a()
    p, m1 = z3.Ints('tp tm1')
    t, u = UT(r, c, v, inv, i, j, m1, k), UT(r, c, v, inv, i, j, m, k)
    return [r, c, v, inv, i, j, m, m1, p, k], imp(all_(m1 == m + 1, 0 <= p, p < k, inv[p] == m, forall(x, imp(all_(0 <= x, x < k, x != p), inv[x] != m), [inv[x]])),
        t == u + z3.If(z3.And(r[p] == i, c[p] == j), v[p], z3.RealVal(0))), [[t, u, inv[p]]], k, p + 1
L_step = Lemma('triplet sums: one new triplet', _step, uses=[L_same])
def _none():
    r, c, v, inv, i, j, m, k, x = _a()
    t = UT(r, c, v, inv, i, j, m, k)
    return [r, c, v, inv, i, j, m, k], imp(forall(x, imp(all_(0 <= x, x < k, inv[x] < m), r[x] != i), [inv[x]]), t == 0), [t], k, z3.IntVal(0)
L_none = Lemma('triplet sums: nothing in that row', _none)
def _all():
    r, c, v, inv, i, j, m, k, x = _a()
    t = UT(r, c, v, inv, i, j, m, k)
    return [r, c, v, inv, i, j, m, k], imp(forall(x, imp(all_(0 <= x, x < k), inv[x] < m), [inv[x]]), t == TT(r, c, v, i, j, k)), [t], k, z3.IntVal(0)
L_all = Lemma('triplet sums: everything', _all)
DIST = z3.Bool('no_place_twice')
A = lambda e: e['this']
inv = lambda e: INVERSE(e['iperm'].arr)
N = lambda e: e.root('rows').len
def ut(e, i, j): return UT(e.root('rows').arr, e.root('cols').arr, e.root('vals').arr, inv(e), i, j, e['counter'], N(e))
cur = lambda e, j: E_(A(e).colind_.arr, A(e).values_.arr, j, A(e).rowptr_.arr[e['row']], e['counter'])
def hints():
    hs = [h for h in build_hints(A, 'row', 'counter', lambda e, i, j: ut(e, i, j)) if not h.name.startswith('no repeated') and h.name != 'row started']
    S = lambda e: e['rows'].arr
    for tag, kw, rp in (('outer', dict(mod=('row',)), lambda e: z3.Store(A(e).rowptr_.arr, e['row'], e['counter'])), ('inner', dict(fix=('row',)), lambda e: A(e).rowptr_.arr)):
        hs.append(Hint('no repeats ' + tag, lambda e, rp=rp: imp(DIST, forall([i_, k_, l_], imp(all_(0 <= i_, i_ < e['row'], rp(e)[i_] <= k_, k_ < l_, l_ < rp(e)[i_ + 1]), A(e).colind_.arr[k_] != A(e).colind_.arr[l_]),
            [[A(e).rowptr_.arr[i_], A(e).colind_.arr[k_], A(e).colind_.arr[l_]]])), vars=('row', 'counter'), **kw))
    return hs + [
        Hint('sorted rows by place', lambda e: forall(k_, imp(all_(0 <= k_, k_ < N(e)), all_(e.root('rows').arr[e['iperm'].arr[k_]] == S(e)[k_], inv(e)[e['iperm'].arr[k_]] == k_)), [e['iperm'].arr[k_]]), vars=('rows', 'iperm')),
        Hint('sorted rows by triplet', lambda e: forall(k_, imp(all_(0 <= k_, k_ < N(e)), all_(S(e)[inv(e)[k_]] == e.root('rows').arr[k_], 0 <= inv(e)[k_], inv(e)[k_] < N(e))), [inv(e)[k_]]), vars=('rows', 'iperm')),
        Hint('counter', lambda e: e['counter'] <= N(e), vars=('counter',)),
        Hint('shape', lambda e: all_(A(e).rowptr_.len == e['rank'] + 1, A(e).nrow_ == e['rank'], A(e).ncol_ == e['rank']), vars=('rank',)),
        Hint('rows placed', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['counter']), S(e)[k_] < e['row']), [S(e)[k_]]), vars=('rows', 'row', 'counter'), mod=('row',)),
        Hint('rows to place', lambda e: forall(k_, imp(all_(e['counter'] <= k_, k_ < N(e)), S(e)[k_] >= e['row']), [S(e)[k_]]), vars=('rows', 'row', 'counter')),
        Hint('rows placed in', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['counter']), z3.If(k_ < A(e).rowptr_.arr[e['row']], S(e)[k_] < e['row'], S(e)[k_] == e['row'])), [S(e)[k_]]), vars=('rows', 'row', 'counter'), fix=('row',)),
        Hint('columns taken', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['counter']), A(e).colind_.arr[k_] == e.root('cols').arr[e['iperm'].arr[k_]]), [A(e).colind_.arr[k_]]), vars=('iperm', 'counter')),
        Hint('current row', lambda e: forall(j_, imp(all_(mk(j_), 0 <= j_, j_ < e['rank']), cur(e, j_) == ut(e, e['row'], j_)), [cur(e, j_), mk(j_)]), vars=('row', 'counter', 'rank'), fix=('row',)),
    ]
contract(P, 'vroot::crs_triplet', tu=TU, title='CrsMatrix(rank, rows, columns, values): entries are the sums of the triplets at their place, in any order of the triplets', opts={'hfuncs': ['crs_triplet']},
    axioms=[E_, UT, TT, MK_AX, ISPERM_AX], lemmas=[E_push, L_same, L_step, L_none, L_all], specs={'PsimagLite::Sort<std::vector<unsigned long>>::sort': spec_sort},
    pre=lambda c: [c['rows'].len == c['cols'].len, c['rows'].len == c['vals'].len, c['rows'].len < INTMAX, c['n'] < INTMAX,
        forall(k_, imp(all_(0 <= k_, k_ < c['rows'].len), c['rows'].arr[k_] < c['n']), [c['rows'].arr[k_]]), forall(k_, imp(all_(0 <= k_, k_ < c['cols'].len), c['cols'].arr[k_] < c['n']), [c['cols'].arr[k_]]),
        imp(DIST, forall([k_, l_], imp(all_(0 <= k_, k_ < c['rows'].len, 0 <= l_, l_ < c['rows'].len, k_ != l_, c['rows'].arr[k_] == c['rows'].arr[l_]), c['cols'].arr[k_] != c['cols'].arr[l_]), [[c['cols'].arr[k_], c['cols'].arr[l_]]]))],
    post=lambda c: [(n, imp(DIST, g)) if n.startswith('no repeated') else (n, g) for n, g in crs_wf_items(c.result)] + [('shape', all_(c.result.nrow_ == c['n'], c.result.ncol_ == c['n'])),
        ('entries', forall([i_, j_], imp(all_(0 <= i_, i_ < c['n'], 0 <= j_, j_ < c['n']), crs_elem(c.result, i_, j_) == TT(c['rows'].arr, c['cols'].arr, c['vals'].arr, i_, j_, c['rows'].len))))],
    hints=hints())
