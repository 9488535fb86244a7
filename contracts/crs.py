from contracts.lib import *
TU = 'crs.cpp'
P = 'P01'

contract(P, 'vroot::crs_checkValidity', tu=TU, title='CrsMatrix::checkValidity accepts every well-formed non-empty matrix',
    pre=lambda c: [crs_wf(c['a']), c['a'].nrow_ > 0, c['a'].ncol_ > 0],
    post=lambda c: [],
    hints=[Hint('p zero', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['p'].len), e['p'].arr[k_] == 0), [e['p'].arr[k_]])),
           Hint('p marks the examined part of the row', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['p'].len, e['p'].arr[k_] != 0),
                z3.Exists([l_], z3.And(l_ >= e.root('a').rowptr_.arr[e['i']], l_ < e['k'], e.root('a').colind_.arr[l_] == k_))), [e['p'].arr[k_]])),
           Hint('p unmarked so far', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['p'].len, e['p'].arr[k_] != 0),
                z3.Exists([l_], z3.And(l_ >= e['k'], l_ < e.root('a').rowptr_.arr[e['i'] + 1], e.root('a').colind_.arr[l_] == k_))), [e['p'].arr[k_]])),
           ])

contract('P03', 'vroot::crs_makeDiagonal', tu=TU, title='makeDiagonal gives value*identity',
    pre=lambda c: [crs_shape(c['a']), c['n'] < INTMAX],
    post=lambda c: crs_wf_items(c['a']) + [('square', z3.And(c['a'].nrow_ == c['n'], c['a'].ncol_ == c['n'])),
        ('entries', forall([i_, j_], imp(all_(0 <= i_, i_ < c['n'], 0 <= j_, j_ < c['n']), crs_elem(c['a'], i_, j_) == z3.If(i_ == j_, c['v'], 0))))],
    axioms=[E_],
    hints=[Hint('filled', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), all_(e.root('a').rowptr_.arr[k_] == k_, e.root('a').colind_.arr[k_] == k_, e.root('a').values_.arr[k_] == e['value'])),
            [e.root('a').rowptr_.arr[k_], e.root('a').colind_.arr[k_], e.root('a').values_.arr[k_]]))])

def wrow(M, b, i, j):
    rp = M.rowptr_.arr
    return z3.If(i < M.nrow_, W_(M.colind_.arr, M.values_.arr, b, j, rp[i], rp[i + 1]), z3.RealVal(0))
def plus_spec(e, i, j):
    return wrow(e.root('B'), e.root('b1'), i, j) + wrow(e.root('C'), e.root('c1'), i, j)
def inrow(e, M, j, lo, hi):
    return z3.Exists([l_], z3.And(lo <= l_, l_ < hi, M.colind_.arr[l_] == j))
def wr(e, m, b, j, hi=None):
    M = e.root(m)
    return W_(M.colind_.arr, M.values_.arr, e.root(b), j, e['kstart_' + m], e['kend_' + m] if hi is None else hi)
def rowB(e, j, hi=None): return inrow(e, e.root('B'), j, e['kstart_B'], e['kend_B'] if hi is None else hi)
def rowC(e, j, hi=None): return inrow(e, e.root('C'), j, e['kstart_C'], e['kend_C'] if hi is None else hi)
def vt(e): return e['valueTmp'].arr
def ex(e): return e['is_examined_already'].arr
def fj(e, body, p): return forall(j_, imp(all_(0 <= j_, j_ < e['valueTmp'].len), body), p)
def curE(e, j):
    A = e.root('A')
    return E_(A.colind_.arr, A.values_.arr, j, A.rowptr_.arr[e['irow']], e['counter'])
plus_hints = build_hints('A', 'irow', 'counter', plus_spec, lambda e: e['counter'] <= z3.If(e['irow'] < e.root('B').nrow_, e.root('B').rowptr_.arr[e['irow']], e.root('B').colind_.len) + z3.If(e['irow'] < e.root('C').nrow_, e.root('C').rowptr_.arr[e['irow']], e.root('C').colind_.len)) + [
    Hint('tmp zero', lambda e: fj(e, vt(e)[j_] == 0, [vt(e)[j_]])),
    Hint('examined false', lambda e: fj(e, z3.Not(ex(e)[j_]), [ex(e)[j_]])),
    Hint('tmp=B part', lambda e: fj(e, vt(e)[j_] == wr(e, 'B', 'b1', j_, e['k']), [vt(e)[j_]])),
    Hint('tmp=B+C part', lambda e: fj(e, vt(e)[j_] == wr(e, 'B', 'b1', j_) + wr(e, 'C', 'c1', j_, e['k']), [vt(e)[j_]])),
    Hint('examined = B part', lambda e: fj(e, ex(e)[j_] == rowB(e, j_, e['k']), [ex(e)[j_]])),
    Hint('examined = B + C part', lambda e: fj(e, ex(e)[j_] == z3.Or(rowB(e, j_), rowC(e, j_, e['k'])), [ex(e)[j_]])),
    Hint('current row', lambda e: fj(e, curE(e, j_) == z3.If(ex(e)[j_], vt(e)[j_], z3.RealVal(0)), [curE(e, j_), ex(e)[j_]])),
    Hint('pushed columns are examined', lambda e: forall(k_, imp(all_(e.root('A').rowptr_.arr[e['irow']] <= k_, k_ < e['counter']), ex(e)[e.root('A').colind_.arr[k_]]), [e.root('A').colind_.arr[k_]])),
    Hint('no repeated column in the current row', lambda e: forall([k_, l_], imp(all_(e.root('A').rowptr_.arr[e['irow']] <= k_, k_ < l_, l_ < e['counter']), e.root('A').colind_.arr[k_] != e.root('A').colind_.arr[l_]), [[e.root('A').colind_.arr[k_], e.root('A').colind_.arr[l_]]])),
    Hint('reset B', lambda e: fj(e, imp(z3.Or(vt(e)[j_] != 0, ex(e)[j_]), z3.Or(inrow(e, e.root('B'), j_, e['k'], e['kend_B']), rowC(e, j_))), [vt(e)[j_], ex(e)[j_]])),
    Hint('reset C', lambda e: fj(e, imp(z3.Or(vt(e)[j_] != 0, ex(e)[j_]), inrow(e, e.root('C'), j_, e['k'], e['kend_C'])), [vt(e)[j_], ex(e)[j_]])),
    Hint('count B', lambda e: e['counter'] - e.root('A').rowptr_.arr[e['irow']] <= e['k'] - e['kstart_B']),
    Hint('count C', lambda e: e['counter'] - e.root('A').rowptr_.arr[e['irow']] <= e['kend_B'] - e['kstart_B'] + e['k'] - e['kstart_C']),
]
contract(P, 'vroot::crs_operatorPlus', tu=TU, title='operatorPlus: A = B*b1 + C*c1 entry by entry',
    pre=lambda c: [crs_wf(c['B']), crs_wf(c['C']), c['B'].colind_.len + c['C'].colind_.len < INTMAX,
                   z3.Or(c['B'].nrow_ > 0, c['C'].nrow_ > 0), z3.Or(c['B'].ncol_ > 0, c['C'].ncol_ > 0)],
    post=lambda c: crs_wf_items(c['A']) + [
        ('rows', c['A'].nrow_ == z3.If(c['B'].nrow_ >= c['C'].nrow_, c['B'].nrow_, c['C'].nrow_)),
        ('cols', c['A'].ncol_ == z3.If(c['B'].ncol_ >= c['C'].ncol_, c['B'].ncol_, c['C'].ncol_)),
        ('entries', forall([i_, j_], imp(all_(0 <= i_, i_ < c['A'].nrow_, 0 <= j_, j_ < c['A'].ncol_),
                    crs_elem(c['A'], i_, j_) == wrow(c['B'], c['b1'], i_, j_) + wrow(c['C'], c['c1'], i_, j_))))],
    axioms=[E_, W_], lemmas=[E_push, W_zero], specs=CRS_SPECS, hints=plus_hints)
