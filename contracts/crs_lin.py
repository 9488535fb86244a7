"""P01: scaling and in-place / expression forms of linear combinations, on top of operatorPlus."""
from contracts.lib import *
from contracts.crs import wrow, plus_hints
TU = 'crs.cpp'
P = 'P01'
_x = z3.Real('flx')
ONE_AX = z3.ForAll([_x], fm(_x, z3.RealVal(1)) == _x, patterns=[fm(_x, z3.RealVal(1))])
def _lem_one():
    col, val = z3.Const('ec', AI), z3.Const('ev', AR)
    j, lo, k = z3.Ints('ej elo ek')
    t = W_(col, val, z3.RealVal(1), j, lo, k)
    return [col, val, j, lo, k], t == E_(col, val, j, lo, k), [t], k, lo
W_one = Lemma('a row weighted by one', _lem_one)
def _lem_scale():
    col, val, v2 = z3.Const('ec', AI), z3.Const('ev', AR), z3.Const('ew', AR)
    b, j, lo, k, x = z3.Real('eb'), z3.Int('ej'), z3.Int('elo'), z3.Int('ek'), z3.Int('ex')
    t, w = E_(col, v2, j, lo, k), W_(col, val, b, j, lo, k)
    return [col, val, v2, b, j, lo, k], imp(forall(x, imp(all_(lo <= x, x < k), v2[x] == fm(val[x], b)), [v2[x]]), t == w), [[t, w]], k, lo
E_scaled = Lemma('a row whose values were multiplied', _lem_scale)
def same_structure(A, B): return all_(A.nrow_ == B.nrow_, A.ncol_ == B.ncol_, A.rowptr_.len == B.rowptr_.len, A.colind_.len == B.colind_.len, A.values_.len == B.values_.len,
    A.rowptr_.arr == B.rowptr_.arr, A.colind_.arr == B.colind_.arr)
def scaled(root, res, src, title, hs, dst=lambda e: e.root('a')):
    contract(P, 'vroot::' + root, tu=TU, title=title, opts={'hfuncs': ['crs_pluseq']}, axioms=[E_, W_], lemmas=[E_scaled],
        pre=lambda c: [crs_wf(src(c))] + ([crs_wf(c['a'])] if 'a' in c.locs else []),
        post=lambda c: [('structure kept', same_structure(res(c), src(c)))] +
          [('every value multiplied', forall(k_, imp(all_(0 <= k_, k_ < src(c).values_.len), res(c).values_.arr[k_] == fm(src(c).values_.arr[k_], c['x'])), [res(c).values_.arr[k_]])),
           ('entries', forall([i_, j_], imp(all_(0 <= i_, i_ < res(c).nrow_, 0 <= j_, j_ < res(c).ncol_), crs_elem(res(c), i_, j_) == wrow(src(c), c['x'], i_, j_))))],
        hints=[Hint('done', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), dst(e).values_.arr[k_] == fm(hs(e).values_.arr[k_], e.root('x'))), [dst(e).values_.arr[k_]]), vars=('i',)),
            Hint('to do', lambda e: forall(k_, imp(all_(e['i'] <= k_, k_ < dst(e).values_.len), dst(e).values_.arr[k_] == hs(e).values_.arr[k_]), [dst(e).values_.arr[k_]]), vars=('i',)),
            Hint('structure', lambda e: same_structure(dst(e), hs(e)), vars=())])
scaled('crs_scale', lambda c: c['a'], lambda c: c.old('a'), 'a *= x', lambda e: e.ctx.old('a'))
scaled('crsz_scale', lambda c: c['a'], lambda c: c.old('a'), 'a *= x (complex)', lambda e: e.ctx.old('a'))
scaled('crs_assignx', lambda c: c['a'], lambda c: c['m'], 'a = x*m', lambda e: e.root('m'))
scaled('crsz_assignx', lambda c: c['a'], lambda c: c['m'], 'a = x*m (complex)', lambda e: e.root('m'))
scaled('crs_ctorx', lambda c: c.result, lambda c: c['m'], 'CrsMatrix(x*m)', lambda e: e.root('m'), lambda e: e['this'])
contract(P, 'vroot::crsz_operatorPlus', tu=TU, title='operatorPlus (complex)', opts={'hfuncs': ['crs_operatorPlus']},
    pre=lambda c: [crs_wf(c['B']), crs_wf(c['C']), c['B'].colind_.len + c['C'].colind_.len < INTMAX,
                   z3.Or(c['B'].nrow_ > 0, c['C'].nrow_ > 0), z3.Or(c['B'].ncol_ > 0, c['C'].ncol_ > 0)],
    post=lambda c: crs_wf_items(c['A']) + [
        ('rows', c['A'].nrow_ == z3.If(c['B'].nrow_ >= c['C'].nrow_, c['B'].nrow_, c['C'].nrow_)),
        ('cols', c['A'].ncol_ == z3.If(c['B'].ncol_ >= c['C'].ncol_, c['B'].ncol_, c['C'].ncol_)),
        ('entries', forall([i_, j_], imp(all_(0 <= i_, i_ < c['A'].nrow_, 0 <= j_, j_ < c['A'].ncol_),
                    crs_elem(c['A'], i_, j_) == wrow(c['B'], c['b1'], i_, j_) + wrow(c['C'], c['c1'], i_, j_))))],
    axioms=[E_, W_], lemmas=[E_push, W_zero], specs=CRS_SPECS, hints=plus_hints)
def spec_plus(eng, e, st, obj, vs):
    """contract of operatorPlus, proved as crs_operatorPlus / crsz_operatorPlus"""
    A0, B, b1, C, c1 = [eng.read(st, v) for v in vs]
    eng.oblige(st, all_(crs_wf(B), crs_wf(C), B.colind_.len + C.colind_.len < INTMAX, z3.Or(B.nrow_ > 0, C.nrow_ > 0), z3.Or(B.ncol_ > 0, C.ncol_ > 0)),
        'operatorPlus: operands', 'callee precondition', e.get('loc', ''))
    facts = []
    A = eng.fresh(A0.cls, 'plus', facts)
    st.assume(*facts)
    mx = lambda x, y: z3.If(x >= y, x, y)
    st.assume(crs_wf(A), A.nrow_ == mx(B.nrow_, C.nrow_), A.ncol_ == mx(B.ncol_, C.ncol_),
        forall([i_, j_], imp(all_(0 <= i_, i_ < A.nrow_, 0 <= j_, j_ < A.ncol_), crs_elem(A, i_, j_) == wrow(B, b1, i_, j_) + wrow(C, c1, i_, j_)), [crs_elem(A, i_, j_)]))
    eng.write(st, vs[0], A)
    return [(st, None)]
def elem0(M, i, j): return z3.If(i < M.nrow_, crs_elem(M, i, j), z3.RealVal(0))
def pluseq(root, title, x):
    mx = lambda a, b: z3.If(a >= b, a, b)
    contract(P, 'vroot::' + root, tu=TU, title=title, opts={'hfuncs': ['crs_pluseq']}, axioms=[E_, W_, ONE_AX], lemmas=[W_one], specs={'PsimagLite::operatorPlus': spec_plus},
        pre=lambda c: [crs_wf(c['a']), crs_wf(c['m']), c['m'].nrow_ == c['m'].ncol_, c['m'].nrow_ > 0, c['a'].colind_.len + c['m'].colind_.len < INTMAX],
        post=lambda c: crs_wf_items(c['a']) + [('shape', all_(c['a'].nrow_ == mx(c.old('a').nrow_, c['m'].nrow_), c['a'].ncol_ == mx(c.old('a').ncol_, c['m'].ncol_))),
            ('entries', forall([i_, j_], imp(all_(0 <= i_, i_ < c['a'].nrow_, 0 <= j_, j_ < c['a'].ncol_),
                crs_elem(c['a'], i_, j_) == elem0(c.old('a'), i_, j_) + (wrow(c['m'], c['x'], i_, j_) if x else elem0(c['m'], i_, j_)))))])
pluseq('crs_pluseq', 'a += m', 0)
pluseq('crs_pluseqx', 'a += x*m', 1)
pluseq('crsz_pluseqx', 'a += x*m (complex)', 1)
