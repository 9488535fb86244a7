"""P02: product with the transpose, on top of the contracts of its three steps."""
from contracts.lib import *
import contracts.matrix as MX
from contracts.crs_prod import V_, PR, PW, spec_mult
from contracts.crs_conv import spec_toFull, L_rowof_v
TU = 'crs.cpp'
P = 'P02'
_v = z3.Real('zlv')
ZERO_AX = z3.ForAll([_v], fm(_v, z3.RealVal(0)) == 0, patterns=[fm(_v, z3.RealVal(0))])
# TW(acol, bcol, nb, k) = sum_{x<k} number of entries of b in column acol[x]
TW = SumFn('crsTW', [AI, AI, I], term=lambda ac, bc, nb, x: CNT(bc, ac[x], nb), rng=I)
# row i of a against row j of b: sum_x a.val[x] * b(j, a.col[x])
DT = SumFn('crsDT', [AI, AR, AI, AR, I, I, I], term=lambda ac, av, bc, bv, blo, bhi, lo, x: fm(av[x], E_(bc, bv, ac[x], blo, bhi)), lof=lambda ac, av, bc, bv, blo, bhi, lo: lo)
def _ve():
    col, val, v, c, lo, k, x, y = z3.Const('ec', AI), z3.Const('ev', AR), z3.Real('evv'), z3.Int('ecc'), z3.Int('elo'), z3.Int('ek'), z3.Int('ex'), z3.Int('ey')
    t = V_(col, val, v, c, lo, k)
    return [col, val, v, c, lo, k], imp(forall([x, y], imp(all_(lo <= x, x < y, y < k), col[x] != col[y]), [[col[x], col[y]]]), t == fm(v, E_(col, val, c, lo, k))), [t], k, lo
from contracts.crs_conv import E_zero as EZ
L_ve = Lemma('a row without repeats, weighted', _ve, uses=[EZ])
def _pwtw():
    ac, br, bc, nb, k, x = z3.Const('wa', AI), z3.Const('wb', AI), z3.Const('wc', AI), z3.Int('wn'), z3.Int('wk'), z3.Int('wx')
    t, u = PW(ac, br, k), TW(ac, bc, nb, k)
    return [ac, br, bc, nb, k], imp(forall(x, imp(all_(0 <= x, x < k), br[ac[x] + 1] - br[ac[x]] == CNT(bc, ac[x], nb)), [ac[x]]), t == u), [[t, u]], k, z3.IntVal(0)
L_pwtw = Lemma('number of products by columns', _pwtw)
def _prdt():
    ac, av, br, tc, tv, bc, bv = z3.Const('qa', AI), z3.Const('qav', AR), z3.Const('qr', AI), z3.Const('qt', AI), z3.Const('qtv', AR), z3.Const('qb', AI), z3.Const('qbv', AR)
    j, lo, k, blo, bhi, x = z3.Ints('qj qlo qk qbl qbh qx')
    t, u = PR(ac, av, br, tc, tv, j, lo, k), DT(ac, av, bc, bv, blo, bhi, lo, k)
    return [ac, av, br, tc, tv, bc, bv, j, lo, k, blo, bhi], imp(forall(x, imp(all_(lo <= x, x < k), V_(tc, tv, av[x], j, br[ac[x]], br[ac[x] + 1]) == fm(av[x], E_(bc, bv, ac[x], blo, bhi))), [ac[x]]), t == u), [[t, u]], k, lo
L_prdt = Lemma('products with the transpose, term by term', _prdt)
def spec_tc(eng, e, st, obj, vs):
    """contract of transposeConjugate (real), proved as crs_transposeConjugate under P03"""
    B0, A = [eng.read(st, v) for v in vs]
    eng.oblige(st, all_(crs_wf(A), A.colind_.len <= INTMAX, A.nrow_ > 0, A.ncol_ < INTMAX), 'transposeConjugate: operand', 'callee precondition', e.get('loc', ''))
    facts = []
    B = eng.fresh(B0.cls, 'transposed', facts)
    st.assume(*facts)
    for n, g in crs_wf_rows(B): st.assume(g)
    st.assume(B.nrow_ == A.ncol_, B.ncol_ == A.nrow_,
        forall(j_, imp(all_(0 <= j_, j_ < A.ncol_), B.rowptr_.arr[j_ + 1] - B.rowptr_.arr[j_] == CNT(A.colind_.arr, j_, A.colind_.len)), [B.rowptr_.arr[j_]]),
        forall([i_, j_], imp(all_(0 <= i_, i_ < A.nrow_, 0 <= j_, j_ < A.ncol_), crs_elem(B, j_, i_) == crs_elem(A, i_, j_)), [[crs_elem(B, j_, i_)], [crs_elem(A, i_, j_)]]))
    # every stored entry lies in a row, hence its column is in range
    eng.oblige(st, forall(k_, imp(all_(mk(k_), 0 <= k_, k_ < B.colind_.len), all_(0 <= B.colind_.arr[k_], B.colind_.arr[k_] < B.ncol_))), 'column indices of the transpose', 'callee precondition', e.get('loc', ''))
    st.assume(crs_cols(B))
    eng.write(st, vs[0], B)
    return [(st, None)]
contract(P, 'vroot::crs_multiplyTc', tu=TU, title='multiplyTc: a times the transpose of b', opts={'hfuncs': ['crs_multiply']}, axioms=MX.IMUL_AX + MX.AT_AX[:3] + [E_, V_, PR, PW, TW, CNT, DT, ZERO_AX, MK_AX], lemmas=[EZ, L_rowof_v, L_ve, L_pwtw, L_prdt],
    specs={'PsimagLite::transposeConjugate': spec_tc, 'PsimagLite::multiply': spec_mult, 'PsimagLite::crsMatrixToFullMatrix': spec_toFull},
    pre=lambda c: [crs_wf(c['a']), crs_wf(c['b']), c['a'].ncol_ == c['b'].ncol_, c['a'].nrow_ > 0, c['b'].nrow_ > 0, c['a'].nrow_ < INTMAX, c['b'].nrow_ < INTMAX, c['b'].ncol_ < INTMAX,
        c['b'].colind_.len <= INTMAX, MX.small(c['a'].nrow_, c['b'].nrow_), TW(c['a'].colind_.arr, c['b'].colind_.arr, c['b'].colind_.len, c['a'].colind_.len) < INTMAX],
    post=lambda c: [('shape', MX.dims(c.result, c['a'].nrow_, c['b'].nrow_)), ('entries', MX.entries(c.result, lambda i, j: DT(c['a'].colind_.arr, c['a'].values_.arr, c['b'].colind_.arr, c['b'].values_.arr,
        c['b'].rowptr_.arr[j], c['b'].rowptr_.arr[j + 1], c['a'].rowptr_.arr[i], c['a'].rowptr_.arr[i + 1])))])
