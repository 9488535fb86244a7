"""Shared specification vocabulary."""
import z3
from vc.contract import *
from vc.values import *
from vc.engine import Hint, Measure, Cand, Unsupported, Loc

def pt(n):
    return z3.Int(n)

i_, j_, k_, l_, m_, c_ = z3.Ints('i_ j_ k_ l_ m_ c_')
INTMAX = (1 << 31) - 1

# a predicate that is always true, used only to steer quantifier instantiation
_mkf = z3.Function('mk', I, B)
MK_AX = z3.ForAll([i_], _mkf(i_), patterns=[_mkf(i_)])
def mk(i):
    return _mkf(i)

# ------------------------------------------------------------------ CRS matrices
def crs_shape(M):
    return z3.And(M.nrow_ >= 0, M.ncol_ >= 0, M.rowptr_.len == M.nrow_ + 1, M.rowptr_.arr[0] == 0,
                  M.colind_.len == M.rowptr_.arr[M.nrow_], M.values_.len == M.colind_.len,
                  M.nrow_ < INTMAX, M.ncol_ <= INTMAX)

def crs_mono(M, upto=None):
    n = M.nrow_ if upto is None else upto
    rp = M.rowptr_.arr
    return z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ <= j_, j_ <= n), rp[i_] <= rp[j_]), patterns=[z3.MultiPattern(rp[i_], rp[j_])])

def crs_cols(M, upto=None):
    ci = M.colind_.arr
    n = M.colind_.len if upto is None else upto
    return z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < n), z3.And(0 <= ci[k_], ci[k_] < M.ncol_)), patterns=[ci[k_]])

def crs_nodup(M, rows=None):
    """no column index appears twice in a row"""
    rp, ci = M.rowptr_.arr, M.colind_.arr
    n = M.nrow_ if rows is None else rows
    return z3.ForAll([i_, k_, l_], z3.Implies(z3.And(0 <= i_, i_ < n, rp[i_] <= k_, k_ < l_, l_ < rp[i_ + 1]), ci[k_] != ci[l_]),
                     patterns=[z3.MultiPattern(rp[i_], ci[k_], ci[l_])])

def crs_wf(M):
    return z3.And(crs_shape(M), crs_mono(M), crs_cols(M), crs_nodup(M))

def crs_wf_items(M, nm=''):
    return [(nm + 'shape of the three arrays', crs_shape(M)), (nm + 'row pointers are monotone', crs_mono(M)),
            (nm + 'column indices in range', crs_cols(M)), (nm + 'no repeated column in a row', crs_nodup(M))]

# E(col, val, j, lo, k) = sum_{lo<=x<k} [col[x]==j] val[x]
E_ = SumFn('crsE', [AI, AR, I, I], term=lambda col, val, j, lo, x: z3.If(col[x] == j, val[x], z3.RealVal(0)), lof=lambda col, val, j, lo: lo)

def crs_elem(M, i, j):
    """entry (i,j) of the matrix a CRS object denotes (duplicates add up)"""
    rp = M.rowptr_.arr
    return E_(M.colind_.arr, M.values_.arr, j, rp[i], rp[i + 1])

def _lem_push():
    col, val = z3.Const('ec', AI), z3.Const('ev', AR)
    x, y, c, j, lo, k = z3.Int('ex'), z3.Real('ey'), z3.Int('eci'), z3.Int('ej'), z3.Int('elo'), z3.Int('ek')
    lhs = E_(z3.Store(col, c, x), z3.Store(val, c, y), j, lo, k)
    return [col, val, x, y, c, j, lo, k], z3.Implies(k <= c, lhs == E_(col, val, j, lo, k)), [lhs], k, lo
def _lem_ezero():
    col, val = z3.Const('ec', AI), z3.Const('ev', AR)
    j, lo, k, x = z3.Int('ej'), z3.Int('elo'), z3.Int('ek'), z3.Int('ex')
    t = E_(col, val, j, lo, k)
    return [col, val, j, lo, k], z3.Or(t == 0, z3.Exists([x], z3.And(lo <= x, x < k, col[x] == j))), [t], k, lo
E_zero = Lemma('a row without column j has entry zero there', _lem_ezero)
E_push = Lemma('entries pushed at the end leave earlier sums alone', _lem_push)

def spec_checkValidity(eng, e, st, obj, vs):
    """contract of CrsMatrix::checkValidity, proved separately (crs_checkValidity)"""
    M = eng.read(st, obj)
    loc = e.get('loc', '')
    for nm, g in crs_wf_items(M, 'checkValidity: '):
        eng.oblige(st, g, nm, 'callee precondition', loc)
    eng.oblige(st, z3.And(M.nrow_ > 0, M.ncol_ > 0), 'checkValidity: non-empty', 'callee precondition', loc)
    return [(st, None)]
CRS_SPECS = {'PsimagLite::CrsMatrix<double>::checkValidity': spec_checkValidity, 'PsimagLite::CrsMatrix<std::complex<double>>::checkValidity': spec_checkValidity}

# W(col, val, b, j, lo, k) = sum_{lo<=x<k} [col[x]==j] val[x]*b
fm = z3.Function('fmul', R, R, R)
W_ = SumFn('crsW', [AI, AR, R, I, I], term=lambda col, val, b, j, lo, x: z3.If(col[x] == j, fm(val[x], b), z3.RealVal(0)), lof=lambda col, val, b, j, lo: lo)
def _lem_wzero():
    col, val = z3.Const('ec', AI), z3.Const('ev', AR)
    b, j, lo, k, x = z3.Real('eb'), z3.Int('ej'), z3.Int('elo'), z3.Int('ek'), z3.Int('ex')
    t = W_(col, val, b, j, lo, k)
    return [col, val, b, j, lo, k], z3.Or(t == 0, z3.Exists([x], z3.And(lo <= x, x < k, col[x] == j))), [t], k, lo
W_zero = Lemma('a sum over a row without column j is zero', _lem_wzero)

def rows_done(A, rp, upto, spec):
    t = E_(A.colind_.arr, A.values_.arr, j_, rp[i_], rp[i_ + 1])
    return forall([i_, j_], imp(all_(0 <= i_, i_ < upto, 0 <= j_, j_ < A.ncol_), t == spec(i_, j_)), [t])

def build_hints(name, irow, counter, spec, bound=None, cvars=()):
    """invariants of a row-by-row builder (setRow / pushCol / pushValue) of the CRS object `name`"""
    cn, cv = (counter, tuple(cvars)) if callable(counter) else ((lambda e: e[counter]), (counter,))
    def A(e): return name(e) if callable(name) else e.root(name)
    def rpo(e): return z3.Store(A(e).rowptr_.arr, e[irow], cn(e))
    def rpi(e): return A(e).rowptr_.arr
    hs = [
        Hint('len colind == counter', lambda e: A(e).colind_.len == cn(e), cv),
        Hint('len values == counter', lambda e: A(e).values_.len == cn(e), cv),
        Hint('row started', lambda e: all_(rpi(e)[e[irow]] <= cn(e), rpi(e)[e[irow]] >= 0), (irow,) + cv),
        Hint('columns in range', lambda e: crs_cols(A(e), cn(e)), cv),
        Hint('counter >= 0', lambda e: cn(e) >= 0, cv),
    ]
    for tag, rp in (('outer', rpo), ('inner', rpi)):
        kw = {'mod': (irow,)} if tag == 'outer' else {'fix': (irow,)}
        hs += [
            Hint('first row pointer ' + tag, lambda e, rp=rp: rp(e)[0] == 0, (irow,) + cv, **kw),
            Hint('monotone ' + tag, lambda e, rp=rp: forall([i_, j_], imp(all_(0 <= i_, i_ <= j_, j_ <= e[irow]), rp(e)[i_] <= rp(e)[j_]), [[rpi(e)[i_], rpi(e)[j_]]]), (irow,) + cv, **kw),
            Hint('bounded by counter ' + tag, lambda e, rp=rp: forall([i_], imp(all_(0 <= i_, i_ <= e[irow]), rp(e)[i_] <= cn(e)), [rpi(e)[i_]]), (irow,) + cv, **kw),
            Hint('no repeated column ' + tag, lambda e, rp=rp: forall([i_, k_, l_], imp(all_(0 <= i_, i_ < e[irow], rp(e)[i_] <= k_, k_ < l_, l_ < rp(e)[i_ + 1]), A(e).colind_.arr[k_] != A(e).colind_.arr[l_]),
                [[rpi(e)[i_], A(e).colind_.arr[k_], A(e).colind_.arr[l_]]]), (irow,) + cv, **kw),
            Hint('rows done ' + tag, lambda e, rp=rp: rows_done(A(e), rp(e), e[irow], lambda i, j: spec(e, i, j)), (irow,) + cv, **kw),
        ]
    if bound is not None:
        hs.append(Hint('counter bound', lambda e: bound(e), (irow,) + cv))
    return hs

# ------------------------------------------------------------------ counting / transposition
CNT = SumFn('cnt', [AI, I], term=lambda col, j, x: z3.If(col[x] == j, z3.IntVal(1), z3.IntVal(0)), rng=I)      # #{x<k : col[x]==j}
CSUM = SumFn('cntsum', [AI, I], term=lambda col, k, j: CNT.F0(col, k, j) if False else CNT(col, j, k), rng=I)   # sum_{j<m} cnt(col,j,k), args (col,k,m)
def _cnt_mono():
    col, j, k, l = z3.Const('cc', AI), z3.Int('cj'), z3.Int('ck'), z3.Int('cl')
    return [col, j, k, l], z3.Implies(z3.And(0 <= l, l <= k), z3.And(CNT(col, j, l) <= CNT(col, j, k), CNT(col, j, l) >= 0)), [[CNT(col, j, k), CNT(col, j, l)]], k, l
def _cnt_nonneg():
    col, j, k = z3.Const('cc', AI), z3.Int('cj'), z3.Int('ck')
    return [col, j, k], z3.And(CNT(col, j, k) >= 0, z3.Implies(k >= 0, CNT(col, j, k) <= k)), [CNT(col, j, k)], k, z3.IntVal(0)
def _csum_step():
    col, k, m = z3.Const('cc', AI), z3.Int('ck'), z3.Int('cm')
    return [col, k, m], z3.Implies(z3.And(k >= 0, m >= 0), CSUM(col, k + 1, m) == CSUM(col, k, m) + z3.If(z3.And(0 <= col[k], col[k] < m), 1, 0)), [[CSUM(col, k, m), col[k]]], m, z3.IntVal(0)
def _csum_total():
    col, k, m, x = z3.Const('cc', AI), z3.Int('ck'), z3.Int('cm'), z3.Int('cx')
    return [col, k, m], z3.Implies(z3.And(m >= 0, k >= 0, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < k), z3.And(0 <= col[x], col[x] < m)), patterns=[col[x]])), CSUM(col, k, m) == k), [CSUM(col, k, m)], k, z3.IntVal(0)
def _csum_zero():
    col, m = z3.Const('cc', AI), z3.Int('cm')
    return [col, m], CSUM(col, z3.IntVal(0), m) == 0, [CSUM(col, z3.IntVal(0), m)], m, z3.IntVal(0)
def _csum_mono():
    col, k, m, n = z3.Const('cc', AI), z3.Int('ck'), z3.Int('cm'), z3.Int('cn')
    return [col, k, m, n], z3.Implies(z3.And(0 <= n, n <= m), CSUM(col, k, n) <= CSUM(col, k, m)), [[CSUM(col, k, m), CSUM(col, k, n)]], m, n
def _csum_nn():
    col, k, m = z3.Const('cc', AI), z3.Int('ck'), z3.Int('cm')
    return [col, k, m], CSUM(col, k, m) >= 0, [CSUM(col, k, m)], m, z3.IntVal(0)
def _cnt_strict():
    col, j, k, n = z3.Const('cc', AI), z3.Int('cj'), z3.Int('ck'), z3.Int('cn')
    return [col, j, k, n], z3.Implies(z3.And(0 <= k, k < n, col[k] == j), CNT(col, j, k) < CNT(col, j, n)), [[CNT(col, j, k), CNT(col, j, n), col[k]]], n, k + 1
L_cntstrict = Lemma('an entry of the column lies ahead', _cnt_strict)
L_cntmono = Lemma('counts are monotone', _cnt_mono)
L_cntnn = Lemma('counts are non-negative', _cnt_nonneg)
L_cntmono.uses = [L_cntnn]
L_csumstep = Lemma('one more entry adds one to the total count', _csum_step)
L_csumzero = Lemma('no entries, no count', _csum_zero)
L_csumtotal = Lemma('counts of all columns add up to the number of entries', _csum_total, uses=[L_csumstep, L_csumzero])
L_csumnn = Lemma('totals are non-negative', _csum_nn, uses=[L_cntnn])
L_csummono = Lemma('partial totals are monotone', _csum_mono, uses=[L_cntnn])

def _rowof():
    rp, n, k, i = z3.Const('rp', AI), z3.Int('rn'), z3.Int('rk'), z3.Int('ri')
    return [rp, n, k], z3.Implies(z3.And(n >= 0, rp[0] <= k, k < rp[n]), z3.Exists([i], z3.And(0 <= i, i < n, rp[i] <= k, k < rp[i + 1]))), None, n, z3.IntVal(0)
L_rowof = Lemma('every entry lies in a row', _rowof)

def crs_cols_rows(M, upto=None):
    """column indices in range, stated row by row"""
    rp, ci = M.rowptr_.arr, M.colind_.arr
    n = M.nrow_ if upto is None else upto
    return z3.ForAll([i_, k_], z3.Implies(z3.And(0 <= i_, i_ < n, rp[i_] <= k_, k_ < rp[i_ + 1]), z3.And(0 <= ci[k_], ci[k_] < M.ncol_)),
                     patterns=[z3.MultiPattern(rp[i_], ci[k_])])
def crs_wf_rows(M, nm=''):
    return [(nm + 'shape of the three arrays', crs_shape(M)), (nm + 'row pointers are monotone', crs_mono(M)),
            (nm + 'column indices in range', crs_cols_rows(M)), (nm + 'no repeated column in a row', crs_nodup(M))]

cj = z3.Function('conj', R, R)
EC_ = SumFn('crsEC', [AI, AR, I, I], term=lambda col, val, j, lo, x: z3.If(col[x] == j, cj(val[x]), z3.RealVal(0)), lof=lambda col, val, j, lo: lo)
def _lem_frame():
    col, val = z3.Const('ec', AI), z3.Const('ev', AR)
    x, y, c, j, lo, k = z3.Int('ex'), z3.Real('ey'), z3.Int('eci'), z3.Int('ej'), z3.Int('elo'), z3.Int('ek')
    lhs = E_(z3.Store(col, c, x), z3.Store(val, c, y), j, lo, k)
    return [col, val, x, y, c, j, lo, k], z3.Implies(z3.Or(k <= c, c < lo), lhs == E_(col, val, j, lo, k)), [lhs], k, lo
E_frame = Lemma('an entry written outside a row leaves its sums alone', _lem_frame)
