"""P03: conversions, copies, blocks, predicates of sparse matrices."""
from contracts.lib import *
import contracts.matrix as MX
TU = 'crs.cpp'
P = 'P03'
_x = z3.Real('cnx')
# the modulus is not negative, and zero for zero only
CNORM_AX = z3.ForAll([_x], z3.And(MX.cnorm(_x) >= 0, (MX.cnorm(_x) == 0) == (_x == 0)), patterns=[MX.cnorm(_x)])
def arrs(A, B): return all_(A.rowptr_.len == B.rowptr_.len, A.colind_.len == B.colind_.len, A.values_.len == B.values_.len, A.nrow_ == B.nrow_, A.ncol_ == B.ncol_,
    A.rowptr_.arr == B.rowptr_.arr, A.colind_.arr == B.colind_.arr)
H = lambda f: {'hfuncs': [f], 'imul': True}
contract(P, 'vroot::crs_swap', tu=TU, title='swap exchanges the two matrices', opts=H('crs_swap'), pre=lambda c: [crs_wf(c['a']), crs_wf(c['b'])],
    post=lambda c: [('first', all_(arrs(c['a'], c.old('b')), c['a'].values_.arr == c.old('b').values_.arr)), ('second', all_(arrs(c['b'], c.old('a')), c['b'].values_.arr == c.old('a').values_.arr))])
contract(P, 'vroot::crsz_conjugate', tu=TU, title='conjugate (complex)', opts=H('crs_dense'), pre=lambda c: [crs_wf(c['a'])],
    post=lambda c: [('structure unchanged', arrs(c['a'], c.old('a'))), ('every value conjugated', forall(k_, imp(all_(0 <= k_, k_ < c['a'].values_.len), c['a'].values_.arr[k_] == cj(c.old('a').values_.arr[k_])), [c['a'].values_.arr[k_]]))],
    hints=[Hint('done', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), e.root('a').values_.arr[k_] == cj(e.ctx.old('a').values_.arr[k_])), [e.root('a').values_.arr[k_]]), vars=('i',)),
           Hint('to do', lambda e: forall(k_, imp(all_(e['i'] <= k_, k_ < e.root('a').values_.len), e.root('a').values_.arr[k_] == e.ctx.old('a').values_.arr[k_]), [e.root('a').values_.arr[k_]]), vars=('i',)),
           Hint('rest', lambda e: all_(arrs(e.root('a'), e.ctx.old('a'))), vars=())])
contract(P, 'vroot::crs_conjugate', tu=TU, title='conjugate (real)', opts=H('crs_dense'), pre=lambda c: [crs_wf(c['a'])],
    post=lambda c: [('structure unchanged', arrs(c['a'], c.old('a'))), ('values unchanged', forall(k_, imp(all_(0 <= k_, k_ < c['a'].values_.len), c['a'].values_.arr[k_] == c.old('a').values_.arr[k_]), [c['a'].values_.arr[k_]]))],
    hints=[Hint('kept', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e.root('a').values_.len), e.root('a').values_.arr[k_] == e.ctx.old('a').values_.arr[k_]), [e.root('a').values_.arr[k_]]), vars=('i',)),
           Hint('rest', lambda e: all_(arrs(e.root('a'), e.ctx.old('a'))), vars=())])

cabs = z3.Function('cabs', R, R)
CABS_AX = z3.ForAll([_x], z3.And(cabs(_x) >= 0, (cabs(_x) == 0) == (_x == 0)), patterns=[cabs(_x)])
# ---- sparse -> dense
def full(root, m, title, z):
    A = lambda e: e.root('a')
    Ei = lambda e, i, j: crs_elem(A(e), i, j)
    part = lambda e, j: E_(A(e).colind_.arr, A(e).values_.arr, j, A(e).rowptr_.arr[e['i']], e['k'])
    contract(P, 'vroot::' + root, tu=TU, title=title, opts=H('crs_dense'), axioms=MX.AX + [E_], lemmas=MX.IMUL_LEM + [E_zero],
        pre=lambda c: ([MX.wf(c['m'])] if 'm' in c.locs else []) + [crs_wf(c['a']), MX.small(c['a'].nrow_, c['a'].ncol_)],
        post=lambda c: [('shape', MX.dims(m(c), c['a'].nrow_, c['a'].ncol_)), ('entries', MX.entries(m(c), lambda i, j: crs_elem(c['a'], i, j)))],
        hints=[Hint('shape', lambda e: MX.dims(m(e), A(e).nrow_, A(e).ncol_), vars=()),
            Hint('rows done', lambda e: MX.entries(m(e), lambda i, j: z3.If(i < e['i'], Ei(e, i, j), z3.RealVal(0))), vars=('i',), mod=('i',)),
            Hint('row in progress', lambda e: MX.entries(m(e), lambda i, j: z3.If(i < e['i'], Ei(e, i, j), z3.If(i == e['i'], part(e, j), z3.RealVal(0)))), vars=('i', 'k'), fix=('i',), mod=('k',))])
rm = lambda e: e.root('m') if hasattr(e, 'root') else e['m']
full('crs_toFull', rm, 'sparse to dense', 0)
full('crsz_toFull', rm, 'sparse to dense (complex)', 1)
full('crs_toDense', lambda e: e['m'] if hasattr(e, 'root') else e.result, 'toDense', 0)

# ---- dense -> sparse
def build(root, A, title, tiny, res, wfpost=crs_wf_items):
    src = lambda e: e.root('a')
    val = lambda e, i, j: MX.at(src(e), i, j)
    cur = lambda e, j: E_(A(e).colind_.arr, A(e).values_.arr, j, A(e).rowptr_.arr[e['i']], e['counter'])
    fj = lambda e, body, p: forall(j_, imp(all_(0 <= j_, j_ < src(e).ncol_), body), p)
    IM = MX.IMUL
    contract(P, 'vroot::' + root, tu=TU, title=title, opts=H("crs_dense"), axioms=MX.IMUL_AX + MX.AT_AX[:3] + [E_, MK_AX, CNORM_AX], lemmas=MX.IMUL_LEM + [E_push], specs=CRS_SPECS,
        pre=lambda c: [MX.wf(c['a']), c['a'].nrow_ < INTMAX, c['a'].ncol_ < INTMAX, IM(c['a'].nrow_, c['a'].ncol_) < INTMAX] + ([c['a'].nrow_ > 0, c['a'].ncol_ > 0] if 'fromFull' in root else []),
        post=lambda c: wfpost(res(c)) + [('shape', all_(res(c).nrow_ == c['a'].nrow_, res(c).ncol_ == c['a'].ncol_)),
            ('entries', forall([i_, j_], imp(all_(0 <= i_, i_ < c['a'].nrow_, 0 <= j_, j_ < c['a'].ncol_), crs_elem(res(c), i_, j_) == MX.at(c['a'], i_, j_))))],
        hints=build_hints(A, 'i', 'counter', val) + [
            Hint('counter bound', lambda e: e['counter'] <= IM(e['i'], src(e).ncol_), vars=('i', 'counter'), mod=('i',)),
            Hint('counter bound in', lambda e: e['counter'] <= IM(e['i'], src(e).ncol_) + e['j'], vars=('i', 'j', 'counter'), fix=('i',)),
            Hint('rowptr length', lambda e: all_(A(e).rowptr_.len == src(e).nrow_ + 1, A(e).nrow_ == src(e).nrow_, A(e).ncol_ == src(e).ncol_), vars=()),
            Hint('current row', lambda e: forall(j_, imp(all_(mk(j_), 0 <= j_, j_ < src(e).ncol_), cur(e, j_) == z3.If(j_ < e['j'], val(e, e['i'], j_), z3.RealVal(0))), [cur(e, j_), mk(j_)]), vars=('i', 'j', 'counter'), fix=('i',)),
            Hint('columns of the row so far', lambda e: forall(k_, imp(all_(A(e).rowptr_.arr[e['i']] <= k_, k_ < e['counter']), A(e).colind_.arr[k_] < e['j']), [A(e).colind_.arr[k_]]), vars=('i', 'j', 'counter'), fix=('i',)),
            Hint('no repeats in the row', lambda e: forall([k_, l_], imp(all_(A(e).rowptr_.arr[e['i']] <= k_, k_ < l_, l_ < e['counter']), A(e).colind_.arr[k_] != A(e).colind_.arr[l_]), [[A(e).colind_.arr[k_], A(e).colind_.arr[l_]]]), vars=('i', 'counter'), fix=('i',))])
for z in ('', 'z'):
    build('crs%s_fromFull' % z, rm, 'dense to sparse' + (' (complex)' if z else ''), None, lambda c: c['m'])
    build('crs%s_ctorDense' % z, lambda e: e['this'], 'CrsMatrix(dense)' + (' (complex)' if z else ''), None, lambda c: c.result)

# ---- a stored entry is the entry of its place
def _lem_single():
    col, val = z3.Const('ec', AI), z3.Const('ev', AR)
    lo, hi, k, x = z3.Int('elo'), z3.Int('eh'), z3.Int('ek'), z3.Int('ex')
    t = E_(col, val, col[k], lo, hi)
    return [col, val, lo, hi, k], imp(all_(lo <= k, k < hi, forall(x, imp(all_(lo <= x, x < hi, x != k), col[x] != col[k]), [col[x]])), t == val[k]), [t], hi, k + 1
E_single = Lemma('a column stored once has that value', _lem_single, uses=[E_zero])
def stored(M): return forall([i_, k_], imp(all_(0 <= i_, i_ < M.nrow_, M.rowptr_.arr[i_] <= k_, k_ < M.rowptr_.arr[i_ + 1]),
    E_(M.colind_.arr, M.values_.arr, M.colind_.arr[k_], M.rowptr_.arr[i_], M.rowptr_.arr[i_ + 1]) == M.values_.arr[k_]), [[M.rowptr_.arr[i_], M.colind_.arr[k_]], [M.rowptr_.arr[i_], M.values_.arr[k_]]])
# the same fact, stated for every matrix: proved once as a lemma
def _lem_stored():
    rp, col, val, i, k, x, y = z3.Const('srp', AI), z3.Const('ec', AI), z3.Const('ev', AR), z3.Int('si'), z3.Int('ek'), z3.Int('ex'), z3.Int('ey')
    nodup = forall([x, y], imp(all_(rp[i] <= x, x < y, y < rp[i + 1]), col[x] != col[y]), [[col[x], col[y]]])
    t = E_(col, val, col[k], rp[i], rp[i + 1])
    return [rp, col, val, i, k], imp(all_(nodup, rp[i] <= k, k < rp[i + 1]), t == val[k]), [t]
EPS = lambda c: c['eps']
def _rowof_v():
    rp, n, k, i = z3.Const('rp', AI), z3.Int('rn'), z3.Int('rk'), z3.Int('ri')
    return [rp, n, k], z3.Implies(z3.And(n >= 0, rp[0] <= k, k < rp[n]), z3.Exists([i], z3.And(0 <= i, i < n, rp[i] <= k, k < rp[i + 1]), patterns=[rp[i]])), [[rp[n], mk(k)]], n, z3.IntVal(0)
L_rowof_v = Lemma('every stored value lies in a row', _rowof_v)
def inarow(M): return forall(k_, imp(all_(mk(k_), 0 <= k_, k_ < M.values_.len), z3.Exists([i_], all_(0 <= i_, i_ < M.nrow_, M.rowptr_.arr[i_] <= k_, k_ < M.rowptr_.arr[i_ + 1]))), [M.values_.arr[k_]])
def ispred(root, name, z, ident):
    nrm = MX.cnorm if z else MX.absr
    A = lambda e: e.root('a')
    def ok(M, eps):
        t = crs_elem(M, i_, j_)
        off = imp(i_ != j_, nrm(t) <= eps)
        f = all_(off, imp(i_ == j_, nrm(t - 1) <= eps)) if ident else off
        return all_(M.nrow_ == M.ncol_, forall([i_, j_], imp(all_(0 <= i_, i_ < M.nrow_, 0 <= j_, j_ < M.ncol_), f), [t]))
    def good(e, i, k):
        v, c = A(e).values_.arr[k], A(e).colind_.arr[k]
        return all_(imp(c != i, nrm(v) <= e.root('eps')), *([imp(c == i, nrm(v - 1) <= e.root('eps'))] if ident else []))
    def rowok(e, i, hi): return forall(k_, imp(all_(A(e).rowptr_.arr[i] <= k_, k_ < hi), good(e, i, k_)), [A(e).colind_.arr[k_]])
    def has(e, i, hi): return z3.Exists([l_], all_(A(e).rowptr_.arr[i] <= l_, l_ < hi, A(e).colind_.arr[l_] == i))
    def rows(e):
        f = [forall([i_, k_], imp(all_(0 <= i_, i_ < e['i'], A(e).rowptr_.arr[i_] <= k_, k_ < A(e).rowptr_.arr[i_ + 1]), good(e, i_, k_)), [[A(e).rowptr_.arr[i_], A(e).colind_.arr[k_]]])]
        return f[0]
    rowsdiag = lambda e: forall(i_, imp(all_(0 <= i_, i_ < e['i']), has(e, i_, A(e).rowptr_.arr[i_ + 1])), [A(e).rowptr_.arr[i_]])
    hs = [Hint('stored entries', lambda e: stored(A(e)), vars=()),
          Hint('rows checked', rows, vars=('i',)), Hint('row checked', lambda e: rowok(e, e['i'], e['k']), vars=('i', 'k'), fix=('i',))]
    if ident:
        hs += [Hint('rows without a diagonal entry', lambda e: forall(i_, imp(all_(0 <= i_, i_ < A(e).nrow_), z3.Or(crs_elem(A(e), i_, i_) == 0, has(e, i_, A(e).rowptr_.arr[i_ + 1]))), [A(e).rowptr_.arr[i_]]), vars=()),
               Hint('diagonal of the rows', rowsdiag, vars=('i',)), Hint('diagonal of the row', lambda e: e['hasDiagonal'] == has(e, e['i'], e['k']), vars=('i', 'k', 'hasDiagonal'), fix=('i',))]
    contract(P, 'vroot::' + root, tu=TU, title=name, opts=H('crs_predicates'), axioms=[E_, CNORM_AX], lemmas=[E_zero, E_single],
        pre=lambda c: [crs_wf(c['a']), c['eps'] >= 0, c['eps'] < 1] + ([MX.cnorm(z3.RealVal(-1)) == 1] if z else []),
        post=lambda c: [('yes exactly when the matrix has the property', c.result == ok(c['a'], c['eps']))], hints=hs)
for z in ('', 'z'):
    ispred('crs%s_isDiagonal' % z, 'isDiagonal' + (' (complex)' if z else ''), z, False)
    ispred('crs%s_isTheIdentity' % z, 'isTheIdentity' + (' (complex)' if z else ''), z, True)
    def mkzero(z):
        nrm = cabs if z else MX.absr
        def iszero(M, eps): return forall([i_, j_], imp(all_(0 <= i_, i_ < M.nrow_, 0 <= j_, j_ < M.ncol_), nrm(crs_elem(M, i_, j_)) <= eps), [crs_elem(M, i_, j_)])
        contract(P, 'vroot::crs%s_isZero' % z, tu=TU, title='isZero' + (' (complex)' if z else ''), opts=H('crs_predicates'), axioms=[E_, CABS_AX, MK_AX], lemmas=[E_zero, E_single, L_rowof_v],
            pre=lambda c: [crs_wf(c['a']), c['eps'] >= 0], post=lambda c: [('yes exactly when every entry is zero', c.result == iszero(c['a'], c['eps']))],
            hints=[Hint('stored entries', lambda e: stored(e.root('a')), vars=()), Hint('values lie in rows', lambda e: inarow(e.root('a')), vars=()),
                   Hint('checked', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), nrm(e.root('a').values_.arr[k_]) <= e.root('eps')), [e.root('a').values_.arr[k_]]), vars=('i',))])
    mkzero(z)

# ---- embedding a block
def _lem_shift():
    c1, v1, c2, v2 = z3.Const('hc', AI), z3.Const('hv', AR), z3.Const('hd', AI), z3.Const('hw', AR)
    j1, j2, lo, k, x = z3.Ints('hj1 hj2 hlo hk hx')
    l, r = E_(c2, v2, j2, lo, k), E_(c1, v1, j1, lo, k)
    return [c1, v1, c2, v2, j1, j2, lo, k], imp(forall(x, imp(all_(lo <= x, x < k), all_(c2[x] == c1[x] + j2 - j1, v2[x] == v1[x])), [c2[x], v2[x]]), l == r), [[l, r]], k, lo
E_shift = Lemma('entries of a row moved to other columns', _lem_shift)
for z in ('', 'z'):
    F, Bm, off = (lambda e: e.root('Bfull')), (lambda e: e.root('B')), (lambda e: e.root('offset'))
    rpz = lambda e, hi: forall(k_, imp(all_(0 <= k_, k_ < hi, k_ < off(e)), F(e).rowptr_.arr[k_] == 0), [F(e).rowptr_.arr[k_]])
    rpb = lambda e, hi: forall(k_, imp(all_(off(e) <= k_, k_ < hi, k_ < off(e) + Bm(e).nrow_), F(e).rowptr_.arr[k_] == Bm(e).rowptr_.arr[k_ - off(e)]), [F(e).rowptr_.arr[k_]])
    rpt = lambda e, hi: forall(k_, imp(all_(off(e) + Bm(e).nrow_ <= k_, k_ < hi), F(e).rowptr_.arr[k_] == Bm(e).colind_.len), [F(e).rowptr_.arr[k_]])
    cp = lambda e, hi: forall(k_, imp(all_(0 <= k_, k_ < hi), all_(F(e).colind_.arr[k_] == Bm(e).colind_.arr[k_] + off(e), F(e).values_.arr[k_] == Bm(e).values_.arr[k_])), [[F(e).colind_.arr[k_]], [F(e).values_.arr[k_]]])
    def blk(c, i, j):
        b, o = c['B'], c['offset']
        return z3.If(all_(o <= i, i < o + b.nrow_, o <= j, j < o + b.ncol_), crs_elem(b, i - o, j - o), z3.RealVal(0))
    contract(P, 'vroot::crs%s_fromBlockToFull' % z, tu=TU, title='block embedded at an offset' + (' (complex)' if z else ''), opts={'hfuncs': ['crs_fromBlockToFull']}, axioms=[E_], lemmas=[E_zero, E_shift], specs=CRS_SPECS,
        pre=lambda c: [crs_wf(c['B']), c['Bfull'].nrow_ > 0, c['Bfull'].ncol_ > 0, c['Bfull'].nrow_ < INTMAX, c['Bfull'].ncol_ < INTMAX, c['B'].colind_.len < INTMAX, c['offset'] < INTMAX,
            c['offset'] + c['B'].nrow_ <= c['Bfull'].nrow_, c['offset'] + c['B'].ncol_ <= c['Bfull'].ncol_],
        post=lambda c: crs_wf_items(c['Bfull']) + [('shape', all_(c['Bfull'].nrow_ == c.old('Bfull').nrow_, c['Bfull'].ncol_ == c.old('Bfull').ncol_)),
            ('entries', forall([i_, j_], imp(all_(0 <= i_, i_ < c['Bfull'].nrow_, 0 <= j_, j_ < c['Bfull'].ncol_), crs_elem(c['Bfull'], i_, j_) == blk(c, i_, j_))))],
        hints=[Hint('rows above', lambda e: rpz(e, e['i']), vars=('i',)), Hint('rows above all', lambda e: rpz(e, off(e)), vars=()),
            Hint('block rows', lambda e: rpb(e, e['ii'] + off(e)), vars=('ii',), mod=('ii',)), Hint('block rows in', lambda e: rpb(e, e['ii'] + off(e) + 1), vars=('ii',), fix=('ii',)), Hint('block rows all', lambda e: rpb(e, off(e) + Bm(e).nrow_), vars=()),
            Hint('rows below', lambda e: rpt(e, e['i']), vars=('i',)),
            Hint('shape', lambda e: all_(F(e).nrow_ == e.ctx.old('Bfull').nrow_, F(e).ncol_ == e.ctx.old('Bfull').ncol_, F(e).rowptr_.len == F(e).nrow_ + 1), vars=()),
            Hint('number of entries', lambda e: all_(F(e).colind_.len == e['counter'], F(e).values_.len == e['counter']), vars=('counter',)),
            Hint('counter', lambda e: e['counter'] == Bm(e).rowptr_.arr[e['ii']], vars=('ii', 'counter'), mod=('ii',)),
            Hint('counter in', lambda e: e['counter'] == e['jj'], vars=('jj', 'counter')),
            Hint('counter all', lambda e: e['counter'] == Bm(e).colind_.len, vars=('counter',)),
            Hint('row at least', lambda e: off(e) + Bm(e).nrow_ <= e['i'], vars=('i',)),
            Hint('copied', lambda e: cp(e, e['counter']), vars=('counter',))])

# ---- through the dense form
def fresh_like(eng, st, m0, name, facts): return eng.fresh(m0.cls, name, facts)
def spec_toFull(eng, e, st, obj, vs):
    """contract of crsMatrixToFullMatrix, proved as crs_toFull / crsz_toFull"""
    m0, a = eng.read(st, vs[0]), eng.read(st, vs[1])
    eng.oblige(st, all_(MX.wf(m0), crs_wf(a), MX.small(a.nrow_, a.ncol_)), 'crsMatrixToFullMatrix: operands', 'callee precondition', e.get('loc', ''))
    facts = []
    m1 = eng.fresh(m0.cls, 'dense', facts)
    st.assume(*facts)
    st.assume(MX.dims(m1, a.nrow_, a.ncol_), MX.wf(m1), forall([i_, j_], imp(all_(0 <= i_, i_ < a.nrow_, 0 <= j_, j_ < a.ncol_), MX.at(m1, i_, j_) == crs_elem(a, i_, j_)), [[MX.at(m1, i_, j_)], [crs_elem(a, i_, j_)]]))
    eng.write(st, vs[0], m1)
    return [(st, None)]
def spec_herm(anti, z):
    def spec(eng, e, st, obj, vs):
        """contract of isHermitian / isAntiHermitian of a dense matrix, proved under P04"""
        m = eng.read(st, vs[0])
        eng.oblige(st, all_(MX.wf(m), m.nrow_ == m.ncol_, m.nrow_ < (1 << 60)), 'isHermitian: a square matrix', 'callee precondition', e.get('loc', ''))
        nrm, con = (MX.cnorm if z else MX.absr), (cj if z else (lambda x: x))
        t = MX.at(m, i_, j_)
        o = MX.at(m, j_, i_)
        good = lambda i, j: nrm(MX.at(m, i, j) + con(MX.at(m, j, i)) if anti else MX.at(m, i, j) - con(MX.at(m, j, i))) <= MX.EPS6
        r, wi, wj = z3.FreshBool('hermitian'), z3.FreshInt('wi'), z3.FreshInt('wj')
        st.assume(imp(r, forall([i_, j_], imp(all_(0 <= i_, i_ < m.nrow_, 0 <= j_, j_ < m.ncol_), good(i_, j_)), [t])), z3.Or(r, all_(0 <= wi, wi < m.nrow_, 0 <= wj, wj < m.ncol_, z3.Not(good(wi, wj)))))
        return [(st, r)]
    return spec
for root, z, anti in (('crs_isHermitian', 0, 0), ('crsz_isHermitian', 1, 0), ('crs_isAntiHermitian', 0, 1)):
    ty = 'std::complex<double>' if z else 'double'
    def herm(c, z=z, anti=anti):
        nrm, con = (MX.cnorm if z else MX.absr), (cj if z else (lambda x: x))
        t, o = crs_elem(c['a'], i_, j_), crs_elem(c['a'], j_, i_)
        return all_(c['a'].nrow_ == c['a'].ncol_, forall([i_, j_], imp(all_(0 <= i_, i_ < c['a'].nrow_, 0 <= j_, j_ < c['a'].ncol_), nrm(t + con(o) if anti else t - con(o)) <= MX.EPS6), [t]))
    contract(P, 'vroot::' + root, tu=TU, title=root.split('_')[1] + (' (complex)' if z else ''), opts=H('crs_predicates'), axioms=MX.IMUL_AX + MX.AT_AX[:3],
        pre=lambda c: [crs_wf(c['a']), MX.small(c['a'].nrow_, c['a'].ncol_)],
        specs={'PsimagLite::crsMatrixToFullMatrix': spec_toFull, 'PsimagLite::is%sHermitian<%s>(const PsimagLite::Matrix<%s> &, bool)' % ('Anti' if anti else '', ty, ty): spec_herm(anti, z)},
        post=lambda c, herm=herm: [('yes exactly when the matrix has the property', c.result == herm(c))])

SQ = SumFn('crssq', [AR], term=lambda a, k: fm(a[k], a[k]))
contract(P, 'vroot::crs_norm2', tu=TU, title='norm2: sum of the squares of the stored values', opts=H('crs_predicates'), axioms=[SQ], pre=lambda c: [crs_wf(c['a'])], post=lambda c: [('sum', c.result == SQ(c['a'].values_.arr, c['a'].values_.len))],
    hints=[Hint('so far', lambda e: e['val'] == SQ(e.root('a').values_.arr, e['i']), vars=('i', 'val'))])
def vec_eq(x, y): return all_(x.len == y.len, forall(k_, imp(all_(0 <= k_, k_ < x.len), x.arr[k_] == y.arr[k_]), [x.arr[k_]]))
contract(P, 'vroot::crs_eq', tu=TU, title='operator==: same shape and same stored entries', opts=H('crs_dense'), pre=lambda c: [crs_wf(c['a']), crs_wf(c['b'])],
    post=lambda c: [('equal', c.result == all_(c['a'].nrow_ == c['b'].nrow_, c['a'].ncol_ == c['b'].ncol_, *[vec_eq(getattr(c['a'], f), getattr(c['b'], f)) for f in ('rowptr_', 'colind_', 'values_')]))])
contract(P, 'vroot::crs_clear', tu=TU, title='clear', opts=H('crs_dense'), pre=lambda c: [crs_wf(c['a'])], post=lambda c: [('empty', all_(c['a'].nrow_ == 0, c['a'].ncol_ == 0, c['a'].colind_.len == 0, c['a'].values_.len == 0, c['a'].rowptr_.len == 0))])
contract(P, 'vroot::crs_resize', tu=TU, title='resize: the zero matrix of that shape', opts=H('crs_dense'), axioms=[E_], pre=lambda c: [crs_wf(c['a']), c['n'] < INTMAX, c['m'] < INTMAX],
    post=lambda c: crs_wf_items(c['a']) + [('shape', all_(c['a'].nrow_ == c['n'], c['a'].ncol_ == c['m'])), ('zero', forall([i_, j_], imp(all_(0 <= i_, i_ < c['n']), crs_elem(c['a'], i_, j_) == 0)))])
contract(P, 'vroot::crs_nonZeros', tu=TU, title='number of stored entries', opts=H('crs_dense'), pre=lambda c: [crs_wf(c['a'])], post=lambda c: [('number', c.result == c['a'].values_.len)])
