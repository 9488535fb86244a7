from contracts.lib import *
TU = 'crs.cpp'
P = 'P03'

def col(e): return e.root('A').colind_.arr
def rpA(e): return e.root('A').rowptr_.arr
def B(e): return e.root('B')
def nnz(e): return e.root('A').colind_.len
def transposed(root, EC, AX, title):
    def tspec(e, i, j, upk):
        A = e.root('A')
        full = EC(A.colind_.arr, A.values_.arr, j, rpA(e)[i], rpA(e)[i + 1])
        if upk is None:
            return z3.If(i < e['ia'], full, z3.RealVal(0))
        return z3.If(i < e['ia'], full, z3.If(i == e['ia'], EC(A.colind_.arr, A.values_.arr, j, rpA(e)[i], upk), z3.RealVal(0)))
    def brow(e, j): return e['B_rowptr'].arr[j]
    hs = []
    for tag, kw, pos in (('outer', dict(mod=('ia',)), lambda e: rpA(e)[e['ia']]), ('inner', dict(fix=('ia',), mod=('k',)), lambda e: e['k'])):
        hs += [
          Hint('column counts ' + tag, lambda e, pos=pos: forall(j_, imp(all_(0 <= j_, j_ < e.root('A').ncol_), e['nnz_count'].arr[j_] == CNT(col(e), j_, pos(e))), [e['nnz_count'].arr[j_]]), **kw),
          Hint('next free slots ' + tag, lambda e, pos=pos: forall(j_, imp(all_(0 <= j_, j_ < e.root('A').ncol_), brow(e, j_) == B(e).rowptr_.arr[j_] + CNT(col(e), j_, pos(e))), [brow(e, j_), B(e).rowptr_.arr[j_]]), **kw),
          Hint('sums ' + tag, lambda e, tag=tag: forall([i_, j_], imp(all_(mk(i_), 0 <= i_, i_ < e.root('A').nrow_, 0 <= j_, j_ < e.root('A').ncol_),
                E_(B(e).colind_.arr, B(e).values_.arr, i_, B(e).rowptr_.arr[j_], brow(e, j_)) == tspec(e, i_, j_, e['k'] if tag == 'inner' else None)),
                [[mk(i_), brow(e, j_)], EC(col(e), e.root('A').values_.arr, j_, rpA(e)[i_], rpA(e)[i_ + 1])]), **kw),
          Hint('column indices ' + tag, lambda e, tag=tag: forall([j_, k_], imp(all_(0 <= j_, j_ < e.root('A').ncol_, B(e).rowptr_.arr[j_] <= k_, k_ < brow(e, j_)),
                all_(0 <= B(e).colind_.arr[k_], B(e).colind_.arr[k_] <= e['ia'] if tag == 'inner' else B(e).colind_.arr[k_] < e['ia'])), [[brow(e, j_), B(e).colind_.arr[k_]], [B(e).rowptr_.arr[j_], B(e).colind_.arr[k_]]]), **kw),
          Hint('no repeats ' + tag, lambda e: forall([j_, k_, l_], imp(all_(0 <= j_, j_ < e.root('A').ncol_, B(e).rowptr_.arr[j_] <= k_, k_ < l_, l_ < brow(e, j_)),
                B(e).colind_.arr[k_] != B(e).colind_.arr[l_]), [[brow(e, j_), B(e).colind_.arr[k_], B(e).colind_.arr[l_]], [B(e).rowptr_.arr[j_], B(e).colind_.arr[k_], B(e).colind_.arr[l_]]]), **kw),
        ]
    hs += [
      Hint('current row entries come from this row', lambda e: forall([j_, k_], imp(all_(0 <= j_, j_ < e.root('A').ncol_, B(e).rowptr_.arr[j_] <= k_, k_ < brow(e, j_), B(e).colind_.arr[k_] == e['ia']),
                z3.Exists([l_], z3.And(rpA(e)[e['ia']] <= l_, l_ < e['k'], col(e)[l_] == j_))), [[brow(e, j_), B(e).colind_.arr[k_]], [B(e).rowptr_.arr[j_], B(e).colind_.arr[k_]]]), fix=('ia',), mod=('k',)),
      Hint('final row pointers monotone', lambda e: all_(e['B_rowptr'].len == e.root('A').ncol_, forall([i_, j_], imp(all_(0 <= i_, i_ <= j_, j_ <= e.root('A').ncol_), B(e).rowptr_.arr[i_] <= B(e).rowptr_.arr[j_]), [[B(e).rowptr_.arr[i_], B(e).rowptr_.arr[j_]]]))),
      Hint('slots below the next row', lambda e: forall(j_, imp(all_(0 <= j_, j_ < e.root('A').ncol_), all_(brow(e, j_) <= B(e).rowptr_.arr[j_ + 1], brow(e, j_) <= nnz(e))), [brow(e, j_)])),
      Hint('grand total', lambda e: CSUM(col(e), nnz(e), e.root('A').ncol_) == nnz(e)),
      Hint('prefix total bound', lambda e: all_(0 <= e['ipos'], e['ipos'] <= nnz(e))),
      Hint('prefix total', lambda e: e['ipos'] == CSUM(col(e), nnz(e), e['ib'])),
      Hint('row pointers', lambda e: forall(j_, imp(all_(0 <= j_, j_ < e['ib']), z3.Store(B(e).rowptr_.arr, e['ib'], e['ipos'])[j_ + 1] == B(e).rowptr_.arr[j_] + CNT(col(e), j_, nnz(e))), [B(e).rowptr_.arr[j_]]), mod=('ipos',)),
      Hint('row pointers are prefix totals', lambda e: forall(j_, imp(all_(0 <= j_, j_ < e['ib']), B(e).rowptr_.arr[j_] == CSUM(col(e), nnz(e), j_)), [B(e).rowptr_.arr[j_]]), mod=('ipos',)),
      Hint('slots start at the row pointers', lambda e: forall(j_, imp(all_(0 <= j_, j_ < e['ib']), brow(e, j_) == B(e).rowptr_.arr[j_]), [brow(e, j_)])),
    ]
    contract(P, root, tu=TU, title=title, opts={'hfuncs': ['crs_transposeConjugate']},
        pre=lambda c: [crs_wf(c['A']), c['A'].colind_.len <= INTMAX, c['A'].nrow_ > 0, c['A'].ncol_ < INTMAX],
        post=lambda c: crs_wf_rows(c['B']) + [('row lengths are the column counts', forall(j_, imp(all_(0 <= j_, j_ < c['A'].ncol_), c['B'].rowptr_.arr[j_ + 1] - c['B'].rowptr_.arr[j_] == CNT(c['A'].colind_.arr, j_, c['A'].colind_.len)))),
           ('rows and columns exchanged', z3.And(c['B'].nrow_ == c['A'].ncol_, c['B'].ncol_ == c['A'].nrow_)),
           ('entries', forall([i_, j_], imp(all_(0 <= i_, i_ < c['A'].nrow_, 0 <= j_, j_ < c['A'].ncol_),
                crs_elem(c['B'], j_, i_) == EC(c['A'].colind_.arr, c['A'].values_.arr, j_, c['A'].rowptr_.arr[i_], c['A'].rowptr_.arr[i_ + 1]))))],
        axioms=AX + [CNT, CSUM, MK_AX], lemmas=[E_frame, L_cntnn, L_cntmono, L_cntstrict, L_csumzero, L_csumstep, L_csumtotal, L_csumnn, L_csummono], hints=hs)
transposed('vroot::crsz_transposeConjugate', EC_, [E_, EC_], 'transposeConjugate: B(j,i) = conj(A(i,j)), B well-formed (complex)')
transposed('vroot::crs_transposeConjugate', E_, [E_], 'transposeConjugate: B(j,i) = A(i,j), B well-formed')
