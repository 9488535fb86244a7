from contracts.lib import *
TU = 'crs.cpp'
P = 'P02'
MV = SumFn('matvec', [AI, AR, AR, I], term=lambda col, val, y, lo, x: fm(val[x], y[col[x]]), lof=lambda col, val, y, lo: lo)
def mv(M, y, lo, hi): return MV(M.colind_.arr, M.values_.arr, y.arr, lo, hi)

for z, nm in (('crs', 'double'), ('crsz', 'complex')):
    contract(P, 'vroot::%s_multiplyVec' % z, tu=TU, title='x = A*y (%s)' % nm, opts={'hfuncs': ['crs_multiplyVec']},
        pre=lambda c: [crs_wf(c['a']), c['y'].len == c['a'].ncol_],
        post=lambda c: [('length', c['x'].len == c['a'].nrow_),
           ('every component', forall(i_, imp(all_(0 <= i_, i_ < c['a'].nrow_), c['x'].arr[i_] == mv(c['a'], c['y'], c['a'].rowptr_.arr[i_], c['a'].rowptr_.arr[i_ + 1]))))],
        axioms=[MV],
        hints=[Hint('rows done', lambda e: forall(i_, imp(all_(0 <= i_, i_ < e['i']), e.root('x').arr[i_] == mv(e.root('a'), e.root('y'), e.root('a').rowptr_.arr[i_], e.root('a').rowptr_.arr[i_ + 1])), [e.root('x').arr[i_]])),
          Hint('row partial', lambda e: e.root('x').arr[e['i']] == mv(e.root('a'), e.root('y'), e.root('a').rowptr_.arr[e['i']], e['j'])),
          Hint('length', lambda e: e.root('x').len == e.root('a').nrow_),
          ])
    contract(P, 'vroot::%s_matrixVectorProduct' % z, tu=TU, title='x += A*y (%s)' % nm, opts={'hfuncs': ['crs_matrixVectorProduct']},
        pre=lambda c: [crs_wf(c['a']), c['y'].len == c['a'].ncol_, c['a'].nrow_ == c['a'].ncol_, c['x'].len == c['a'].nrow_],
        post=lambda c: [('length', c['x'].len == c['a'].nrow_),
           ('every component', forall(i_, imp(all_(0 <= i_, i_ < c['a'].nrow_), c['x'].arr[i_] == c.old('x').arr[i_] + mv(c['a'], c['y'], c['a'].rowptr_.arr[i_], c['a'].rowptr_.arr[i_ + 1]))))],
        axioms=[MV],
        hints=[Hint('rows done', lambda e: forall(i_, imp(all_(0 <= i_, i_ < e['i']), e.root('x').arr[i_] == e.old('x').arr[i_] + mv(e.root('a'), e.root('y'), e.root('a').rowptr_.arr[i_], e.root('a').rowptr_.arr[i_ + 1])), [e.root('x').arr[i_]])),
          Hint('rows to do', lambda e: forall(i_, imp(all_(e['i'] < i_, i_ < e.root('a').nrow_), e.root('x').arr[i_] == e.old('x').arr[i_]), [e.root('x').arr[i_]])),
          Hint('rows to do incl', lambda e: forall(i_, imp(all_(e['i'] <= i_, i_ < e.root('a').nrow_), e.root('x').arr[i_] == e.old('x').arr[i_]), [e.root('x').arr[i_]]), mod=('i',)),
          Hint('row partial', lambda e: e.root('x').arr[e['i']] == e.old('x').arr[e['i']] + mv(e.root('a'), e.root('y'), e.root('a').rowptr_.arr[e['i']], e['j'])),
          Hint('length', lambda e: e.root('x').len == e.root('a').nrow_),
          ])
