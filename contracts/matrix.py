from contracts.lib import *
from vc.engine import IMUL, IDX
P = 'P04'
TU = 'matrix.cpp'
fm = z3.Function('fmul', R, R, R)
cj = z3.Function('conj', R, R)
_x, _y = z3.Reals('cx cy')
COMM = z3.ForAll([_x, _y], fm(_x, _y) == fm(_y, _x), patterns=[fm(_x, _y)])
# facts about the product of two integers (all provable, see imul_lemmas below)
_a, _b, _c = z3.Ints('ma mb mc')
IMUL_AX = [z3.ForAll([_a, _b], IMUL(_a, _b) == IMUL(_b, _a), patterns=[IMUL(_a, _b)]),
    z3.ForAll([_a, _b], imp(all_(_a >= 0, _b >= 0), IMUL(_a, _b) >= 0), patterns=[IMUL(_a, _b)]),
    z3.ForAll([_a, _b], imp(z3.Or(_a == 0, _b == 0), IMUL(_a, _b) == 0), patterns=[IMUL(_a, _b)]),
    z3.ForAll([_a, _b, _c], imp(all_(_a < _b, _c >= 0), IMUL(_a, _c) + _c <= IMUL(_b, _c)), patterns=[z3.MultiPattern(IMUL(_a, _c), IMUL(_b, _c))])]
IMUL_LEM = [Lemma('products of integers: ' + n, (lambda f=f: ([_a, _b, _c], f, None)), only_prove=True) for n, f in (
    ('commute', _a * _b == _b * _a), ('not negative', imp(all_(_a >= 0, _b >= 0), _a * _b >= 0)), ('zero', imp(z3.Or(_a == 0, _b == 0), _a * _b == 0)),
    ('step', imp(all_(_a < _b, _c >= 0), _a * _c + _c <= _b * _c)))]
# entry (i,j) of a column-major array with n rows
AT = z3.Function('at', AR, I, I, I, R)
_A, _n, _i, _j, _p, _v = z3.Const('mA', AR), z3.Int('mn'), z3.Int('mi'), z3.Int('mj'), z3.Int('mp'), z3.Real('mv')
AT_AX = [z3.ForAll([_A, _n, _i, _j], AT(_A, _n, _i, _j) == _A[IDX(_i, _j, _n)], patterns=[AT(_A, _n, _i, _j)]),
    z3.ForAll([_A, _n, _i, _j], AT(_A, _n, _i, _j) == _A[IDX(_i, _j, _n)], patterns=[_A[IDX(_i, _j, _n)]]),
    z3.ForAll([_n, _i, _j], IDX(_i, _j, _n) == _i + IMUL(_j, _n), patterns=[IDX(_i, _j, _n)]),
    z3.ForAll([_n, _i, _j], IDX(_i, _j, _n) == IDX(_i, _n, _j), patterns=[IDX(_i, _j, _n)]),
    z3.ForAll([_A, _n, _i, _j, _p, _v], AT(z3.Store(_A, _p, _v), _n, _i, _j) == z3.If(_p == IDX(_i, _j, _n), _v, AT(_A, _n, _i, _j)), patterns=[AT(z3.Store(_A, _p, _v), _n, _i, _j)])]
UNIT = z3.ForAll([_x], fm(_x, z3.RealVal(1)) == _x, patterns=[fm(_x, z3.RealVal(1))])
AX = IMUL_AX + AT_AX + [COMM, UNIT]
def wf(M): return all_(M.nrow_ >= 0, M.ncol_ >= 0, M.data_.len == IMUL(M.nrow_, M.ncol_), M.data_.len == IMUL(M.ncol_, M.nrow_))
def fa_(arr, n, f, lo=0): return forall(k_, imp(all_(lo <= k_, k_ < n), arr[k_] == f(k_)), [arr[k_]])
def at(M, i, j): return AT(M.data_.arr, M.nrow_, i, j)
def dims(M, r, c): return all_(M.nrow_ == r, M.ncol_ == c, M.data_.len == IMUL(r, c))
def entries(M, f, r=None, c=None):
    r, c = M.nrow_ if r is None else r, M.ncol_ if c is None else c
    t = at(M, i_, j_)
    return forall([i_, j_], imp(all_(0 <= i_, i_ < r, 0 <= j_, j_ < c), t == f(i_, j_)), [t])
SMALL = 1 << 60
def small(a, b): return IMUL(a, b) < SMALL
O = lambda f, **k: dict(imul=True, hfuncs=[f], **k)
def both(root, hf=None, z=True, **kw):
    for s in ('', '_z') if z is True else z:
        k = {a: ((lambda c, f=b, s=s: f(c, s)) if callable(b) and b.__code__.co_argcount - len(b.__defaults__ or ()) == 2 else b) for a, b in kw.items()}
        ax = list(k.pop('axioms', [])) + AX
        contract(P, 'vroot::' + root + s, tu=TU, opts=O(hf or root), axioms=ax, **dict(k, title=k['title'] + (' (complex)' if s else '')))
rc = lambda c: [small(c['r'], c['c'])]
both('m_get', 'm_access', title='element access', lemmas=IMUL_LEM, pre=lambda c: [wf(c['a']), c['i'] < c['a'].nrow_, c['j'] < c['a'].ncol_], post=lambda c: [('the entry', c.result == at(c['a'], c['i'], c['j']))])
both('m_set', 'm_access', title='element assignment', pre=lambda c: [wf(c['a']), c['i'] < c['a'].nrow_, c['j'] < c['a'].ncol_],
    post=lambda c: [('shape', dims(c['a'], c.old('a').nrow_, c.old('a').ncol_)), ('only that entry', entries(c['a'], lambda i, j: z3.If(all_(i == c['i'], j == c['j']), c['x'], at(c.old('a'), i, j))))])
both('m_ctor', 'm_access', title='Matrix(rows, cols) is zero', pre=rc, post=lambda c: [('shape', dims(c.result, c['r'], c['c'])), ('zero', entries(c.result, lambda i, j: z3.RealVal(0)))])
both('m_ctorval', 'm_access', title='Matrix(rows, cols, value)', pre=rc, post=lambda c: [('shape', dims(c.result, c['r'], c['c'])), ('value', entries(c.result, lambda i, j: c['x']))])
both('m_ctordata', 'm_access', title='Matrix(data, rows, cols): column major', pre=rc, post=lambda c: [('shape', dims(c.result, c['r'], c['c'])), ('entries', entries(c.result, lambda i, j: c['d'].arr[i + IMUL(j, c['r'])]))],
    throws=lambda c: c['d'].len < IMUL(c['r'], c['c']))
def lin(v, old, fill): return forall(k_, imp(all_(0 <= k_, k_ < v.len), v.arr[k_] == z3.If(k_ < old.len, old.arr[k_], fill)), [v.arr[k_]])
both('m_resize', 'm_access', title='resize', pre=lambda c: rc(c) + [wf(c['a'])], post=lambda c: [('shape', dims(c['a'], c['r'], c['c'])), ('stored numbers kept in order, zeros after', lin(c['a'].data_, c.old('a').data_, z3.RealVal(0))),
    ('entries of the kept columns', imp(c.old('a').nrow_ > 0, forall([i_, j_], imp(all_(0 <= i_, i_ < c['r'], 0 <= j_, j_ < c['c'], j_ < c.old('a').ncol_), at(c['a'], i_, j_) == at(c.old('a'), i_, j_)))))],
    throws=lambda c: all_(c['a'].nrow_ > 0, c['a'].nrow_ != c['r']))
both('m_resizeval', 'm_access', title='resize with fill value', pre=lambda c: rc(c) + [wf(c['a'])], post=lambda c: [('shape', dims(c['a'], c['r'], c['c'])), ('stored numbers kept in order, fill after', lin(c['a'].data_, c.old('a').data_, c['x']))])
both('m_clear', 'm_access', title='clear', pre=lambda c: [wf(c['a'])], post=lambda c: [('empty', dims(c['a'], z3.IntVal(0), z3.IntVal(0)))])
both('m_setTo', title='setTo', pre=lambda c: [wf(c['a'])], post=lambda c: [('shape', dims(c['a'], c.old('a').nrow_, c.old('a').ncol_)), ('value', entries(c['a'], lambda i, j: c['x']))],
    hints=[Hint('set so far', lambda e: fa_(e.root('a').data_.arr, e['i'], lambda k: e.ctx['x']), vars=('i',))])
both('m_setToIdentity', title='setToIdentity', pre=lambda c: [wf(c['a'])], post=lambda c: [('shape', dims(c['a'], c.old('a').nrow_, c.old('a').ncol_)), ('identity', entries(c['a'], lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0))))],
    throws=lambda c: c['a'].nrow_ != c['a'].ncol_,
    hints=[Hint('zero so far', lambda e: fa_(e.root('a').data_.arr, e['i'], lambda k: z3.RealVal(0)), vars=('i',)),
           Hint('diagonal so far', lambda e: entries(e.root('a'), lambda i, j: z3.If(all_(i == j, i < e['i']), z3.RealVal(1), z3.RealVal(0))), vars=('i',))])
both('m_swap', 'm_access', title='swap', pre=lambda c: [wf(c['a']), wf(c['b'])], post=lambda c: [(n, all_(dims(c[x], c.old(y).nrow_, c.old(y).ncol_), c[x].data_.arr == c.old(y).data_.arr)) for n, x, y in (('first', 'a', 'b'), ('second', 'b', 'a'))])
NZ = SumFn('nonzero', [AR], term=lambda a, k: z3.If(a[k] != 0, z3.IntVal(1), z3.IntVal(0)), rng=I)
def _nz():
    a, k = z3.Const('nza', AR), z3.Int('nzk')
    return [a, k], all_(NZ(a, k) >= 0, imp(k >= 0, NZ(a, k) <= k)), [NZ(a, k)], k, z3.IntVal(0)
both('m_nonZeros', title='number of non-zero entries', pre=lambda c: [wf(c['a'])], post=lambda c: [('count', c.result == NZ(c['a'].data_.arr, IMUL(c['a'].nrow_, c['a'].ncol_)))], axioms=[NZ], lemmas=[Lemma('counts are bounded', _nz)],
    hints=[Hint('count so far', lambda e: e['count'] == NZ(e.root('a').data_.arr, e['i']), vars=('i', 'count'))])
# ---- entrywise operations
def el(root, f, src, pre=(), inplace=False, z=True, extra=None, **kw):
    """v(i,j) = f(c, k) with k the position, shape of src"""
    D = lambda c, n, k: c.old(n).data_.arr[k]
    both(root, title=kw.pop('title'), z=z, pre=lambda c: [wf(c[n]) for n in ('v', 'x', 'y') if n in c.locs] + [same(c, a, b) for a, b in pre] + (extra(c) if extra else []),
        post=lambda c: [('shape', dims(c['v'], c.old(src).nrow_, c.old(src).ncol_)), ('entries', fa_(c['v'].data_.arr, c['v'].data_.len, lambda k: f(c, k)))],
        hints=[Hint('entries done', lambda e: fa_(e.root('v').data_.arr, e['i'], lambda k: f(e.ctx, k)), vars=('i',)),
               Hint('entries to do', lambda e: forall(k_, imp(all_(k_ >= e['i'], k_ < e.root('v').data_.len), e.root('v').data_.arr[k_] == e.root0('v').data_.arr[k_]), [e.root('v').data_.arr[k_]]), vars=('i',)),
               Hint('length', lambda e: e.root('v').data_.len == e.ctx.old(src).data_.len, vars=())], **kw)
def same(c, a, b): return all_(c[a].nrow_ == c[b].nrow_, c[a].ncol_ == c[b].ncol_)
d = lambda c, n, k: c.old(n).data_.arr[k]
el('m_pe', lambda c, k: d(c, 'v', k) + d(c, 'x', k), 'v', (('v', 'x'),), title='v += x')
el('m_me', lambda c, k: d(c, 'v', k) - d(c, 'x', k), 'v', (('v', 'x'),), title='v -= x')
el('m_se', lambda c, k: fm(d(c, 'v', k), c.old('a')), 'v', title='v *= a')
el('m_pea', lambda c, k: d(c, 'v', k) + fm(c.old('a'), d(c, 'x', k)), 'v', (('v', 'x'),), title='v += a*x')
el('m_peb', lambda c, k: d(c, 'v', k) + fm(c.old('a'), d(c, 'x', k)), 'v', (('v', 'x'),), title='v += x*a')
el('m_mult', lambda c, k: fm(d(c, 'x', k), c.old('a')), 'x', title='v = a*x')
el('m_multr', lambda c, k: fm(d(c, 'x', k), c.old('a')), 'x', title='v = x*a')
xy = (('x', 'y'),)
el('m_plus', lambda c, k: d(c, 'x', k) + d(c, 'y', k), 'x', xy, title='v = x+y')
el('m_minus', lambda c, k: d(c, 'x', k) - d(c, 'y', k), 'x', xy, title='v = x-y')
el('m_aplus', lambda c, k: fm(c.old('a'), d(c, 'x', k) + d(c, 'y', k)), 'x', xy, title='v = a*(x+y)')
el('m_aminus', lambda c, k: fm(c.old('a'), d(c, 'x', k) - d(c, 'y', k)), 'x', xy, title='v = a*(x-y)')
el('m_axpy', lambda c, k: d(c, 'x', k) + fm(c.old('a'), d(c, 'y', k)), 'x', xy, title='v = x+a*y')
el('m_axpyr', lambda c, k: fm(c.old('a'), d(c, 'x', k)) + d(c, 'y', k), 'x', xy, title='v = a*x+y')

# ---- products
MM = SumFn('mm', [AR, I, AR, I, I, I], term=lambda a, an, b, bn, i, j, k: fm(AT(a, an, i, k), AT(b, bn, k, j)))
def mm(a, b, i, j, k=None): return MM(a.data_.arr, a.nrow_, b.data_.arr, b.nrow_, i, j, a.ncol_ if k is None else k)
def prod(root, f, pre, title, x='x', y='y', res=lambda c: c['v'], fe=None, ini=lambda e: e['m']):
    X, Y = (lambda e: e.ctx.old(x)), (lambda e: e.ctx.old(y))
    both(root, 'm_mm', title=title, pre=lambda c: [wf(c[n]) for n in ('v', 'x', 'y') if n in c.locs] + [c[x].ncol_ == c[y].nrow_, small(c[x].nrow_, c[y].ncol_)],
        post=lambda c: [('shape', dims(res(c), c.old(x).nrow_, c.old(y).ncol_)), ('entries', entries(res(c), lambda i, j: f(c, mm(c.old(x), c.old(y), i, j))))], axioms=[MM],
        hints=[Hint('rows done', lambda e: entries(ini(e), lambda i, j: f(e.ctx, mm(X(e), Y(e), i, j)), r=e['i'], c=Y(e).ncol_), vars=('i', 'm'), mod=('i',)),
               Hint('rows done inner', lambda e: entries(ini(e), lambda i, j: f(e.ctx, mm(X(e), Y(e), i, j)), r=e['i'], c=Y(e).ncol_), vars=('i', 'm'), fix=('i',)),
               Hint('row partly done', lambda e: forall(j_, imp(all_(0 <= j_, j_ < e['j']), at(ini(e), e['i'], j_) == f(e.ctx, mm(X(e), Y(e), e['i'], j_))), [at(ini(e), e['i'], j_)]), vars=('i', 'j', 'm')),
               Hint('length', lambda e: e['m'].data_.len == IMUL(X(e).nrow_, Y(e).ncol_), vars=('m',)),
               Hint('partial sum', lambda e: e['sum'] == mm(X(e), Y(e), e['i'], e['j'], e['k']), vars=('i', 'j', 'k', 'sum'))])
prod('m_mm', lambda c, t: t, None, 'v = x*y')
prod('m_mmctor', lambda c, t: t, None, 'Matrix(x*y)', res=lambda c: c.result)
prod('m_amm', lambda c, t: fm(t, c.old('a')), None, 'v = a*x*y')
prod('m_selfmm', lambda c, t: t, None, 'v = v*y (target is an operand)', x='v')

MV = SumFn('mrow', [AR, I, AR, I], term=lambda a, an, b, i, j: fm(AT(a, an, i, j), b[j]))     # sum_j a(i,j) b(j)
VM = SumFn('mcol', [AR, I, AR, I], term=lambda a, an, b, i, j: fm(AT(a, an, j, i), b[j]))     # sum_j b(j) a(j,i)
for root, F, m, v, nm in (('m_mv', MV, 'x', 'y', 'v <= matrix*vector'), ('m_vm', VM, 'y', 'x', 'v <= vector*matrix')):
    sh = (lambda M: (M.nrow_, M.ncol_)) if F is MV else (lambda M: (M.ncol_, M.nrow_))
    val = lambda c, i, k, F=F, m=m, v=v: F(c.old(m).data_.arr, c.old(m).nrow_, c.old(v).arr, i, k)
    both(root, 'm_mv', title=nm, pre=lambda c, m=m, v=v, sh=sh: [wf(c[m]), c[v].len == sh(c[m])[1], sh(c[m])[0] < SMALL],
        post=lambda c, m=m, v=v, sh=sh, val=val: [('length', c['v'].len == sh(c.old(m))[0]), ('components', fa_(c['v'].arr, c['v'].len, lambda i: val(c, i, sh(c.old(m))[1])))], axioms=[F],
        hints=[Hint('done', lambda e, m=m, sh=sh, val=val: fa_(e.root('v').arr, e['i'], lambda i: val(e.ctx, i, sh(e.ctx.old(m))[1])), vars=('i',)),
               Hint('length', lambda e, m=m, sh=sh: e.root('v').len == sh(e.ctx.old(m))[0], vars=()),
               Hint('partial sum', lambda e, val=val: e['sum'] == val(e.ctx, e['i'], e['j']), vars=('i', 'j', 'sum'))])

# ---- product with the (conjugate) transpose
TC = SumFn('mtc', [AR, I, AR, I, I, I], term=lambda a, an, b, bn, i, j, k: fm(cj(AT(a, an, k, i)), AT(b, bn, k, j)))
TN = SumFn('mtn', [AR, I, AR, I, I, I], term=lambda a, an, b, bn, i, j, k: fm(AT(a, an, k, i), AT(b, bn, k, j)))
for root in ('m_mtc', 'm_mtn'):
    for s in ('', '_z'):
        F = TC if root == 'm_mtc' and s else TN
        full = lambda c, i, j, k=None, F=F: F(c.old('x').data_.arr, c.old('x').nrow_, c.old('y').data_.arr, c.old('y').nrow_, i, j, c.old('x').nrow_ if k is None else k)
        def zero(e, done, full=full): return entries(e['ret'], lambda i, j: z3.If(done(e, i, j), full(e.ctx, i, j), z3.RealVal(0)))
        before = lambda e, i, j: i < e['s']
        upto = lambda e, i, j: z3.Or(i < e['s'], all_(i == e['s'], j < e['t']))
        both(root, 'm_mtc', z=(s,), title='product of the %stranspose of x with y' % ('conjugate ' if root == 'm_mtc' else ''), axioms=[F],
            pre=lambda c: [wf(c['x']), wf(c['y']), c['x'].nrow_ == c['y'].nrow_, small(c['x'].ncol_, c['y'].ncol_)],
            post=lambda c, full=full: [('shape', dims(c.result, c['x'].ncol_, c['y'].ncol_)), ('entries', entries(c.result, lambda i, j: full(c, i, j)))],
            hints=[Hint('shape', lambda e: dims(e['ret'], e.root('x').ncol_, e.root('y').ncol_), vars=('ret',)),
                   Hint('rows done', lambda e, zero=zero: zero(e, before), vars=('s', 'ret'), mod=('s',)),
                   Hint('entries done', lambda e, zero=zero: zero(e, upto), vars=('s', 't', 'ret'), fix=('s',), mod=('t',)),
                   Hint('entry in progress', lambda e, full=full: entries(e['ret'], lambda i, j: z3.If(upto(e, i, j), full(e.ctx, i, j), z3.If(all_(i == e['s'], j == e['t']), full(e.ctx, i, j, e['w']), z3.RealVal(0)))), vars=('s', 't', 'w', 'ret'), fix=('s', 't'))])
# ---- transposes
def tr(root, f, res, o, hf='m_tc'):
    for s in ('', '_z'):
        val = lambda c, i, j, s=s: f(at(c.old('x'), j, i)) if s else at(c.old('x'), j, i)
        ini = (lambda e: e.root('v')) if o else (lambda e: e['ret'])
        shape = lambda e, ini=ini: dims(ini(e), e.ctx.old('x').ncol_, e.ctx.old('x').nrow_)
        both(root, hf, title={'m_tc': 'v = conjugate transpose of x', 'm_tcr': 'conjugate transpose of x', 'm_t': 'v = transpose of x'}[root], z=(s,), pre=lambda c: [wf(c[n]) for n in ('v', 'x') if n in c.locs],
            post=lambda c, val=val: [('shape', dims(res(c), c.old('x').ncol_, c.old('x').nrow_)), ('entries', entries(res(c), lambda i, j: val(c, i, j)))],
            throws=(lambda c: all_(c.old('v').nrow_ > 0, c.old('v').nrow_ != c.old('x').ncol_)) if o else None,
            hints=[Hint('shape', shape, vars=() if o else ('ret',)),
                   Hint('rows done', lambda e, val=val, ini=ini: entries(ini(e), lambda i, j: val(e.ctx, i, j), r=e['i']), vars=('i',) + (() if o else ('ret',)), mod=('i',)),
                   Hint('rows done in', lambda e, val=val, ini=ini: entries(ini(e), lambda i, j: val(e.ctx, i, j), r=e['i']), vars=('i',) + (() if o else ('ret',)), fix=('i',)),
                   Hint('row in progress', lambda e, val=val, ini=ini: forall(j_, imp(all_(0 <= j_, j_ < e['j']), at(ini(e), e['i'], j_) == val(e.ctx, e['i'], j_)), [at(ini(e), e['i'], j_)]), vars=('i', 'j') + (() if o else ('ret',)))])
tr('m_tc', cj, lambda c: c['v'], True)
tr('m_t', lambda x: x, lambda c: c['v'], True)
tr('m_tcr', cj, lambda c: c.result, False)
both('m_conjugate', z=('_z',), title='conjugate', pre=lambda c: [wf(c['a'])], post=lambda c: [('shape', dims(c['a'], c.old('a').nrow_, c.old('a').ncol_)), ('entries', fa_(c['a'].data_.arr, c['a'].data_.len, lambda k: cj(d(c, 'a', k))))],
    hints=[Hint('done', lambda e: fa_(e.root('a').data_.arr, e['i'], lambda k: cj(d(e.ctx, 'a', k))), vars=('i',)),
           Hint('to do', lambda e: forall(k_, imp(all_(k_ >= e['i'], k_ < e.root('a').data_.len), e.root('a').data_.arr[k_] == d(e.ctx, 'a', k_)), [e.root('a').data_.arr[k_]]), vars=('i',))])
contract(P, 'vroot::m_convert', tu=TU, title='complex matrix from a real one', opts=O('m_access'), axioms=AX, pre=lambda c: [wf(c['a'])],
    post=lambda c: [('shape', dims(c.result, c['a'].nrow_, c['a'].ncol_)), ('entries', entries(c.result, lambda i, j: at(c['a'], i, j)))],
    hints=[Hint('rows done', lambda e: forall([i_, j_], imp(all_(0 <= i_, i_ < e['i'], 0 <= j_, j_ < e.root('a').ncol_), AT(e['this'].data_.arr, e.root('a').nrow_, i_, j_) == at(e.root('a'), i_, j_)), [AT(e['this'].data_.arr, e.root('a').nrow_, i_, j_)]), vars=('i',)),
           Hint('row in progress', lambda e: forall(j_, imp(all_(0 <= j_, j_ < e['j']), AT(e['this'].data_.arr, e.root('a').nrow_, e['i'], j_) == at(e.root('a'), e['i'], j_)), [AT(e['this'].data_.arr, e.root('a').nrow_, e['i'], j_)]), vars=('i', 'j')),
           Hint('shape', lambda e: all_(e['this'].nrow_ == e.root('a').nrow_, e['this'].ncol_ == e.root('a').ncol_, e['this'].data_.len == e.root('a').data_.len))])
# ---- views
for s in ('', '_z'):
    vpos = lambda c: c['off'] + c['i'] + IMUL(c['j'], c['r'])
    contract(P, 'vroot::m_view' + s, tu=TU, title='view of a part of a vector as a matrix', opts=O('m_view'), axioms=AX,
        pre=lambda c: [c['off'] + IMUL(c['r'], c['c']) <= c['d'].len, c['off'] + IMUL(c['c'], c['r']) <= c['d'].len, c['i'] < c['r'], c['j'] < c['c']],
        post=lambda c: [('value', c.result == c['x']), ('only that place', all_(c['d'].len == c.old('d').len, forall(k_, c['d'].arr[k_] == z3.If(k_ == vpos(c), c['x'], c.old('d').arr[k_]))))])
    contract(P, 'vroot::m_viewc' + s, tu=TU, title='view of a matrix', opts=O('m_view'), axioms=AX, pre=lambda c: [wf(c['m']), c['i'] < c['m'].nrow_, c['j'] < c['m'].ncol_],
        post=lambda c: [('value', c.result == at(c['m'], c['i'], c['j']))])

# ---- predicates
EPS6 = z3.RealVal('1/1000000')
absr = lambda x: z3.If(x >= 0, x, -x)
cnorm = z3.Function('cnorm', R, R)
def pred(root, bad, square=True, tail=None):
    for s in ('', '_z'):
        nrm = (lambda x: cnorm(x)) if s else absr
        con = cj if s else (lambda x: x)
        B = lambda M, i, j, nrm=nrm, con=con: bad(M, i, j, nrm, con)
        def okall(M, r, c, B=B): return forall([i_, j_], imp(all_(0 <= i_, i_ < r, 0 <= j_, j_ < c), z3.Not(B(M, i_, j_))), [at(M, i_, j_)])
        def okrow(M, i, c, B=B): return forall(j_, imp(all_(0 <= j_, j_ < c), z3.Not(B(M, i, j_))), [at(M, i, j_)])
        both(root, 'm_pred', z=(s,), title=root[2:], pre=lambda c: [wf(c['a'])] + ([c['a'].nrow_ < (1 << 60), c['a'].ncol_ < (1 << 60)]),
            post=lambda c, okall=okall: [('yes exactly when the matrix has the property', c.result == okall(c['a'], c['a'].nrow_, c['a'].ncol_) if square != 'id' else c.result == all_(c['a'].nrow_ == c['a'].ncol_, okall(c['a'], c['a'].nrow_, c['a'].ncol_)))],
            throws=(lambda c: c['a'].nrow_ != c['a'].ncol_) if square is True else None,
            hints=[Hint('rows checked', lambda e, okall=okall: okall(e.root('a'), e['i'], e.root('a').ncol_), vars=('i',), mod=('i',)),
                   Hint('rows checked in', lambda e, okall=okall: okall(e.root('a'), e['i'], e.root('a').ncol_), vars=('i',), fix=('i',)),
                   Hint('row checked', lambda e, okrow=okrow: okrow(e.root('a'), e['i'], e['j']), vars=('i', 'j'))] + (tail(nrm) if tail else []))
pred('m_isHermitian', lambda M, i, j, nrm, con: nrm(at(M, i, j) - con(at(M, j, i))) > EPS6)
pred('m_isAntiHermitian', lambda M, i, j, nrm, con: nrm(at(M, i, j) + con(at(M, j, i))) > EPS6)
pred('m_isTheIdentity', lambda M, i, j, nrm, con: nrm(at(M, i, j) - z3.If(i == j, z3.RealVal(1), z3.RealVal(0))) > EPS6, 'id', lambda nrm: [
    Hint('off diagonal rows', lambda e: forall([i_, j_], imp(all_(0 <= i_, i_ < e['i'], 0 <= j_, j_ < e.root('a').ncol_, i_ != j_), nrm(at(e.root('a'), i_, j_)) <= EPS6), [at(e.root('a'), i_, j_)]), vars=('i',), mod=('i',)),
    Hint('off diagonal rows in', lambda e: forall([i_, j_], imp(all_(0 <= i_, i_ < e['i'], 0 <= j_, j_ < e.root('a').ncol_, i_ != j_), nrm(at(e.root('a'), i_, j_)) <= EPS6), [at(e.root('a'), i_, j_)]), vars=('i',), fix=('i',)),
    Hint('off diagonal all', lambda e: forall([i_, j_], imp(all_(0 <= i_, i_ < e.root('a').nrow_, 0 <= j_, j_ < e.root('a').ncol_, i_ != j_), nrm(at(e.root('a'), i_, j_)) <= EPS6), [at(e.root('a'), i_, j_)]), vars=()),
    Hint('off diagonal row', lambda e: forall(j_, imp(all_(0 <= j_, j_ < e['j'], e['i'] != j_), nrm(at(e.root('a'), e['i'], j_)) <= EPS6), [at(e.root('a'), e['i'], j_)]), vars=('i', 'j')),
    Hint('diagonal', lambda e: forall(j_, imp(all_(0 <= j_, j_ < e['i']), nrm(at(e.root('a'), j_, j_) - 1) <= EPS6), [at(e.root('a'), j_, j_)]), vars=('i',), mod=('i',))])
pred('m_isZero', lambda M, i, j, nrm, con: nrm(at(M, i, j)) > 0, False)
N2 = SumFn('n2row', [AR, I, I], term=lambda a, n, i, j: fm(AT(a, n, i, j), AT(a, n, i, j)))
creal = z3.Function('creal', R, R)
N2Z = SumFn('n2rowz', [AR, I, I], term=lambda a, n, i, j: creal(fm(cj(AT(a, n, i, j)), AT(a, n, i, j))))
for s, F in (('', N2), ('_z', N2Z)):
    G = SumFn('n2' + s, [AR, I, I], term=lambda a, n, m, i, F=F: F(a, n, i, m))
    g = lambda M, i, G=G: G(M.data_.arr, M.nrow_, M.ncol_, i)
    both('m_norm2', z=(s,), title='sum of the squared entries', pre=lambda c: [wf(c['a'])], post=lambda c, g=g: [('value', c.result == g(c['a'], c['a'].nrow_))], axioms=[F, G],
        hints=[Hint('rows', lambda e, g=g: e['sum'] == g(e.root('a'), e['i']), vars=('i', 'sum'), mod=('i',)),
               Hint('row', lambda e, g=g, F=F: e['sum'] == g(e.root('a'), e['i']) + F(e.root('a').data_.arr, e.root('a').nrow_, e['i'], e['j']), vars=('i', 'j', 'sum'))])
for s in ('', '_z'):
    both('m_eq', 'm_pred', z=(s,), title='operator==', pre=lambda c: [wf(c['a']), wf(c['b'])], post=lambda c: [('equal exactly when shapes and all entries agree', c.result == all_(c['a'].nrow_ == c['b'].nrow_, c['a'].ncol_ == c['b'].ncol_, fa_(c['a'].data_.arr, c['a'].data_.len, lambda k: c['b'].data_.arr[k])))])

# ---- outer (Kronecker) product: A(i1 + i2*ni, j1 + j2*nj) = B(i1,j1)*C(i2,j2)
KR = z3.Function('at4', AR, I, I, I, I, I, I, I, R)
_q = z3.Ints('ka kb kc k1 k2 k3 k4')
def kpos(n, ni, nj, i1, j1, i2, j2): return IDX(IDX(i1, i2, ni), IDX(j1, j2, nj), n)
KR_AX = [z3.ForAll([_A] + _q, KR(_A, *_q) == _A[kpos(*_q)], patterns=[KR(_A, *_q)]),
    z3.ForAll([_A, _p, _v] + _q, KR(z3.Store(_A, _p, _v), *_q) == z3.If(_p == kpos(*_q), _v, KR(_A, *_q)), patterns=[KR(z3.Store(_A, _p, _v), *_q)])]
def kr(e, cond):
    i1, j1, i2, j2 = z3.Ints('i1 j1 i2 j2')
    a, x, y = e['v'] if not hasattr(e, 'root') else e.root('v'), (e.ctx if hasattr(e, 'root') else e).old('x'), (e.ctx if hasattr(e, 'root') else e).old('y')
    t = KR(a.data_.arr, IMUL(x.nrow_, y.nrow_), x.nrow_, x.ncol_, i1, j1, i2, j2)
    return forall([i1, j1, i2, j2], imp(all_(0 <= i1, i1 < x.nrow_, 0 <= j1, j1 < x.ncol_, 0 <= i2, i2 < y.nrow_, 0 <= j2, j2 < y.ncol_, cond(i1, j1, i2, j2)), t == fm(at(x, i1, j1), at(y, i2, j2))), [t])
lv = ('i1', 'j1', 'i2', 'j2')
def kh(n):
    def cond(e):
        def c(*q):
            r = q[n - 1] < e[lv[n - 1]]
            for m in range(n - 2, -1, -1): r = z3.Or(q[m] < e[lv[m]], all_(q[m] == e[lv[m]], r))
            return r
        return c
    return Hint('blocks done at depth %d' % n, lambda e: kr(e, cond(e)), vars=lv[:n], mod=(lv[n - 1],), fix=lv[:n - 1])
for s in ('', '_z'):
    both('m_outer', z=(s,), title='outer product', axioms=KR_AX, pre=lambda c: [wf(c['v']), wf(c['x']), wf(c['y']), small(c['x'].nrow_, c['y'].nrow_), small(c['x'].ncol_, c['y'].ncol_), IMUL(IMUL(c['x'].nrow_, c['y'].nrow_), IMUL(c['x'].ncol_, c['y'].ncol_)) < SMALL],
        post=lambda c: [('shape', dims(c['v'], IMUL(c['x'].nrow_, c['y'].nrow_), IMUL(c['x'].ncol_, c['y'].ncol_))), ('entries', kr(c, lambda *q: z3.BoolVal(True)))],
        throws=lambda c: all_(c.old('v').nrow_ > 0, c.old('v').nrow_ != IMUL(c['x'].nrow_, c['y'].nrow_)),
        hints=[Hint('shape', lambda e: dims(e.root('v'), IMUL(e.root('x').nrow_, e.root('y').nrow_), IMUL(e.root('x').ncol_, e.root('y').ncol_)), vars=())] + [kh(n) for n in (1, 2, 3, 4)])
