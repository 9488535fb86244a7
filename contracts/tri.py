from contracts.lib import *
from contracts.matrix import AX, IMUL, IDX, AT, dims, entries, at, wf, small, fm, fa_
P, TU = 'P14', 'tri.cpp'
def con(root, hf, **kw):
    contract(P, 'vroot::' + root, tu=TU, opts=dict(imul=True, hfuncs=[hf]), axioms=list(kw.pop('axioms', [])) + AX, **kw)
tw = lambda t: t.a_.len == t.b_.len
ten = lambda t, i, j: z3.If(i == j, t.a_.arr[i], z3.If(j == i + 1, t.b_.arr[j], z3.If(i == j + 1, t.b_.arr[i], z3.RealVal(0))))
for r, n in (('t_build', lambda c: c['t'].a_.len), ('t_buildn', lambda c: z3.If(c['n'] == 0, c['t'].a_.len, c['n']))):
    con(r, 'tm_basic', title='expansion into a dense matrix', pre=lambda c, n=n: [wf(c['m']), tw(c['t']), c['t'].a_.len > 0, n(c) <= c['t'].a_.len, small(n(c), n(c))],
        post=lambda c, n=n: [('shape', dims(c['m'], n(c), n(c))), ('entries', entries(c['m'], lambda i, j: ten(c['t'], i, j)))],
        hints=[Hint('done', lambda e: entries(e.root('m'), lambda i, j: z3.If(z3.Or(all_(i < e['i'], j <= e['i']), all_(i <= e['i'], j < e['i'])), ten(e.root('t'), i, j), z3.RealVal(0))), vars=('i',)),
               Hint('shape', lambda e: dims(e.root('m'), e['n'], e['n']), vars=('n',))])
con('t_resize', 'tm_basic', title='resize', pre=lambda c: [tw(c['t']), c['n'] > 0, c['n'] < (1 << 60)], post=lambda c: [(x, all_(c['t'][x].len == c['n'], fa_(c['t'][x].arr, c['n'], lambda k: z3.If(k < c.old('t')[x].len, c.old('t')[x].arr[k], z3.RealVal(0))))) for x in ('a_', 'b_')])
con('t_resizeval', 'tm_basic', title='resize with a value', pre=lambda c: [tw(c['t']), c['n'] > 0, c['n'] < (1 << 60)], post=lambda c: [(x, all_(c['t'][x].len == c['n'], fa_(c['t'][x].arr, c['n'], lambda k: c['x']))) for x in ('a_', 'b_')],
    hints=[Hint('set ' + x, lambda e, x=x: fa_(e.root('t')[x].arr, e['i'], lambda k: e.ctx['x']), vars=('i',)) for x in ('a_', 'b_')])
con('t_push', 'tm_basic', title='append', pre=lambda c: [tw(c['t']), c['t'].a_.len < (1 << 60)], post=lambda c: [(x, all_(c['t'][x].len == c.old('t')[x].len + 1, fa_(c['t'][x].arr, c['t'][x].len, lambda k: z3.If(k < c.old('t')[x].len, c.old('t')[x].arr[k], c[y])))) for x, y in (('a_', 'a'), ('b_', 'b'))])
for r, x in (('t_a', 'a_'), ('t_b', 'b_')):
    con(r, 'tm_basic', title='coefficient access', pre=lambda c: [tw(c['t']), c['i'] < c['t'].a_.len], post=lambda c, x=x: [('value', c.result == c['t'][x].arr[c['i']])])
    con(r.replace('_', '_set'), 'tm_basic', title='coefficient assignment', pre=lambda c: [tw(c['t']), c['i'] < c['t'].a_.len],
        post=lambda c, x=x: [('value', all_(c['t'].a_.len == c.old('t').a_.len, c['t'].b_.len == c.old('t').b_.len, fa_(c['t'][x].arr, c['t'][x].len, lambda k: z3.If(k == c['i'], c['x'], c.old('t')[x].arr[k])), *[c['t'][y].arr == c.old('t')[y].arr for y in ('a_', 'b_') if y != x]))])
con('t_size', 'tm_basic', title='size', pre=lambda c: [tw(c['t'])], post=lambda c: [('number of rows', c.result == c['t'].a_.len)])

# ---- continued fractions
PI = z3.RealVal('3.141592653589793')
creal, cimag = z3.Function('creal', R, R), z3.Function('cimag', R, R)
mkc = z3.Function('mkcomplex', R, R, R)
fdiv = z3.Function('fdiv', R, R, R)
# sum over the poles: intensity/(z - sign*(offset - eig))
PO = SumFn('poles', [AR, AR, R, R, R], term=lambda I_, E, z, o, s, l: fdiv(I_[l], z - fm(s, o - E[l])))
nil = lambda f: all_(creal(f.weight_) == 0, cimag(f.weight_) == 0)
def val(f, z, o, s): return z3.If(nil(f), z3.RealVal(0), fm(PO(f.intensity_.arr, f.eigs_.arr, z, o, z3.ToReal(s), f.intensity_.len), f.weight_))
fw = lambda f: [f.intensity_.len == f.eigs_.len]
VH = Hint('partial sum', lambda e: e['sum'] == PO(e['this'].intensity_.arr, e['this'].eigs_.arr, e['z'], e['offset'], z3.ToReal(e['isign']), e['l']), vars=('l', 'sum'))
con('f_value', 'cf_value', title='value of a continued fraction', pre=lambda c: fw(c['f']), post=lambda c: [('sum over the poles', c.result == val(c['f'], c['z'], c['offset'], c['isign']))], axioms=[PO], hints=[VH])
con('f_size', 'cf_value', title='size', pre=lambda c: [], post=lambda c: [('number of rows', c.result == c['f'].ab_.a_.len)])
# ---- plots
ST = SumFn('steps', [R], term=lambda d, k: d)                    # d added k times
STL = Lemma('adding a step k times', lambda: ([z3.Real('sd'), z3.Int('sk')], imp(z3.Int('sk') >= 0, ST(z3.Real('sd'), z3.Int('sk')) == z3.Real('sd') * z3.ToReal(z3.Int('sk'))), [ST(z3.Real('sd'), z3.Int('sk'))], z3.Int('sk'), z3.IntVal(0)))
def _reach():
    x, d, k = z3.Real('sx'), z3.Real('sd'), z3.Int('sk')
    return [x, d, k], imp(all_(d > 0, x >= 0, k >= 0, z3.ToReal(k) + 1 <= fdiv(x, d)), ST(d, k) < x), [z3.MultiPattern(ST(d, k), fdiv(x, d))]
DIVAX = z3.ForAll([_ for _ in z3.Reals('dx dy')], imp(z3.Real('dy') > 0, fdiv(z3.Real('dx'), z3.Real('dy')) * z3.Real('dy') == z3.Real('dx')), patterns=[fdiv(z3.Real('dx'), z3.Real('dy'))])
REACH = Lemma('points before the last step lie inside the window', _reach, uses=[STL])
def npts(p): return z3.ToInt(fdiv(p.omega2 - p.omega1, p.deltaOmega))
PT = lambda v, k: (v[k].first, v[k].second)
def pts(r, n, f):
    return forall(k_, imp(all_(0 <= k_, k_ < n), all_(*[x == y for x, y in zip(PT(r, k_), f(k_))])), [r.arr[k_]])
def om(p, k): return p.omega1 + ST(p.deltaOmega, k)
def realpt(c, k):
    p, f = c.old('p'), c.old('f')
    w = om(p, k)
    return w, val(f, mkc(w, p.delta), f.Eg_, f.isign_)
mats = lambda p, k: fdiv((2 * z3.ToReal(k) + 1) * PI, p.beta)
def matpt(c, k):
    p, f = c.old('p'), c.old('f')
    z = mkc(p.delta, mats(p, k))
    return cimag(z), val(f, z, f.Eg_, f.isign_)
def upd(c): return z3.If(c.old('r').len == 0, npt(c), c.old('r').len)
preal = lambda c: fw(c['f']) + [c['p'].deltaOmega > 0, c['p'].omega1 <= c['p'].omega2, npts(c['p']) < (1 << 40)]
rl = lambda c: z3.If(c.old('r').len == 0, npts(c['p']), c.old('r').len)
ml = lambda c: z3.If(c.old('r').len == 0, c['p'].numberOfMatsubaras, c.old('r').len)
mn = lambda a, b: z3.If(a < b, a, b)
con('f_plotReal', 'cf_plot', title='plot along the real axis', pre=preal, axioms=[PO, ST, DIVAX], lemmas=[STL, REACH],
    post=lambda c: [('number of points', c['r'].len == rl(c)), ('points', pts(c['r'], mn(npts(c['p']), c['r'].len), lambda k: realpt(c, k)))],
    hints=[VH, Hint('frequency', lambda e: e['omega'] == om(e.root('p'), e['counter']), vars=('omega', 'counter')),
           Hint('length', lambda e: e.root('r').len == rl(e.ctx), vars=()),
           Hint('points', lambda e: pts(e.root('r'), e['counter'], lambda k: realpt(e.ctx, k)), vars=('counter',))])
con('f_plotMats', 'cf_plot', title='plot along the imaginary axis', pre=lambda c: fw(c['f']) + [c['p'].numberOfMatsubaras < (1 << 31)], axioms=[PO],
    post=lambda c: [('number of points', c['r'].len == ml(c)), ('points', pts(c['r'], mn(c['p'].numberOfMatsubaras, c['r'].len), lambda k: matpt(c, k)))],
    hints=[VH, Hint('index', lambda e: e['omegaIndex'] == e['counter'], vars=('omegaIndex', 'counter')),
           Hint('length', lambda e: e.root('r').len == ml(e.ctx), vars=()),
           Hint('room', lambda e: imp(e['counter'] < e.root('p').numberOfMatsubaras, e['counter'] < e.root('r').len), vars=('counter',)),
           Hint('points', lambda e: pts(e.root('r'), e['counter'], lambda k: matpt(e.ctx, k)), vars=('counter',))])
imag_axis = lambda c: z3.Or(c['f'].freqEnum_ == 1, c['p'].numberOfMatsubaras > 0)
def plotpost(c):
    im = imag_axis(c)
    return [('number of points', c['r'].len == z3.If(im, ml(c), rl(c))), ('imaginary axis', imp(im, pts(c['r'], mn(c['p'].numberOfMatsubaras, c['r'].len), lambda k: matpt(c, k)))),
            ('real axis', imp(z3.Not(im), pts(c['r'], mn(npts(c['p']), c['r'].len), lambda k: realpt(c, k))))]
ALLH = [VH, Hint('frequency', lambda e: e['omega'] == om(e['params'], e['counter']), vars=('omega', 'counter')),
        Hint('index', lambda e: e['omegaIndex'] == e['counter'], vars=('omegaIndex', 'counter')),
        Hint('room', lambda e: imp(e['counter'] < e.root('p').numberOfMatsubaras, e['counter'] < e.root('r').len), vars=('counter', 'omegaIndex')),
        Hint('length', lambda e: e.root('r').len == rl(e.ctx), vars=()),
        Hint('length i', lambda e: e.root('r').len == ml(e.ctx), vars=()),
        Hint('points r', lambda e: pts(e.root('r'), e['counter'], lambda k: realpt(e.ctx, k)), vars=('counter', 'omega')),
        Hint('points i', lambda e: pts(e.root('r'), e['counter'], lambda k: matpt(e.ctx, k)), vars=('counter', 'omegaIndex'))]
con('f_plot', 'cf_plot', title='plot', pre=lambda c: preal(c) + [c['p'].numberOfMatsubaras < (1 << 31), z3.Or(c['f'].freqEnum_ == 0, c['f'].freqEnum_ == 1)], axioms=[PO, ST, DIVAX], lemmas=[STL, REACH], post=plotpost, hints=ALLH)
# ---- collections
class Call:
    "a call of ContinuedFraction::plot seen as an instance of its contract"
    def __init__(self, eng, st, obj, vs):
        rd = lambda x: eng.read(st, x) if not isinstance(x, (Rec, Vec)) else x
        self.d = {'f': rd(obj), 'r': rd(vs[0]), 'p': rd(vs[1])}
        self.n = dict(self.d)
    def __getitem__(self, k): return self.n[k]
    def old(self, k): return self.d[k]
PLOTPRE = lambda c: preal(c) + [c['p'].numberOfMatsubaras < (1 << 31), z3.Or(c['f'].freqEnum_ == 0, c['f'].freqEnum_ == 1)]
def spec_plot(eng, e, st, obj, vs):
    """contract of ContinuedFraction::plot, proved separately (f_plot)"""
    c = Call(eng, st, obj, vs)
    for x in PLOTPRE(c):
        eng.oblige(st, x, 'plot: precondition', 'callee precondition', e.get('loc', ''))
    facts = []
    r0 = c.d['r']
    r1 = eng.fresh({'k': 'rec', 'n': 'std::vector', 'full': 'std::vector', 'args': [r0.ety]}, 'plotted', facts)
    c.n['r'] = r1
    st.assume(*facts)
    st.assume(*[f for n, f in plotpost(c)])
    eng.write(st, vs[0], r1)
    return [(st, None)]
PSPEC = {'PsimagLite::ContinuedFraction<PsimagLite::TridiagonalMatrix<double>>::plot': spec_plot}
class Sub:
    'the member i of the collection seen as the parameter f'
    def __init__(self, c): self.c, self.result = c, getattr(c, 'result', None)
    def __getitem__(self, k): return self.c['c'].data_[self.c['i']] if k == 'f' else self.c[k]
    def old(self, k): return self.c.old('c').data_[self.c.old('i')] if k == 'f' else self.c.old(k)
con('c_one', 'cf_collection', title='plot of one member', axioms=[PO, ST], specs=PSPEC,
    pre=lambda c: [c['i'] < c['c'].data_.len] + PLOTPRE(Sub(c)), post=lambda c: plotpost(Sub(c)))
def samefrac(x, y): return all_(*[x[k] == y[k] for k in ('freqEnum_', 'Eg_', 'weight_', 'isign_')], *[y_.len == x_.len if w == 'n' else y_.arr == x_.arr for x_, y_ in [(x[k], y[k]) for k in ('eigs_', 'intensity_')] + [(x.ab_.a_, y.ab_.a_), (x.ab_.b_, y.ab_.b_)] for w in 'na'])
con('c_push', 'cf_collection', title='append a fraction', pre=lambda c: [c['c'].data_.len < (1 << 40)],
    post=lambda c: [('count', c['c'].data_.len == c.old('c').data_.len + 1), ('earlier ones stay', fa_(c['c'].data_.arr, c.old('c').data_.len, lambda k: c.old('c').data_.arr[k])), ('the new one is last', samefrac(c['c'].data_[c.old('c').data_.len], c['f']))])
con('c_size', 'cf_collection', title='number of fractions', pre=lambda c: [], post=lambda c: [('count', c.result == c['c'].data_.len)])
ACPOST = lambda r0, r1, x: [('length', r1.len == z3.If(r0.len == 0, x.len, r0.len)), ('points', forall(k_, imp(all_(0 <= k_, k_ < r1.len), all_(r1[k_].first == x[k_].first, r1[k_].second == x[k_].second + z3.If(r0.len == 0, z3.RealVal(0), r0[k_].second))), [r1.arr[k_]]))]
ACBAD = lambda r0, x: all_(r0.len != 0, z3.Or(r0.len != x.len, z3.Exists(k_, all_(0 <= k_, k_ < x.len, r0[k_].first != x[k_].first))))
con('c_acc', 'cf_collection', title='addition of two plots', pre=lambda c: [], post=lambda c: ACPOST(c.old('r'), c['r'], c['x']), throws=lambda c: ACBAD(c.old('r'), c['x']),
    hints=[Hint('length', lambda e: e.root('r').len == e.ctx['x'].len),
           Hint('points', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), all_(e.root('r')[k_].first == e.ctx['x'][k_].first, e.root('r')[k_].second == e.ctx['x'][k_].second + z3.If(e['wasEmpty'], z3.RealVal(0), e.ctx.old('r')[k_].second))), [e.root('r').arr[k_]]), vars=('i', 'wasEmpty')),
           Hint('same frequency', lambda e: imp(z3.Not(e['wasEmpty']), forall(k_, imp(all_(0 <= k_, k_ < e['i']), e.ctx.old('r')[k_].first == e.ctx['x'][k_].first), [e.ctx.old('r').arr[k_]])), vars=('i', 'wasEmpty')),
           Hint('rest', lambda e: imp(z3.Not(e['wasEmpty']), forall(k_, imp(all_(k_ >= e['i'], k_ < e.root('r').len), e.root('r').arr[k_] == e.ctx.old('r').arr[k_]), [e.root('r').arr[k_]])), vars=('i', 'wasEmpty'))])
def spec_acc(eng, e, st, obj, vs):
    """contract of accumulate, proved separately (c_acc)"""
    r0, x = eng.read(st, vs[0]), eng.read(st, vs[1])
    eng.oblige(st, z3.Not(ACBAD(r0, x)), 'accumulate: same points', 'callee precondition', e.get('loc', ''))
    facts = []
    r1 = eng.fresh({'k': 'rec', 'n': 'std::vector', 'full': 'std::vector', 'args': [r0.ety]}, 'sum', facts)
    st.assume(*facts)
    st.assume(*[f for n, f in ACPOST(r0, r1, x)])
    eng.write(st, vs[0], r1)
    return [(st, None)]
CF_ = 'PsimagLite::ContinuedFraction<PsimagLite::TridiagonalMatrix<double>>'
_vs = {}
class FP:
    def __init__(self, f, p): self.d = {'f': f, 'p': p}
    def old(self, k): return self.d[k]
class PPs:
    def __init__(self, xs): self.omega1, self.deltaOmega, self.delta, self.beta, self.numberOfMatsubaras = xs
PA = lambda p: (p.omega1, p.deltaOmega, p.delta, p.beta, p.numberOfMatsubaras)
def total(eng):
    """(value of one member at a point, sum over the first m members)"""
    S, t = eng.T.dt[CF_]
    if S not in _vs:
        pv = z3.Function('pointvalue%d' % len(_vs), S, R, R, R, R, I, I, R)
        _vs[S] = pv, SumFn('total%d' % len(_vs), [z3.ArraySort(I, S), R, R, R, R, I, I], term=lambda a, *q: pv(a[q[-1]], *q[:-1]))
    pv, T_ = _vs[S]
    a, o, w, d_, b, k, n = z3.Const('pa', S), *z3.Reals('po pw pd pb'), z3.Int('pk'), z3.Int('pn')
    f, p = eng.T.unpack(a, t), PPs((o, w, d_, b, n))
    c = FP(f, p)
    ax = z3.ForAll([a, o, w, d_, b, n, k], pv(a, o, w, d_, b, n, k) == z3.If(z3.Or(f.freqEnum_ == 1, n > 0), matpt(c, k)[1], realpt(c, k)[1]), patterns=[pv(a, o, w, d_, b, n, k)])
    return pv, T_, ax
def allmembers(c, g):
    d_ = c['c'].data_
    return forall(i_, imp(all_(0 <= i_, i_ < d_.len), all_(*g(d_[i_]))), [d_.arr[i_]])
def cfreq(c): return z3.Or(c.old('c').data_[0].freqEnum_ == 1, c.old('p').numberOfMatsubaras > 0)
class First(Sub):
    def __getitem__(self, k): return self.c['c'].data_[0] if k == 'f' else self.c[k]
    def old(self, k): return self.c.old('c').data_[0] if k == 'f' else self.c.old(k)
def Npts(c): return z3.If(cfreq(c), c.old('p').numberOfMatsubaras, npts(c.old('p')))
def cpoints(e, c, r, m):
    T_ = _vs[c.old('c').data_.arr.sort().range()][1]
    return forall(k_, imp(all_(0 <= k_, k_ < r.len), all_(r[k_].first == z3.If(cfreq(c), matpt(First(c), k_)[0], realpt(First(c), k_)[0]), r[k_].second == T_(c.old('c').data_.arr, *PA(c.old('p')), k_, m))), [r.arr[k_]])
con('c_plot', 'cf_collection', title='plot of a collection', axioms=[PO, ST, lambda eng: total(eng)[1], lambda eng: total(eng)[2]], specs=dict(PSPEC, **{'PsimagLite::ContinuedFractionCollection<%s>::accumulate' % CF_: spec_acc}),
    pre=lambda c: [c['r'].len == 0, c['p'].deltaOmega > 0, c['p'].omega1 <= c['p'].omega2, npts(c['p']) >= 0, npts(c['p']) < (1 << 40), 0 <= c['p'].numberOfMatsubaras, c['p'].numberOfMatsubaras < (1 << 31),
        allmembers(c, lambda f: fw(f) + [z3.Or(f.freqEnum_ == 0, f.freqEnum_ == 1), f.freqEnum_ == c['c'].data_[0].freqEnum_])],
    post=lambda c: [('number of points', c['r'].len == z3.If(c['c'].data_.len == 0, 0, Npts(c))), ('sum of all members at each point', cpoints(None, c, c['r'], c['c'].data_.len))],
    hints=[Hint('length', lambda e: e.root('r').len == z3.If(e['i'] == 0, 0, Npts(e.ctx)), vars=('i',)),
           Hint('points', lambda e: cpoints(e, e.ctx, e.root('r'), e['i']), vars=('i',))])
# ---- diagonalization and the resolvent
GU, GE = z3.Const('eigenvectors', AR), z3.Const('eigenvalues', AR)      # what the eigensolver returned (ghost)
ORTH = SumFn('orth', [AR, I, I, I], term=lambda u, n, i, j, k: fm(AT(u, n, i, k), AT(u, n, j, k)))
ROWU = SumFn('rowu', [AR, I, AR, I, I], term=lambda t, n, u, i, l, j: fm(AT(t, n, i, j), AT(u, n, j, l)))
def eigsys(T, n):
    """T U = U diag(E), rows of U orthonormal"""
    return [forall([i_, j_], imp(all_(0 <= i_, i_ < n, 0 <= j_, j_ < n), ORTH(GU, n, i_, j_, n) == z3.If(i_ == j_, z3.RealVal(1), z3.RealVal(0))), [ORTH(GU, n, i_, j_, n)]),
            forall([i_, l_], imp(all_(0 <= i_, i_ < n, 0 <= l_, l_ < n), ROWU(T, n, GU, i_, l_, n) == fm(GE[l_], AT(GU, n, i_, l_))), [AT(GU, n, i_, l_)])]
_once = z3.Bool('eigensolver ran')
def spec_diag(eng, e, st, obj, vs):
    """assumed contract of the LAPACK eigensolver for a real symmetric matrix"""
    m, ev = eng.read(st, vs[0]), eng.read(st, vs[1])
    if _once.get_id() in [x.get_id() for x in st.pc]:
        raise Unsupported('two calls of the eigensolver')
    n, D = m.nrow_, m.data_.arr
    loc = e.get('loc', '')
    eng.oblige(st, m.nrow_ == m.ncol_, 'diag: square', 'callee precondition', loc)
    eng.oblige(st, forall([i_, j_], imp(all_(0 <= i_, i_ < n, 0 <= j_, j_ < n), AT(D, n, i_, j_) == AT(D, n, j_, i_)), [AT(D, n, i_, j_)]), 'diag: symmetric', 'callee precondition', loc)
    facts = []
    m1, e1 = eng.fresh(m.cls, 'u', facts), eng.fresh({'k': 'rec', 'n': 'std::vector', 'full': 'std::vector', 'args': [ev.ety]}, 'ev', facts)
    st.assume(*facts)
    st.assume(_once, m1.nrow_ == n, m1.ncol_ == n, m1.data_.len == m.data_.len, m1.data_.arr == GU, e1.len == n, e1.arr == GE, *eigsys(D, n))
    eng.write(st, vs[0], m1)
    eng.write(st, vs[1], e1)
    return [(st, None)]
def istri(T, n, a, b): return forall([i_, j_], imp(all_(0 <= i_, i_ < n, 0 <= j_, j_ < n), AT(T, n, i_, j_) == z3.If(i_ == j_, a[i_], z3.If(j_ == i_ + 1, b[j_], z3.If(i_ == j_ + 1, b[i_], z3.RealVal(0))))), [AT(T, n, i_, j_)])
# the three terms of a row of a tridiagonal matrix times column l of u
def three(a, b, n, i, t): return z3.If(i > 0, fm(b[i], t(i - 1)), z3.RealVal(0)) + fm(a[i], t(i)) + z3.If(i + 1 < n, fm(b[i + 1], t(i + 1)), z3.RealVal(0))
def _rowtri():
    T, u, a, b = [z3.Const(x, AR) for x in ('rT', 'ru', 'ra', 'rb')]
    n, i, l, m = z3.Ints('rn ri rl rm')
    U_ = lambda j: AT(u, n, j, l)
    body = imp(all_(0 <= i, i < n, 0 <= l, l < n, 0 <= m, m <= n, istri(T, n, a, b)),
        ROWU(T, n, u, i, l, m) == z3.If(all_(i > 0, m > i - 1), fm(b[i], U_(i - 1)), z3.RealVal(0)) + z3.If(m > i, fm(a[i], U_(i)), z3.RealVal(0)) + z3.If(m > i + 1, fm(b[i + 1], U_(i + 1)), z3.RealVal(0)))
    return [T, u, a, b, n, i, l, m], body, [z3.MultiPattern(ROWU(T, n, u, i, l, m), a[i], b[i])], m, z3.IntVal(0)
ZEROM = z3.ForAll([z3.Real('zx')], fm(z3.RealVal(0), z3.Real('zx')) == 0, patterns=[fm(z3.RealVal(0), z3.Real('zx'))])
ROWTRI = Lemma('a row of a tridiagonal matrix has three terms', _rowtri, local=[ZEROM])
# components of the solution of (z - s*(o - H)) x = e_0:  x_j = sum_l U(j,l) * U(0,l) / (z - s*(o - e_l))
CC = z3.Function('amplitude', AR, AR, I, R, R, R, I, R)
def _ccdef():
    u, ev, n, l, z, o, s = z3.Const('cu', AR), z3.Const('ce', AR), z3.Int('cn'), z3.Int('cl'), *z3.Reals('cz co cs')
    t = CC(u, ev, n, z, o, s, l)
    return z3.ForAll([u, ev, n, z, o, s, l], t == fdiv(AT(u, n, 0, l), z - fm(s, o - ev[l])), patterns=[t])
CCDEF = _ccdef()
XS = SumFn('comp', [AR, AR, I, I, R, R, R], term=lambda u, ev, n, j, z, o, s, l: fm(AT(u, n, j, l), CC(u, ev, n, z, o, s, l)))
DIAGSPEC = {'PsimagLite::diag': spec_diag}
def fset(c, t, Eg, w, s):
    f, f0 = c['f'], c.old('f')
    n = t.a_.len
    return [('a fraction of weight zero keeps its poles', imp(nil(f), all_(f.eigs_.len == f0.eigs_.len, f.intensity_.len == f0.intensity_.len))), ('coefficients kept', all_(f.ab_.a_.len == n, f.ab_.a_.arr == t.a_.arr, f.ab_.b_.len == t.b_.len, f.ab_.b_.arr == t.b_.arr, f.Eg_ == Eg, f.weight_ == w, f.isign_ == s)),
            ('poles', imp(z3.Not(nil(f)), all_(f.eigs_.len == n, fa_(f.eigs_.arr, n, lambda k: GE[k]), f.intensity_.len == n))),
            ('intensities', imp(z3.Not(nil(f)), fa_(f.intensity_.arr, n, lambda k: fm(AT(GU, n, 0, k), AT(GU, n, 0, k)))))]
TH = [Hint('done', lambda e: entries(e['m'], lambda i, j: z3.If(z3.Or(all_(i < e['i'], j <= e['i']), all_(i <= e['i'], j < e['i'])), ten(e['this'], i, j), z3.RealVal(0))), vars=('i', 'm')),
      Hint('shape', lambda e: dims(e['m'], e['n'], e['n']), vars=('n', 'm')),
      Hint('squares', lambda e: fa_(e['this'].intensity_.arr, e['i'], lambda k: fm(AT(GU, e['T'].nrow_, 0, k), AT(GU, e['T'].nrow_, 0, k))), vars=('i', 'T')),
      Hint('squares length', lambda e: e['this'].intensity_.len == e['T'].nrow_, vars=('T',)),
      Hint('weight', lambda e: e['this'].weight_ == e.ctx['w'])]
tp = lambda c: [tw(c['t']), c['t'].a_.len > 0, small(c['t'].a_.len, c['t'].a_.len)]

QV = [z3.Const(x, AR) for x in ('ru', 're', 'ra', 'rb')] + list(z3.Ints('rn ri rk')) + list(z3.Reals('rz ro rs'))
FMDEF = z3.ForAll([z3.Real('qx'), z3.Real('qy')], fm(z3.Real('qx'), z3.Real('qy')) == z3.Real('qx') * z3.Real('qy'), patterns=[fm(z3.Real('qx'), z3.Real('qy'))])
DIVDEF = z3.ForAll([z3.Real('qx'), z3.Real('qy')], imp(z3.Real('qy') != 0, fdiv(z3.Real('qx'), z3.Real('qy')) * z3.Real('qy') == z3.Real('qx')), patterns=[fdiv(z3.Real('qx'), z3.Real('qy'))])
def lhs(f):
    """row i of (z - s*(o - H)) applied to the vector f"""
    u, ev, a, b, n, i, k, z, o, s = QV
    return fm(s, three(a, b, n, i, f)) + fm(z - fm(s, o), f(i))
def pole(j):
    u, ev, a, b, n, i, k, z, o, s = QV
    return fm(AT(u, n, j, k), CC(u, ev, n, z, o, s, k))
def comp(j, k_=None):
    u, ev, a, b, n, i, k, z, o, s = QV
    return XS(u, ev, n, j, z, o, s, k if k_ is None else k_)
def eigrow(l):
    u, ev, a, b, n, i, k, z, o, s = QV
    return all_(z - fm(s, o - ev[l]) != 0, three(a, b, n, i, lambda j: AT(u, n, j, l)) == fm(ev[l], AT(u, n, i, l)))
def _factor():
    q = z3.Reals('um ui up bi ai bn c')
    um, ui, up, bi, ai, bn, c = q
    g, h = z3.Bools('g h')
    th = lambda f: z3.If(g, fm(bi, f(um)), z3.RealVal(0)) + fm(ai, f(ui)) + z3.If(h, fm(bn, f(up)), z3.RealVal(0))
    return q + [g, h], th(lambda x: fm(x, c)) == fm(th(lambda x: x), c), None
FACTOR = Lemma('a common factor of three terms', _factor, only_prove=True, local=[FMDEF], only_local=True)
def _cancel():
    q = z3.Reals('s z o e w c ui u0')
    s, z, o, e, w, c, ui, u0 = q
    d_ = z - fm(s, o - e)
    return q, imp(all_(w == fm(e, ui), c == fdiv(u0, d_), d_ != 0), fm(s, fm(w, c)) + fm(z - fm(s, o), fm(ui, c)) == fm(ui, u0)), None
CANCEL = Lemma('the pole cancels', _cancel, only_prove=True, local=[FMDEF, DIVDEF], only_local=True)
def _onepole():
    u, ev, a, b, n, i, k, z, o, s = QV
    return QV, imp(eigrow(k), lhs(pole) == fm(AT(u, n, i, k), AT(u, n, 0, k))), [z3.MultiPattern(CC(u, ev, n, z, o, s, k), a[i], b[i])]
def _insts():
    u, ev, a, b, n, i, k, z, o, s = QV
    U_, c = (lambda j: AT(u, n, j, k)), CC(u, ev, n, z, o, s, k)
    return [FACTOR.inst(None, None, um=U_(i - 1), ui=U_(i), up=U_(i + 1), bi=b[i], ai=a[i], bn=b[i + 1], c=c, g=i > 0, h=i + 1 < n),
            CANCEL.inst(None, None, s=s, z=z, o=o, e=ev[k], w=three(a, b, n, i, U_), c=c, ui=U_(i), u0=U_(z3.IntVal(0)))]
ONEPOLE = Lemma('one pole in a row of the resolvent', _onepole, only_prove=True, local=[CCDEF], here=_insts(), only_local=True)
def _linear():
    q = z3.Reals('um ui up vm vi vp wm wi wp bi ai bn s q')
    um, ui, up, vm, vi, vp, wm, wi, wp, bi, ai, bn, s, q_ = q
    g, h = z3.Bools('g h')
    th = lambda x, y, w: z3.If(g, fm(bi, x), z3.RealVal(0)) + fm(ai, y) + z3.If(h, fm(bn, w), z3.RealVal(0))
    L = lambda x, y, w: fm(s, th(x, y, w)) + fm(q_, y)
    return q + [g, h], imp(all_(wm == um + vm, wi == ui + vi, wp == up + vp), L(wm, wi, wp) == L(um, ui, up) + L(vm, vi, vp)), None
LINEAR = Lemma('a row is linear', _linear, only_prove=True, local=[FMDEF], only_local=True)
def _step():
    u, ev, a, b, n, i, k, z, o, s = QV
    return QV, imp(k >= 0, comp(i, k + 1) == comp(i) + pole(i)), None
STEP = Lemma('component with one more pole', _step, only_prove=True, local=XS.axioms(), only_local=True)
def _addpole():
    u, ev, a, b, n, i, k, z, o, s = QV
    return QV, imp(k >= 0, lhs(lambda j: comp(j, k + 1)) == lhs(comp) + lhs(pole)), [[CC(u, ev, n, z, o, s, k), a[i], b[i]]]
def _linst():
    u, ev, a, b, n, i, k, z, o, s = QV
    return [LINEAR.inst(None, None, um=comp(i - 1), ui=comp(i), up=comp(i + 1), vm=pole(i - 1), vi=pole(i), vp=pole(i + 1), wm=comp(i - 1, k + 1), wi=comp(i, k + 1), wp=comp(i + 1, k + 1),
        bi=b[i], ai=a[i], bn=b[i + 1], s=s, q=z - fm(s, o), g=i > 0, h=i + 1 < n)] + [STEP.inst(None, None, ri=j) for j in (i - 1, i, i + 1)]
ADDPOLE = Lemma('one more pole', _addpole, only_prove=True, here=_linst(), only_local=True)
def _solves():
    u, ev, a, b, n, i, k, z, o, s = QV
    l = z3.Int('rl')
    H = forall(l, imp(all_(0 <= l, l < k), eigrow(l)), [ev[l]])
    return QV, imp(all_(0 <= i, i < n, k >= 0, H), lhs(comp) == ORTH(u, n, i, z3.IntVal(0), k)), [z3.MultiPattern(comp(i), a[i], b[i])], k, z3.IntVal(0)
SOLVES = Lemma('sum of the rows of the resolvent', _solves, only_prove=True, here=[ONEPOLE.inst(None, None), ADDPOLE.inst(None, None)], local=[z3.ForAll([z3.Real('qx')], fm(z3.Real('qx'), z3.RealVal(0)) == 0, patterns=[fm(z3.Real('qx'), z3.RealVal(0))])])

# ---- the whole: built from a tridiagonal matrix and evaluated
def _assoc():
    q = z3.Reals('x y d')
    x, y, d = q
    return q, imp(d != 0, fdiv(fm(x, y), d) == fm(x, fdiv(y, d))), None
ASSOC = Lemma('division of a product', _assoc, only_prove=True, local=[FMDEF, DIVDEF], only_local=True)
def nopole(n, z, o, s): return forall(l_, imp(all_(0 <= l_, l_ < n), z - fm(s, o - GE[l_]) != 0), [GE[l_]])
def eigtri(t, n):
    """GE, GU: eigenvalues and orthonormal eigenvectors of the tridiagonal matrix t"""
    a, b = t.a_.arr, t.b_.arr
    return [('orthonormal rows', forall([i_, j_], imp(all_(0 <= i_, i_ < n, 0 <= j_, j_ < n), ORTH(GU, n, i_, j_, n) == z3.If(i_ == j_, z3.RealVal(1), z3.RealVal(0))), [ORTH(GU, n, i_, j_, n)])),
            ('eigenvectors', forall([i_, l_], imp(all_(0 <= i_, i_ < n, 0 <= l_, l_ < n), three(a, b, n, i_, lambda j: AT(GU, n, j, l_)) == fm(GE[l_], AT(GU, n, i_, l_))), [AT(GU, n, i_, l_)]))]
def setpost(c):
    t = c.old('t')
    return fset(c, t, c['Eg'], c['w'], c['isign']) + [(n, imp(z3.Not(nil(c['f'])), x)) for n, x in eigtri(t, t.a_.len)]
con('f_set', 'cf_value', title='setting a fraction: poles and intensities', pre=tp, specs=DIAGSPEC, axioms=[ORTH, ROWU], lemmas=[ROWTRI], hints=TH, post=setpost)
class SetCall(Call):
    locs = ('f',)
    def __init__(self, eng, st, obj, vs):
        rd = lambda x: eng.read(st, x) if isinstance(x, Loc) else x
        self.d = {'f': rd(obj), 't': rd(vs[0]), 'Eg': rd(vs[1]), 'w': rd(vs[2]), 'isign': rd(vs[3])}
        self.n = dict(self.d)
def spec_set(eng, e, st, obj, vs):
    """contract of ContinuedFraction::set, proved separately (f_set)"""
    c = SetCall(eng, st, obj, vs)
    for x in tp(c):
        eng.oblige(st, x, 'set: precondition', 'callee precondition', e.get('loc', ''))
    facts = []
    c.n['f'] = eng.fresh(c.d['f'].cls, 'f', facts)
    st.assume(*facts)
    st.assume(*[f for n, f in setpost(c)])
    eng.write(st, obj, c.n['f'])
    return [(st, None)]
def spec_value(eng, e, st, obj, vs):
    """contract of ContinuedFraction::iOfOmega, proved separately (f_value)"""
    f, z, o, s = [eng.read(st, x) if isinstance(x, Loc) else x for x in [obj] + list(vs)]
    for x in fw(f):
        eng.oblige(st, x, 'iOfOmega: precondition', 'callee precondition', e.get('loc', ''))
    return [(st, val(f, z, o, s))]
def _poles():
    J, E, n, k, z, o, s = z3.Const('pI', AR), z3.Const('pE', AR), *z3.Ints('pn pk'), *z3.Reals('pz po ps')
    H = all_(*[forall(l_, imp(all_(0 <= l_, l_ < n), x), [pt]) for x, pt in ((J[l_] == fm(AT(GU, n, 0, l_), AT(GU, n, 0, l_)), J[l_]), (E[l_] == GE[l_], E[l_]))])
    return [J, E, n, k, z, o, s], imp(all_(0 <= k, k <= n, H, nopole(n, z, o, s)), PO(J, E, z, o, s, k) == XS(GU, GE, n, z3.IntVal(0), z, o, s, k)), [[PO(J, E, z, o, s, k), XS(GU, GE, n, z3.IntVal(0), z, o, s, k)]], k, z3.IntVal(0)
def _passoc():
    J, E, n, k, z, o, s = z3.Const('pI', AR), z3.Const('pE', AR), *z3.Ints('pn pk'), *z3.Reals('pz po ps')
    return ASSOC.inst(None, None, x=AT(GU, n, 0, k), y=AT(GU, n, 0, k), d=z - fm(s, o - GE[k]))
POLES = Lemma('sum over the poles as a component', _poles, here=[_passoc()])
TRI = z3.Function('tridiagonal', AR, AR, B)     # mentions the two diagonals of a matrix (any predicate)
def _resolv():
    u, ev, a, b, n, i, k, z, o, s = QV
    l, j = z3.Ints('rl rj')
    X = lambda x: XS(u, ev, n, x, z, o, s, n)
    H = all_(forall([j, l], imp(all_(0 <= j, j < n, 0 <= l, l < n), three(a, b, n, j, lambda x: AT(u, n, x, l)) == fm(ev[l], AT(u, n, j, l))), [AT(u, n, j, l)]),
             forall(l, imp(all_(0 <= l, l < n), z - fm(s, o - ev[l]) != 0), [ev[l]]),
             forall([j, l], imp(all_(0 <= j, j < n, 0 <= l, l < n), ORTH(u, n, j, l, n) == z3.If(j == l, z3.RealVal(1), z3.RealVal(0))), [ORTH(u, n, j, l, n)]))
    return [u, ev, a, b, n, i, z, o, s], imp(all_(TRI(a, b), 0 <= i, i < n, H), fm(s, three(a, b, n, i, X)) + fm(z - fm(s, o), X(i)) == z3.If(i == 0, z3.RealVal(1), z3.RealVal(0))), [[TRI(a, b), X(i)]]
def _rsolves():
    return SOLVES.inst(None, None, rk=QV[4])
RESOLV = Lemma('the components solve the resolvent equation', _resolv, here=[_rsolves()])
fullpars = lambda c: (c.old('t').a_.len, c['z'], c['Eg'], z3.ToReal(c['isign']))
def fullpost(c):
    n, z, o, s = fullpars(c)
    t = c.old('t')
    a, b = t.a_.arr, t.b_.arr
    X = lambda j: XS(GU, GE, n, j, z, o, s, n)
    row = lambda i: fm(s, three(a, b, n, i, X)) + fm(z - fm(s, o), X(i))
    i = z3.Int('i')
    wnil = all_(creal(c['w']) == 0, cimag(c['w']) == 0)
    return [('value is the first component of x', imp(nopole(n, z, o, s), c.result == z3.If(wnil, z3.RealVal(0), fm(X(z3.IntVal(0)), c['w'])))),
            ('x solves (z - s(E - H)) x = e0', imp(all_(z3.Not(wnil), nopole(n, z, o, s)), forall(i, imp(all_(TRI(a, b), 0 <= i, i < n), row(i) == z3.If(i == 0, z3.RealVal(1), z3.RealVal(0))), [X(i)])))]
def spec_rank(eng, e, st, obj, vs):
    """MPI rank (progress messages only): any"""
    return [(st, z3.Int(fresh_name('rank')))]
def full(e): return fullpars(e.ctx)
con('f_full', 'cf_value', title='a fraction of a tridiagonal matrix is the first entry of its resolvent', pre=tp, axioms=[ORTH, ROWU, XS, PO, CCDEF], post=fullpost,
    specs={'PsimagLite::MPI::commRank': spec_rank, CF_ + '::set': spec_set, CF_ + '::iOfOmega': spec_value}, lemmas=[FACTOR, CANCEL, LINEAR, STEP, ONEPOLE, ADDPOLE, SOLVES, ASSOC, POLES, RESOLV])
