from contracts.lib import *
P, TU = 'P13', 'num.cpp'
fm, fd = z3.Function('fmul', R, R, R), z3.Function('fdiv', R, R, R)
NRA = lambda f, **k: dict(real_mul='nra', hfuncs=[f], **k)
_x, _m = z3.Real('nx'), z3.Int('nm')

# ---------------------------------------------------------------- Chebyshev polynomials
CH = SumFn('chebyshev', [R], base=z3.RealVal(1), step=lambda x, k, r: z3.If(k == 0, x, 2 * x * r - CH.F0(x, k - 1)))
def _double():
    a, b, c, d = CH(_x, _m), CH(_x, _m + 1), CH(_x, 2 * _m), CH(_x, 2 * _m + 1)
    return [_x, _m], imp(_m >= 0, all_(c == 2 * a * a - 1, d == 2 * a * b - _x, a * a + b * b - 2 * _x * a * b == 1 - _x * _x)), [[mk(_m), CH(_x, _m)]], _m, z3.IntVal(0)
_r = z3.Reals('na nb nc nd ne nf ng')
def _dstep():
    a, b, c, d, e, f, g = _r
    return [_x] + _r, imp(all_(a * a + b * b - 2 * _x * a * b == 1 - _x * _x, c == 2 * a * a - 1, d == 2 * a * b - _x, e == 2 * _x * b - a, f == 2 * _x * d - c, g == 2 * _x * f - d),
        all_(f == 2 * b * b - 1, g == 2 * b * e - _x, b * b + e * e - 2 * _x * b * e == 1 - _x * _x)), None
L_DSTEP = Lemma('doubling, the algebra', _dstep, only_prove=True, only_local=True)
L_UNF = Lemma('the recursion', lambda: ([_x, _m], imp(_m >= 0, CH(_x, _m + 2) == 2 * _x * CH(_x, _m + 1) - CH(_x, _m)), None), only_prove=True, only_local=True, local=CH.axioms())
L_LOW = Lemma('degrees 0 and 1', lambda: ([_x], all_(CH(_x, z3.IntVal(0)) == 1, CH(_x, z3.IntVal(1)) == _x), [CH(_x, z3.IntVal(1))]), local=CH.axioms(), only_local=True)
L_DOUBLE = Lemma('degree doubling', _double, only_local=True,
    here=[L_LOW.inst(None, None), L_UNF.inst(None, None), L_UNF.inst(None, None, nm=2 * _m), L_UNF.inst(None, None, nm=2 * _m + 1),
          L_DSTEP.inst(None, None, na=CH(_x, _m), nb=CH(_x, _m + 1), nc=CH(_x, 2 * _m), nd=CH(_x, 2 * _m + 1), ne=CH(_x, _m + 2), nf=CH(_x, 2 * _m + 2), ng=CH(_x, 2 * _m + 3))])
POLY = [lambda x: z3.RealVal(1), lambda x: x, lambda x: 2 * x * x - 1, lambda x: 4 * x * x * x - 3 * x, lambda x: 8 * x * x * x * x - 8 * x * x + 1, lambda x: 16 * x * x * x * x * x - 20 * x * x * x + 5 * x,
        lambda x: 32 * x * x * x * x * x * x - 48 * x * x * x * x + 18 * x * x - 1, lambda x: 64 * x * x * x * x * x * x * x - 112 * x * x * x * x * x + 56 * x * x * x - 7 * x]
L_POLY = []
for _d in range(8):
    L_POLY.append(Lemma('degree %d' % _d, lambda _d=_d: ([_x], CH(_x, z3.IntVal(_d)) == POLY[_d](_x), [CH(_x, z3.IntVal(_d))]), local=CH.axioms(), only_local=True, here=[l.inst(None, None) for l in L_POLY[-2:]]))
def spec_cheb(eng, e, st, obj, vs):
    """the recursive call, through the contract itself"""
    m, x = [eng.read(st, v) if isinstance(v, Loc) else v for v in vs]
    m0 = eng.ctx.old('m')
    eng.oblige(st, all_(m >= 0, m < m0), 'recursive call for a smaller order', 'callee precondition', e.get('loc', ''))
    r = z3.Real(fresh_name('T'))
    st.assume(r == CH(x, m), mk(m))
    return [(st, r)]
spec_cheb.recursive = True
from vc.engine import fresh_name
for root, cls, lem in (('n_cheb', 'ChebyshevFunction', []), ('n_chebExplicit', 'ChebyshevFunctionExplicit', L_POLY)):
    contract(P, 'vroot::' + root, tu=TU, title=cls + ': the polynomial of the three-term recursion', opts=NRA('n_cheb'), pre=lambda c: [c['m'] >= 0],
        post=lambda c: [('value', c.result == CH(c['x'], c['m']))], lemmas=[L_DSTEP, L_UNF, L_LOW, L_DOUBLE] + lem, axioms=[MK_AX],
        specs={'PsimagLite::%s<double>::operator()' % cls: spec_cheb})

# ---------------------------------------------------------------- bisection
FN = z3.Function('function_value', R, R)
BR = z3.Function('bracket', R, R, B)
_lo, _hi = z3.Reals('br_lo br_hi')
BR_AX = z3.ForAll([_lo, _hi], BR(_lo, _hi), patterns=[BR(_lo, _hi)])
HALF = SumFn('halved', [R], base=lambda w: w, step=lambda w, k, r: r / 2)
def spec_fn(eng, e, st, obj, vs):
    """any function: the value depends on the argument only"""
    x = eng.read(st, vs[0]) if isinstance(vs[0], Loc) else vs[0]
    return [(st, FN(x))]
def pos(x): return FN(x) >= 0
def brackets(a, b, c, n):
    return all_(a <= c['b'], c['a'] <= a, a < b, b <= c['b'], pos(a) != pos(b))
def ex(c, f):
    return z3.Exists([_lo, _hi], all_(BR(_lo, _hi), brackets(_lo, _hi, c, None), f), patterns=[BR(_lo, _hi)])
contract(P, 'vroot::n_root', tu=TU, title='bisection: a point where the function is small, inside a bracket with a change of sign', opts=NRA('n_root'),
    pre=lambda c: [c['a'] < c['b'], c['tol'] > 0], specs={'vroot::Fn::operator()': spec_fn}, axioms=[BR_AX, HALF],
    post=lambda c: [('the function is below the tolerance', z3.And(FN(c.result) < c['tol'], -FN(c.result) < c['tol'])), ('only for a change of sign', FN(c['a']) * FN(c['b']) < 0),
                    ('middle of a bracket', ex(c, c.result * 2 == _lo + _hi))],
    throws=lambda c: z3.Or(FN(c['a']) * FN(c['b']) >= 0, ex(c, _hi - _lo == HALF(c['b'] - c['a'], c['maxIter']))),
    hints=[Hint('bracket', lambda e: all_(BR(e['a'], e['b']), brackets(e['a'], e['b'], e.ctx, e['n'])), vars=('a', 'b', 'n')),
           Hint('halved', lambda e: all_(e['n'] <= e.ctx['maxIter'], e['b'] - e['a'] == HALF(e.ctx['b'] - e.ctx['a'], e['n'])), vars=('a', 'b', 'n')),
           Hint('value at the left end', lambda e: e['functionAtA'] == FN(e['a']), vars=('a', 'functionAtA'))])

# ---------------------------------------------------------------- Akima spline
D, W, SP = z3.Function('akima_slope', AR, AR, I, I, R), z3.Function('akima_weight', AR, AR, I, I, R), z3.Function('akima_derivative', AR, AR, I, I, R)
_X, _S, _n, _i = z3.Const('ax', AR), z3.Const('as', AR), z3.Int('an'), z3.Int('ai')
def ds(i): return fd(_S[i - 1] - _S[i - 2], _X[i - 1] - _X[i - 2])
def dval():
    d1, dn = 2 * ds(z3.IntVal(2)) - ds(z3.IntVal(3)), 2 * ds(_n) - ds(_n - 1)
    return z3.If(_i == 0, 2 * d1 - ds(z3.IntVal(2)), z3.If(_i == 1, d1, z3.If(_i <= _n, ds(_i), z3.If(_i == _n + 1, dn, 2 * dn - ds(_n)))))
def absr(x): return z3.If(x >= 0, x, -x)
def spval():
    w = lambda i: W(_X, _S, _n, i)
    d = lambda i: D(_X, _S, _n, i)
    den = w(_i) + w(_i + 2)
    return z3.If(den == 0, (d(_i + 1) + d(_i + 2)) / 2, fd(fm(w(_i + 2), d(_i + 1)) + fm(w(_i), d(_i + 2)), den))
AK = (_X, _S, _n, _i)
AK_AX = [z3.ForAll(AK, D(*AK) == dval(), patterns=[D(*AK)]), z3.ForAll(AK, W(*AK) == absr(D(_X, _S, _n, _i + 1) - D(*AK)), patterns=[W(*AK)]), z3.ForAll(AK, SP(*AK) == spval(), patterns=[SP(*AK)])]
FMD = z3.ForAll(z3.Reals('fx fy'), fm(*z3.Reals('fx fy')) == z3.Real('fx') * z3.Real('fy'), patterns=[fm(*z3.Reals('fx fy'))])
FDD = z3.ForAll(z3.Reals('fx fy'), imp(z3.Real('fy') != 0, fd(*z3.Reals('fx fy')) * z3.Real('fy') == z3.Real('fx')), patterns=[fd(*z3.Reals('fx fy'))])
def cub(a0, a1, a2, a3, u): return a0 + fm(a1, u) + fm(fm(a2, u), u) + fm(fm(fm(a3, u), u), u)
_s0, _s1, _p0, _p1, _u = z3.Reals('c_s0 c_s1 c_p0 c_p1 c_u')
def coef(s0, s1, p0, p1, u):
    return s0, p0, fd(3 * (s1 - s0) - fm(2 * p0 + p1, u), fm(u, u)), fd(fm(p0 + p1, u) - 2 * (s1 - s0), fm(fm(u, u), u))
def _ends():
    c = coef(_s0, _s1, _p0, _p1, _u)
    return [_s0, _s1, _p0, _p1, _u], imp(_u > 0, all_(cub(*c, _u) == _s1, c[1] + 2 * fm(c[2], _u) + 3 * fm(fm(c[3], _u), _u) == _p1)), None
L_ENDS = Lemma('a piece meets the next data point with the next slope', _ends, only_prove=True, only_local=True, local=[FMD, FDD])
def data(c):
    x, s = c.old('x'), c.old('s')
    return x.arr, s.arr, x.len
def piece(c, a, k):
    x, s, n = data(c)
    co = coef(s[k], s[k + 1], SP(x, s, n, k), SP(x, s, n, k + 1), x[k + 1] - x[k])
    return [('ends of the piece', all_(a.x0 == x[k], a.x1 == x[k + 1])), ('value', a.a0 == co[0]), ('slope', a.a1 == co[1]), ('second order', a.a2 == co[2]), ('third order', a.a3 == co[3])]
def pieces(c, v, upto):
    return [(n, forall(k_, imp(all_(0 <= k_, k_ < upto), f), [v.arr[k_]])) for n, f in [(n, f) for n, f in piece(c, v[k_], k_)]]
def inc(v): return forall([i_, j_], imp(all_(0 <= i_, i_ < j_, j_ < v.len), v.arr[i_] < v.arr[j_]), [[v.arr[i_], v.arr[j_]]])
def upto(v, n, f, lo=0): return forall(k_, imp(all_(lo <= k_, k_ < n), v.arr[k_] == f(k_)), [f(k_)] + ([v.arr[k_]] if v.arr.decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
def apost(c):
    v, (x, s, n) = c.result.akimaStruct_, data(c)
    a, m = v[k_], n - 1
    u = a.x1 - a.x0
    here = lambda f, g=True: forall(k_, imp(all_(0 <= k_, k_ < m, g), f), [v.arr[k_]])
    return [('one piece per interval', v.len == m)] + pieces(c, v, m) + [
        ('meets the data at the left end', here(cub(a.a0, a.a1, a.a2, a.a3, z3.RealVal(0)) == s[k_])), ('meets the data at the right end', here(cub(a.a0, a.a1, a.a2, a.a3, u) == s[k_ + 1])),
        ('the next piece starts with the same slope', here(a.a1 + 2 * fm(a.a2, u) + 3 * fm(fm(a.a3, u), u) == SP(x, s, n, k_ + 1))),
        ('interval', all_(c.result.interval_.first == x[0], c.result.interval_.second == x[n - 1]))]
aprem = lambda c: [inc(c['x']), c['x'].len < (1 << 60)]
A_ = lambda e: data(e.ctx)
ZERO = z3.ForAll([_u], fm(_u, z3.RealVal(0)) == 0, patterns=[fm(_u, z3.RealVal(0))])
L_ZERO = Lemma('times zero', lambda: ([_u], fm(_u, z3.RealVal(0)) == 0, None), only_prove=True, only_local=True, local=[FMD])
def joint(k):
    X, S, n = _X, _S, _n
    return L_ENDS.inst(list(AK), [SP(_X, _S, _n, _i)], c_s0=_S[_i], c_s1=_S[_i + 1], c_p0=SP(_X, _S, _n, _i), c_p1=SP(_X, _S, _n, _i + 1), c_u=_X[_i + 1] - _X[_i])
contract(P, 'vroot::n_akima', tu=TU, title='Akima spline: one cubic per interval, through the data with continuous slope', opts=dict(hfuncs=['n_akima']), pre=aprem, post=apost,
    throws=lambda c: z3.Or(c['x'].len != c['s'].len, c['x'].len < 3), axioms=AK_AX + [ZERO, joint(0)], lemmas=[L_ENDS, L_ZERO],
    hints=[Hint('slopes', lambda e: upto(e['d'], e['i'], lambda k: D(*A_(e), k), 2), vars=('d', 'i')),
           Hint('all slopes', lambda e: upto(e['d'], A_(e)[2] + 3, lambda k: D(*A_(e), k)), vars=('d', 'w')), Hint('all weights', lambda e: upto(e['w'], A_(e)[2] + 2, lambda k: W(*A_(e), k)), vars=('w', 'sprime')),
           Hint('all derivatives', lambda e: upto(e['sprime'], A_(e)[2], lambda k: SP(*A_(e), k)), vars=('sprime',)),
           Hint('slope count', lambda e: e['d'].len == A_(e)[2] + 3, vars=('d',)),
           Hint('weights', lambda e: upto(e['w'], e['i'], lambda k: W(*A_(e), k)), vars=('w', 'i')), Hint('weight count', lambda e: e['w'].len == A_(e)[2] + 2, vars=('w',)),
           Hint('derivatives', lambda e: upto(e['sprime'], e['i'], lambda k: SP(*A_(e), k)), vars=('sprime', 'i')), Hint('derivative count', lambda e: e['sprime'].len == A_(e)[2], vars=('sprime',)),
           Hint('piece count', lambda e: e['this'].akimaStruct_.len == e['i'], vars=('i',))] +
          [Hint('pieces, ' + n, lambda e, q=q: pieces(e.ctx, e['this'].akimaStruct_, e['i'])[q][1], vars=('i',)) for q, n in enumerate(('ends', 'value', 'slope', 'second', 'third'))])
def chain(a):
    v = a.akimaStruct_
    return [v.len > 0, forall(k_, imp(all_(0 <= k_, k_ < v.len), all_(v[k_].x0 < v[k_].x1)), [v.arr[k_]]),
            forall([i_, j_], imp(all_(0 <= i_, i_ < j_, j_ < v.len), v[i_].x1 <= v[j_].x0), [[v.arr[i_], v.arr[j_]]]), forall(k_, imp(all_(1 <= k_, k_ < v.len), v[k_ - 1].x1 == v[k_].x0), [v.arr[k_]]), a.interval_.first == v[0].x0, a.interval_.second == v[v.len - 1].x1]
def ipost(c):
    v, x = c['a'].akimaStruct_, c['x']
    p = v[k_]
    return [('the cubic of the piece', forall(k_, imp(all_(0 <= k_, k_ < v.len, z3.Or(k_ == 0, p.x0 < x), x <= p.x1, p.x0 <= x), c.result == cub(p.a0, p.a1, p.a2, p.a3, x - p.x0)), [v.arr[k_]]))]
contract(P, 'vroot::n_interpolate', tu=TU, title='Akima spline: value', opts=dict(hfuncs=['n_akima']), pre=lambda c: chain(c['a']), post=ipost,
    throws=lambda c: z3.Or(c['x'] < c['a'].interval_.first, c['x'] > c['a'].interval_.second),
    hints=[Hint('beyond the earlier pieces', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), e['x'] > e['this'].akimaStruct_[k_].x1), [e['this'].akimaStruct_.arr[k_]]), vars=('i',)),
           Hint('beyond the last piece', lambda e: imp(e['i'] > 0, e['x'] > e['this'].akimaStruct_[e['i'] - 1].x1), vars=('i',))])
contract(P, 'vroot::n_interval', tu=TU, title='Akima spline: interval', opts=dict(hfuncs=['n_akima']), post=lambda c: [('interval', all_(c.result.first == c['a'].interval_.first, c.result.second == c['a'].interval_.second))])

# ---------------------------------------------------------------- Runge-Kutta
# right-hand side: component j of f(t, y) is RF(j, t, y_j)
RF = z3.Function('rhs', I, R, R, R)
def spec_rhs(eng, e, st, obj, vs):
    t, y = [eng.read(st, v) if isinstance(v, Loc) else v for v in vs]
    facts = []
    r = eng.fresh(vec_t(DBL), 'rhs', facts)
    st.assume(*facts)
    st.assume(r.len == y.len, forall(k_, imp(all_(0 <= k_, k_ < y.len), r.arr[k_] == RF(k_, t, y.arr[k_])), [r.arr[k_]]))
    return [(st, r)]
TM = SumFn('time', [R, R], base=lambda t0, h: t0, step=lambda t0, h, k, r: r + h)
def kk(j, t, y, h):
    """the four increments"""
    k1 = fm(h, RF(j, t, y))
    k2 = fm(h, RF(j, t + h / 2, y + k1 / 2))
    k3 = fm(h, RF(j, t + h / 2, y + k2 / 2))
    return k1, k2, k3, fm(h, RF(j, t + h, y + k3))
def one(j, t, y, h):
    k1, k2, k3, k4 = kk(j, t, y, h)
    return y + (k1 + 2 * k2 + 2 * k3 + k4) / 6
Y = SumFn('solution', [R, I, R, R], base=lambda y0, j, t0, h: y0, step=lambda y0, j, t0, h, k, r: one(j, TM(t0, h, k), r, h))
def ysol(c, j, i): return Y(c.old('y0').arr[j], j, c.old('t0'), c.old('h'), i)
_cx, _cy = z3.Reals('cx cy')
COMM = z3.ForAll([_cx, _cy], fm(_cx, _cy) == fm(_cy, _cx), patterns=[fm(_cx, _cy)])
class _Bad(Exception):
    pass
def elem(e, c, k):
    """component k of a vector expression"""
    def rd(v):
        while isinstance(v, (Loc, Ptr)):
            v = e.eng.read(e.st, v if isinstance(v, Loc) else v.loc)
        return v
    def num(x):
        return z3.is_rational_value(z3.simplify(x))
    def go(v):
        v = rd(v)
        if isinstance(v, Vec):
            return v.arr[k], v.len
        if isinstance(v, z3.ExprRef):
            return v, None
        (a, la), (b, lb) = go(v.r1), go(v.r2)
        if la is None or lb is None:
            return (a * b if num(a) or num(b) else fm(a, b)), (lb if la is None else la)
        return a + b, la
    r = go(c)
    if r[1] is None or isinstance(rd(c), Vec):
        raise KeyError('not a vector expression')
    return r
def rk_done(e):
    x, n = elem(e, e['c'], k_)
    return forall(k_, imp(all_(0 <= k_, k_ < e['i']), e['v'].arr[k_] == x))
def rk_rest(e):
    x, n = elem(e, e['c'].r2, k_)
    return forall(k_, imp(all_(e['i'] <= k_, k_ < e['v'].len), e['v'].arr[k_] == x))
def rk_len(e):
    e['c']
    return e['v'].len == e.ctx.old('y0').len
def pe_done(e):
    x, n = elem(e, e['w'], k_)
    return forall(k_, imp(all_(0 <= k_, k_ < e['i']), e['v'].arr[k_] == e.init('v').arr[k_] + x))
def pe_rest(e):
    elem(e, e['w'], k_)
    return forall(k_, imp(all_(e['i'] <= k_, k_ < e['v'].len), e['v'].arr[k_] == e.init('v').arr[k_]))
def rk_steps(c, res, n):
    r0, m = c.old('result').len, c.old('y0').len
    rows = lambda f, g=True: forall([i_], imp(all_(r0 <= i_, i_ < r0 + n), f), [res.arr[i_]])
    return [('one more entry per step', res.len == r0 + n), ('as many components as the start', rows(res[i_].len == m)),
            ('every component follows the fourth-order rule', forall([i_, j_], imp(all_(r0 <= i_, i_ < r0 + n, 0 <= j_, j_ < m), res[i_].arr[j_] == ysol(c, j_, i_ - r0)))),
            ('earlier entries stay', forall([i_], imp(all_(0 <= i_, i_ < r0), res.arr[i_] == c.old('result').arr[i_]), [res.arr[i_]]))]
RK_H = [Hint('closure: done', rk_done, vars=('v', 'c', 'i')), Hint('closure: rest', rk_rest, vars=('v', 'c', 'i')), Hint('closure: length', rk_len, vars=('v', 'c')),
        Hint('increment: done', pe_done, vars=('v', 'w', 'i')), Hint('increment: rest', pe_rest, vars=('v', 'w', 'i')),
        Hint('time', lambda e: e['ti'] == TM(e.ctx.old('t0'), e.ctx.old('h'), e['i']), vars=('ti', 'i'), mod=('ti',)),
        Hint('solution', lambda e: forall(j_, imp(all_(0 <= j_, j_ < e['yi'].len), e['yi'].arr[j_] == ysol(e.ctx, j_, e['i'])), [e['yi'].arr[j_]]), vars=('yi', 'i'), mod=('ti',)),
        Hint('size', lambda e: e['yi'].len == e.ctx.old('y0').len, vars=('yi',)),
        Hint('this entry', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['j']), e['myresult'].arr[k_] == e['yi'].arr[k_])), vars=('myresult', 'j')),
        Hint('entry size', lambda e: e['myresult'].len == e['yi'].len, vars=('myresult',))] + \
       [Hint('steps, %d' % q, lambda e, q=q: rk_steps(e.ctx, e.root('result'), e['i'])[q][1], vars=('i', 'ti'), mod=('ti',)) for q in range(4)]
contract(P, 'vroot::n_rk', tu=TU, title='Runge-Kutta: fourth-order steps of the given size', opts=dict(hfuncs=['n_rk']), specs={'vroot::Rhs::operator()': spec_rhs},
    post=lambda c: rk_steps(c, c['result'], c['N']), axioms=[TM, Y, COMM], hints=RK_H, pre=lambda c: [c['y0'].len < (1 << 60), c['N'] < (1 << 60), c['result'].len < (1 << 60)])

def spec_solve(eng, e, st, obj, vs):
    """solve, proved as n_rk"""
    t0, n, y0 = [eng.read(st, v) if isinstance(v, Loc) else v for v in vs[1:]]
    o, c = eng.read(st, vs[0]), eng.ctx
    loc = e.get('loc', '')
    eng.oblige(st, all_(t0 == c.old('t0'), y0.arr == c.old('y0').arr, y0.len == c.old('y0').len, o.arr == c.old('result').arr, o.len == c.old('result').len), 'steps start at the given time and values', 'callee precondition', loc)
    facts = []
    r = eng.fresh(vec_t(vec_t(DBL)), 'steps', facts)
    st.assume(*facts)
    st.assume(*[f for _, f in rk_steps(c, r, n)])
    eng.write(st, vs[0], r)
    return [(st, None)]
def nst(c): return z3.ToInt(fd(c.old('t') - c.old('t0'), c.old('h')))
contract(P, 'vroot::n_rkEx', tu=TU, title='Runge-Kutta until a given time: as many steps as fit', opts=dict(hfuncs=['n_rk']), specs={'PsimagLite::RungeKutta<double, vroot::Rhs, std::vector<double>>::solve': spec_solve},
    post=lambda c: rk_steps(c, c['result'], nst(c)), axioms=[TM, Y], pre=lambda c: [c['y0'].len < (1 << 60), nst(c) >= 0, nst(c) < (1 << 60), c['result'].len < (1 << 60)])

# ---------------------------------------------------------------- linear prediction
from contracts.matrix import AX, AT, at, dims, entries, wf, small
PRD = SumFn('predicted', [AR, AR, I], term=lambda y, d, i, j: fm(d[j], y[i - j - 1]))
_y, _d, _a, _b, _v = z3.Const('lp_y', AR), z3.Const('lp_d', AR), z3.Int('lp_a'), z3.Int('lp_b'), z3.Real('lp_v')
def _app():
    t = PRD(z3.Store(_y, _b, _v), _d, _a, _i)
    return [_y, _d, _a, _b, _v, _i], imp(_a <= _b, t == PRD(_y, _d, _a, _i)), [t], _i, z3.IntVal(0)
L_APP = Lemma('a value appended later is not used', _app)
def predicted(c, y, n):
    o, d = c.old('l').y_, c.old('l').d_
    return [('length', y.len == n), ('known values stay', forall(k_, imp(all_(0 <= k_, k_ < o.len), y.arr[k_] == o.arr[k_]), [y.arr[k_]])),
            ('each new value is the linear combination of the latest ones', forall(k_, imp(all_(o.len <= k_, k_ < n), y.arr[k_] == PRD(y.arr, d.arr, k_, d.len)), [y.arr[k_]]))]
contract(P, 'vroot::n_predict', tu=TU, title='linear prediction', opts=dict(hfuncs=['n_lp']), pre=lambda c: [c['l'].d_.len <= c['l'].y_.len, c['l'].y_.len < (1 << 60), c['p'] < (1 << 60)],
    post=lambda c: predicted(c, c['l'].y_, c.old('l').y_.len + c['p']) + [('coefficients stay', c['l'].d_.arr == c.old('l').d_.arr)], axioms=[PRD, COMM], lemmas=[L_APP],
    hints=[Hint('so far, %d' % q, lambda e, q=q: predicted(e.ctx, e['this'].y_, e['i'])[q][1], vars=('i',)) for q in range(3)] +
          [Hint('partial sum', lambda e: e['sum'] == PRD(e['this'].y_.arr, e['this'].d_.arr, e['i'], e['j']), vars=('sum', 'i', 'j'))])
contract(P, 'vroot::n_lpAt', tu=TU, title='linear prediction: value', opts=dict(hfuncs=['n_lp']), pre=lambda c: [c['i'] < c['l'].y_.len], post=lambda c: [('value', c.result == c['l'].y_.arr[c['i']])])
# normal equations: sums over the second half of the data
NA = SumFn('normal_matrix', [AR, I, I, I], term=lambda y, n, l, j, i: fm(y[i - l - 1], y[i - j - 1]), lof=lambda y, n, l, j: n)
NB = SumFn('normal_vector', [AR, I, I], term=lambda y, n, l, i: fm(y[i - l - 1], y[i]), lof=lambda y, n, l: n)
ROW = SumFn('row_times_d', [AR, I, AR, I], term=lambda A, p, d, l, j: fm(AT(A, p, l, j), d[j]))
NROW = SumFn('normal_row_times_d', [AR, I, AR, I], term=lambda y, n, d, l, j: fm(NA(y, n, l, j, 2 * n), d[j]))
_A, _p, _l, _k = z3.Const('lp_A', AR), z3.Int('lp_p'), z3.Int('lp_l'), z3.Int('lp_k')
def _rows():
    t = ROW(_A, _p, _d, _l, _k)
    return [_A, _p, _d, _l, _k, _y, _n], imp(all_(_k <= _p, 0 <= _l, _l < _p, forall([i_, j_], imp(all_(0 <= i_, i_ < _p, 0 <= j_, j_ < _p), AT(_A, _p, i_, j_) == NA(_y, _n, i_, j_, 2 * _n)), [AT(_A, _p, i_, j_)])),
        t == NROW(_y, _n, _d, _l, _k)), [[t, NROW(_y, _n, _d, _l, _k)]], _k, z3.IntVal(0)
L_ROWS = Lemma('rows of the normal matrix', _rows)
def spec_computeD(eng, e, st, obj, vs):
    """assumed (LAPACK: factorise, invert, multiply): the coefficients solve A d = B when A is regular"""
    A, Bv = [eng.read(st, v) for v in vs]
    o = eng.read(st, obj)
    eng.oblige(st, all_(A.nrow_ == Bv.len, A.ncol_ == Bv.len, wf(A)), 'square system', 'callee precondition', e.get('loc', ''))
    facts = []
    n = eng.fresh(o.cls, 'lp', facts)
    st.assume(*facts)
    p = Bv.len
    st.assume(n.y_.arr == o.y_.arr, n.y_.len == o.y_.len, n.p_ == o.p_, n.d_.len == p,
        forall(l_, imp(all_(0 <= l_, l_ < p), ROW(A.data_.arr, p, n.d_.arr, l_, p) == Bv.arr[l_]), [Bv.arr[l_], NROW(eng.ctx.old('l').y_.arr, lp_n(eng.ctx), n.d_.arr, l_, p)]))
    eng.write(st, obj, n)
    return [(st, None)]
def lp_n(c): return c.old('y').len / 2
def fitpost(c):
    l, y, p, n = c['l'], c.old('l').y_.arr, c.old('p'), lp_n(c)
    return [('coefficients', l.d_.len == p), ('data stay', all_(l.y_.arr == y, l.y_.len == c.old('l').y_.len)),
            ('normal equations', forall(l_, imp(all_(0 <= l_, l_ < p), NROW(y, n, l.d_.arr, l_, p) == NB(y, n, l_, 2 * n)), [NB(y, n, l_, 2 * n)]))]
def e_y(e): return e.old('l').y_.arr
def lp_e(e): return e_y(e), lp_n(e.ctx)
def anorm(e, f):
    A = e['A']
    t = AT(A.data_.arr, A.nrow_, i_, j_)
    return forall([i_, j_], imp(f(i_, j_), t == NA(*lp_e(e), i_, j_, 2 * lp_n(e.ctx))), [t])
contract(P, 'vroot::n_lpFit', tu=TU, title='linear prediction: the coefficients solve the normal equations', opts=dict(hfuncs=['n_lp'], imul=True), specs={'PsimagLite::LinearPrediction<double>::computeD': spec_computeD},
    pre=lambda c: [c['y'].len == c['l'].y_.len, c['y'].len < (1 << 60), small(c['p'], c['p'])], throws=lambda c: z3.Or(c.old('y').len % 2 == 1, c.old('p') > c.old('y').len / 2), post=fitpost, axioms=[NA, NB, ROW, NROW] + AX, lemmas=[L_ROWS],
    hints=[Hint('shape', lambda e: all_(dims(e['A'], e.ctx.old('p'), e.ctx.old('p')), wf(e['A'])), vars=('A',)), Hint('length', lambda e: e['B'].len == e.ctx.old('p'), vars=('B',)),
           Hint('rows done', lambda e: anorm(e, lambda i, j: all_(0 <= i, i < e['l'], 0 <= j, j < e.ctx.old('p'))), vars=('A', 'l')),
           Hint('matrix done', lambda e: anorm(e, lambda i, j: all_(0 <= i, i < e.ctx.old('p'), 0 <= j, j < e.ctx.old('p'))), vars=('A', 'B')),
           Hint('this row', lambda e: anorm(e, lambda i, j: all_(i == e['l'], 0 <= j, j < e['j'])), vars=('A', 'l', 'j')),
           Hint('this entry', lambda e: AT(e['A'].data_.arr, e['A'].nrow_, e['l'], e['j']) == NA(*lp_e(e), e['l'], e['j'], e['i']), vars=('A', 'l', 'j', 'i')),
           Hint('vector done', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['l']), e['B'].arr[k_] == NB(*lp_e(e), k_, 2 * lp_n(e.ctx))), [e['B'].arr[k_]]), vars=('B', 'l')),
           Hint('this component', lambda e: e['B'].arr[e['l']] == NB(*lp_e(e), e['l'], e['i']), vars=('B', 'l', 'i'))])
