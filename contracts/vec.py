from contracts.lib import *
P = 'P05'
TU = 'vec.cpp'
N = lambda v: v.len
fm = z3.Function('fmul', R, R, R)
cj = z3.Function('conj', R, R)
fd = z3.Function('fdiv', R, R, R)
_x, _y = z3.Reals('cx cy')
COMM = z3.ForAll([_x, _y], fm(_x, _y) == fm(_y, _x), patterns=[fm(_x, _y)])

def elementwise(root, expr, ln, sizes=(), inplace=False, title='', hf=None):
    """v[i] == expr(c, i) for all i, where expr uses the initial values; the length is ln(c)"""
    def post(c):
        v = c['v']
        return [('length', v.len == ln(c)), ('components', forall(k_, imp(all_(0 <= k_, k_ < ln(c)), v.arr[k_] == expr(c, k_)), [v.arr[k_]]))]
    def done(e):
        v = e.root('v')
        return forall(k_, imp(all_(0 <= k_, k_ < e['i']), v.arr[k_] == expr(e.ctx, k_)), [v.arr[k_]])
    def rest(e):
        v = e.root('v')
        return forall(k_, imp(all_(k_ >= e['i'], k_ < v.len), v.arr[k_] == e.init('v').arr[k_]), [v.arr[k_]])
    for s in ('', '_z'):
        if s and root in ('v_aplus', 'v_aminus') or (s and root.startswith('v_self')):
            continue
        contract(P, 'vroot::' + root + s, tu=TU, title='%s%s' % (title, ' (complex)' if s else ''), opts={'hfuncs': [hf or root.replace('_self', '_')]},
            pre=lambda c: [c[a].len == c[b].len for a, b in sizes], post=post, axioms=[COMM],
            hints=[Hint('components done', done, vars=('i',)), Hint('components still to do', rest, vars=('i',)),
                   Hint('length', lambda e: e.root('v').len == ln(e.ctx), vars=())])
def o(c, n, k):
    return c.old(n).arr[k]
XL = lambda c: c.old('x').len
YL = lambda c: c.old('y').len
VL = lambda c: c.old('v').len
xy = (('x', 'y'),)
elementwise('v_mult', lambda c, k: fm(o(c, 'x', k), c.old('a')), XL, title='v <= a*x')
elementwise('v_multr', lambda c, k: fm(o(c, 'x', k), c.old('a')), XL, title='v <= x*a')
elementwise('v_mult2', lambda c, k: fm(o(c, 'x', k), fm(c.old('a'), c.old('b'))), XL, title='v <= a*(b*x)')
elementwise('v_plus', lambda c, k: o(c, 'x', k) + o(c, 'y', k), XL, xy, title='v <= x+y')
elementwise('v_axpy', lambda c, k: o(c, 'x', k) + fm(c.old('a'), o(c, 'y', k)), XL, xy, title='v <= x+a*y')
elementwise('v_axpyr', lambda c, k: fm(c.old('a'), o(c, 'x', k)) + o(c, 'y', k), XL, xy, title='v <= a*x+y')
elementwise('v_four', lambda c, k: fm(c.old('a'), o(c, 'x', k)) + fm(c.old('b'), o(c, 'y', k)) + fm(c.old('c'), o(c, 'z', k)) + fm(c.old('d'), o(c, 'w', k)), XL,
    (('x', 'y'), ('x', 'z'), ('x', 'w')), title='v <= a*x+b*y+c*z+d*w')
elementwise('v_minus', lambda c, k: o(c, 'x', k) - o(c, 'y', k), XL, xy, title='v <= x-y')
elementwise('v_axmy', lambda c, k: o(c, 'x', k) - fm(c.old('a'), o(c, 'y', k)), XL, xy, title='v <= x-a*y')
elementwise('v_three', lambda c, k: o(c, 'x', k) - fm(c.old('b'), o(c, 'y', k)) + fm(c.old('c'), o(c, 'z', k)), XL, xy + (('x', 'z'),), title='v <= x-b*y+c*z')
elementwise('v_aplus', lambda c, k: fm(c.old('a'), o(c, 'x', k) + o(c, 'y', k)), XL, xy, title='v <= a*(x+y)')
elementwise('v_aminus', lambda c, k: fm(c.old('a'), o(c, 'x', k) - o(c, 'y', k)), XL, xy, title='v <= a*(x-y)')
elementwise('v_pe', lambda c, k: o(c, 'v', k) + o(c, 'x', k), VL, (('v', 'x'),), title='v += x')
elementwise('v_pea', lambda c, k: o(c, 'v', k) + fm(c.old('a'), o(c, 'x', k)), VL, (('v', 'x'),), title='v += a*x')
elementwise('v_me', lambda c, k: o(c, 'v', k) - o(c, 'x', k), VL, (('v', 'x'),), title='v -= x')
elementwise('v_mea', lambda c, k: o(c, 'v', k) - fm(c.old('a'), o(c, 'x', k)), VL, (('v', 'x'),), title='v -= a*x')
elementwise('v_scale', lambda c, k: fm(o(c, 'v', k), c.old('a')), VL, title='v *= a')
elementwise('v_div', lambda c, k: fd(o(c, 'v', k), c.old('a')), VL, title='v /= a')
elementwise('v_selfplus', lambda c, k: o(c, 'v', k) + o(c, 'y', k), VL, (('v', 'y'),), title='v <= v+y (target is an operand)')
elementwise('v_selfminus', lambda c, k: o(c, 'y', k) - o(c, 'v', k), VL, (('v', 'y'),), title='v <= y-v (target is an operand)')
elementwise('v_selfaxpy', lambda c, k: o(c, 'v', k) + fm(c.old('a'), o(c, 'y', k)), VL, (('v', 'y'),), title='v <= v+a*y (target is an operand)')
elementwise('v_selfmult', lambda c, k: fm(o(c, 'v', k), c.old('a')), VL, title='v <= a*v (target is the operand)')

SP = SumFn('sp', [AR, AR], term=lambda x, y, k: fm(cj(x[k]), y[k]))
SPR = SumFn('spr', [AR, AR], term=lambda x, y, k: fm(x[k], y[k]))
SUMV = SumFn('sumv', [AR], term=lambda x, k: x[k])
def red(root, fn, both=True):
    for s in ('', '_z'):
        f = fn(s)
        contract(P, 'vroot::' + root + s, tu=TU, title='%s%s: the sum over all components' % (root, s), opts={'hfuncs': [root]},
            pre=lambda c: ([c['x'].len == c['y'].len] if both else []), post=lambda c, f=f: [('value', c.result == f(c, c['x'].len))],
            axioms=[SP, SPR, SUMV, COMM],
            hints=[Hint('partial sum', lambda e, f=f: e['result'] == f(e.ctx, e['i']), vars=('result', 'i'))])
red('v_sp', lambda s: (lambda c, n: SP(c.old('x').arr, c.old('y').arr, n)) if s else (lambda c, n: SPR(c.old('x').arr, c.old('y').arr, n)))
red('v_dot', lambda s: (lambda c, n: SP(c.old('y').arr, c.old('x').arr, n)) if s else (lambda c, n: SPR(c.old('x').arr, c.old('y').arr, n)))
red('v_sum', lambda s: lambda c, n: SUMV(c.old('x').arr, n), both=False)

sq = z3.Function('m_sqrt', R, R)
contract(P, 'vroot::v_matvec', tu=TU, title='rows (vector of vectors) times vector', opts={'hfuncs': ['v_matvec']},
    pre=lambda c: [forall(k_, imp(all_(0 <= k_, k_ < c['m'].len), c['m'][k_].len == c['x'].len), [c['m'].arr[k_]])],
    post=lambda c: [('one component per row', c.result.len == c['m'].len),
        ('components', forall(k_, imp(all_(0 <= k_, k_ < c['m'].len), c.result.arr[k_] == SPR(c['m'][k_].arr, c['x'].arr, c['x'].len)), [c.result.arr[k_]]))],
    axioms=[SPR, COMM],
    hints=[Hint('rows done', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), e['v3'].arr[k_] == SPR(e.root('m')[k_].arr, e.root('x').arr, e.root('x').len)), [e['v3'].arr[k_]]), vars=('i', 'v3'), mod=('i',)),
           Hint('rows done in', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), e['v3'].arr[k_] == SPR(e.root('m')[k_].arr, e.root('x').arr, e.root('x').len)), [e['v3'].arr[k_]]), vars=('i', 'v3'), fix=('i',)),
           Hint('length', lambda e: e['v3'].len == e.root('m').len, vars=('v3',)),
           Hint('this row', lambda e: e['v3'].arr[e['i']] == SPR(e.root('m')[e['i']].arr, e.root('x').arr, e['j']), vars=('i', 'j', 'v3'))])
contract(P, 'vroot::v_index', tu=TU, title='indexOrMinusOne: first position of the value, or -1', opts={'hfuncs': ['v_index']},
    pre=lambda c: [c['b'].len < INTMAX],
    post=lambda c: [('found', imp(c.result >= 0, all_(c.result < c['b'].len, c['b'].arr[c.result] == c['v'], forall(k_, imp(all_(0 <= k_, k_ < c.result), c['b'].arr[k_] != c['v']), [c['b'].arr[k_]])))),
                    ('not found', imp(c.result < 0, all_(c.result == -1, forall(k_, imp(all_(0 <= k_, k_ < c['b'].len), c['b'].arr[k_] != c['v']), [c['b'].arr[k_]]))))])
contract(P, 'vroot::v_norm', tu=TU, title='norm: the square root of the sum of squares', opts={'hfuncs': ['v_norm']},
    post=lambda c: [('value', c.result == sq(SPR(c['x'].arr, c['x'].arr, c['x'].len)))], axioms=[SPR, COMM],
    hints=[Hint('partial sum', lambda e: e['result'] == SPR(e.ctx.old('x').arr, e.ctx.old('x').arr, e['i']), vars=('result', 'i'))])
