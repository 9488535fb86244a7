from contracts.lib import *
P = 'P07'

def bs(n, m):
    """block length of the default balancer"""
    mm = z3.If(z3.And(n < m, n > 0), n, m)
    return z3.If(n % mm == 0, n / mm, n / mm + 1)
def parts(c, n, start=0, log='log'):
    d = c[log].done
    return [('every task runs: the number of executions equals the number of tasks', d.len == n),
            ('only tasks of the range run', forall(k_, imp(all_(0 <= k_, k_ < n), all_(d.arr[k_] >= start, d.arr[k_] < start + n)), [d.arr[k_]])),
            ('no task runs twice', forall([k_, l_], imp(all_(0 <= k_, k_ < l_, l_ < n), d.arr[k_] != d.arr[l_]), [[d.arr[k_], d.arr[l_]]]))]
def logged(e): return e.root('log').done
def ordered(start):
    return [Hint('tasks so far in order', lambda e: forall(k_, imp(all_(0 <= k_, k_ < logged(e).len), logged(e).arr[k_] == k_ + start(e)), [logged(e).arr[k_]]))]

ORD = ordered(lambda e: 0)
def serial(c): return [c['log'].done.len == 0]
S = 'par_serial.cpp'
NL = [Hint('as many as iterations', lambda e: logged(e).len == e['taskNumber'])]
contract(P, 'vroot::nong_default', tu=S, title='serial pool runs every task once', opts={'hfuncs': ['par_serial'], 'harness': 'par_serial.cpp'},
    pre=serial, post=lambda c: parts(c, c.old('log').n), hints=ORD + NL)
for r in ('par2_serial', 'internode_serial'):
    contract(P, 'vroot::' + r, tu=S, title='serial loop visits [start,end) once (%s)' % r, opts={'hfuncs': ['par_serial'], 'harness': 'par_serial.cpp'},
        pre=lambda c: serial(c) + [c['start'] <= c['end']], post=lambda c: parts(c, c['end'] - c['start'], c['start']),
        hints=ordered(lambda e: e.root('start')) + [Hint('as many as iterations', lambda e: logged(e).len == e['i'] - e['start'])])

# ------------------------------------------------------------------ thread pools
T_ = 'par.cpp'
BIG = 1 << 30
def blk(e):
    return e['loadBalancer'].blockSize_
def upto(e, j, n):
    return z3.If(j * blk(e) <= n, j * blk(e), n)
def ng_hints(n, m, start, thr=None):
    thr = thr or (lambda e: z3.If(m(e) <= n(e), m(e), n(e)))
    return ordered(start) + [
        Hint('block bounds', lambda e: all_(blk(e) >= 0, blk(e) <= n(e), thr(e) * blk(e) >= n(e), e['j'] * blk(e) >= 0, e['j'] * blk(e) < (1 << 60)), fix=('loadBalancer',), mod=('j',)),
        Hint('threads so far', lambda e: logged(e).len == upto(e, e['j'], n(e)), mod=('j',)),
        Hint('this thread', lambda e: logged(e).len == upto(e, e['j'], n(e)) + e['p'], fix=('j',), mod=('p',)),
        Hint('this thread in range', lambda e: imp(e['j'] * blk(e) <= n(e), e['j'] * blk(e) + e['p'] <= n(e)), fix=('j',), mod=('p',)),
        Hint('later thread idle', lambda e: imp(e['j'] * blk(e) >= n(e), e['p'] == 0), fix=('j',), mod=('p',)),
    ]
contract(P, 'vroot::ng_default', tu=T_, title='PthreadsNg with the default balancer runs every task exactly once', opts={'hfuncs': ['par_ng']},
    pre=lambda c: [c['log'].done.len == 0, c['log'].n < BIG, c['p'].nthreads_ >= 1, c['p'].nthreads_ < BIG, z3.Not(c['p'].setAffinities_)],
    post=lambda c: parts(c, c.old('log').n),
    hints=ng_hints(lambda e: e.root('log').n, lambda e: e.root('p').nthreads_, lambda e: 0))
contract(P, 'vroot::par2', tu=T_, title='Parallelizer2 (pthreads) visits [start,end) exactly once', opts={'hfuncs': ['par_par2']},
    pre=lambda c: [c['log'].done.len == 0, c['start'] <= c['end'], c['end'] < BIG, c['p'].nthreads_ >= 1, c['p'].nthreads_ < BIG],
    post=lambda c: parts(c, c['end'] - c['start'], c['start']),
    hints=ng_hints(lambda e: e.root('end') - e.root('start'), lambda e: e.root('p').nthreads_, lambda e: e.root('start'), lambda e: e.root('p').nthreads_))

_dx, _dy = z3.Ints('dx dy')
def idiv(x, y): return z3.Function('idiv', I, I, I)(x, y)
def imod(x, y): return z3.Function('imod', I, I, I)(x, y)
DIV_AX = z3.ForAll([_dx, _dy], z3.Implies(z3.And(_dx >= 0, _dy > 0), z3.And(_dx == _dy * idiv(_dx, _dy) + imod(_dx, _dy), imod(_dx, _dy) >= 0, imod(_dx, _dy) < _dy, idiv(_dx, _dy) >= 0, idiv(_dx, _dy) <= _dx)), patterns=[idiv(_dx, _dy)])
def ceil_(n, m):
    return z3.If(imod(n, m) == 0, idiv(n, m), idiv(n, m) + 1)
def bsz(n, m):
    mm = z3.If(z3.And(n < m, n > 0), n, m)
    return z3.If(z3.And(n < m, n > 0), z3.IntVal(1), ceil_(n, m))
GB = z3.Int('block')      # ceil(n/processes), the reference block length
def rank_ghost(c):
    n, m = c['end'] - c['start'], c['p'].mpiSize_
    few = z3.And(n < m, n > 0)
    return [imp(few, GB == 1), imp(z3.And(z3.Not(few), imod(n, m) == 0), GB == idiv(n, m)), imp(z3.And(z3.Not(few), imod(n, m) != 0), GB == idiv(n, m) + 1)]
_pr = z3.Function('prod', I, I, I)
PR_AX = z3.ForAll([_dx, _dy], _pr(_dx, _dy) == _dx * _dy, patterns=[_pr(_dx, _dy)])    # congruence for products
def rank_post(c):
    n, m, r = c['end'] - c['start'], c['p'].mpiSize_, c['p'].mpiRank_
    b = GB
    d = c['log'].done
    lo = _pr(r, b)
    return [('the blocks of all processes cover the range', m * b >= n),
            ('nothing runs beyond the range', imp(lo >= n, d.len == 0)),
            ('the last block is cut at the end of the range', imp(z3.And(lo < n, n - lo <= b), d.len == n - lo)),
            ('a full block', imp(n - lo > b, d.len == b)),
            ('the block of this process', forall(k_, imp(all_(0 <= k_, k_ < d.len), d.arr[k_] == c['start'] + lo + k_), [d.arr[k_]]))]
contract(P, 'vroot::internode_mpi', tu='par_mpi.cpp', title='distributed loop: process r runs exactly block r of an exact partition', opts={'hfuncs': ['par_mpi']},
    pre=lambda c: [c['log'].done.len == 0, c['start'] <= c['end'], c['end'] < BIG, c['p'].mpiSize_ >= 1, c['p'].mpiSize_ < BIG, c['p'].mpiRank_ < c['p'].mpiSize_] + rank_ghost(c),
    post=rank_post, axioms=[DIV_AX, PR_AX],
    hints=[Hint('in order', lambda e: forall(k_, imp(all_(0 <= k_, k_ < logged(e).len), logged(e).arr[k_] == e['start'] + e['this'].mpiRank_ * blk(e) + k_), [logged(e).arr[k_]])),
           Hint('in range', lambda e: imp(e['p'] > 0, e['this'].mpiRank_ * blk(e) + e['p'] <= e.root('end') - e.root('start'))),
           Hint('as many', lambda e: logged(e).len == e['p']),
           Hint('product', lambda e: _pr(e['this'].mpiRank_, blk(e)) == e['this'].mpiRank_ * blk(e))])

# ------------------------------------------------------------------ weighted balancing
from contracts.sort import spec_sort
SORTSPEC = {'PsimagLite::Sort<std::vector<unsigned long>>::sort': spec_sort, 'PsimagLite::Sort::sort': spec_sort}
_slen = {}
def SUML(eng):
    """sum of the lengths of the first k task lists"""
    vs = eng.T.dtsort(vec_t(SZ))[0]
    k = vs.get_id()
    if k not in _slen:
        _slen[k] = SumFn('sumlen', [z3.ArraySort(I, vs)], term=lambda a, x: vs.accessor(0, 0)(a[x]), rng=I)
    return _slen[k]
def suml_frame(eng):
    S_ = SUML(eng)
    vs = eng.T.dtsort(vec_t(SZ))[0]
    def mk():
        a, v, j, k = z3.Const('sa', z3.ArraySort(I, vs)), z3.Const('sv', vs), z3.Int('sj'), z3.Int('sk')
        ln = vs.accessor(0, 0)
        t = S_(z3.Store(a, j, v), k)
        return [a, v, j, k], imp(j >= 0, t == S_(a, k) + z3.If(j < k, ln(v) - ln(a[j]), 0)), [t], k, z3.IntVal(0)
    return Lemma('growing one list by one grows the total by one', mk)
def suml_zero(eng):
    S_ = SUML(eng)
    vs = eng.T.dtsort(vec_t(SZ))[0]
    def mk():
        a, m, k, x = z3.Const('sa', z3.ArraySort(I, vs)), z3.Int('sm'), z3.Int('sk'), z3.Int('sx')
        ln = vs.accessor(0, 0)
        return [a, m, k], imp(all_(0 <= m, m <= k, forall(x, imp(all_(m <= x, x < k), ln(a[x]) == 0), [a[x]])), S_(a, k) == S_(a, m)), [[S_(a, k), S_(a, m)]], k, m
    return Lemma('empty lists at the end do not count', mk)

def suml_none(eng):
    S_ = SUML(eng)
    vs = eng.T.dtsort(vec_t(SZ))[0]
    def mk():
        a, k, x = z3.Const('sa', z3.ArraySort(I, vs)), z3.Int('sk'), z3.Int('sx')
        ln = vs.accessor(0, 0)
        return [a, k], imp(all_(0 <= k, forall(x, imp(all_(0 <= x, x < k), ln(a[x]) == 0), [a[x]])), S_(a, k) == 0), [S_(a, k)], k, z3.IntVal(0)
    return Lemma('only empty lists, total zero', mk)

def LB(e):
    return e['this'].taskNumber_ if e.has('this') and 'taskNumber_' in e['this'].fields else e['loadBalancer'].taskNumber_
def lists(c, TN, n, bound):
    """the lists are pairwise disjoint, without repeats, inside [0,n)"""
    def el(j, p): return TN[j].arr[p]
    return [('tasks inside the range', forall([j_, k_], imp(all_(0 <= j_, j_ < TN.len, 0 <= k_, k_ < TN[j_].len), all_(el(j_, k_) >= 0, el(j_, k_) < n)), [el(j_, k_)])),
            ('no task twice in a list', forall([j_, k_, l_], imp(all_(0 <= j_, j_ < TN.len, 0 <= k_, k_ < l_, l_ < TN[j_].len), el(j_, k_) != el(j_, l_)), [[el(j_, k_), el(j_, l_)]])),
            ('no task in two lists', forall([i_, j_, k_, l_], imp(all_(0 <= i_, i_ < j_, j_ < TN.len, 0 <= k_, k_ < TN[i_].len, 0 <= l_, l_ < TN[j_].len), el(i_, k_) != el(j_, l_)), [[el(i_, k_), el(j_, l_)]])),
            ('threads beyond the number of tasks get nothing', forall(j_, imp(all_(bound <= j_, j_ < TN.len), TN[j_].len == 0), [TN[j_].len]))]
def nmin(n, m): return z3.If(m <= n, m, n)
def wbound(n, m): return z3.If(z3.And(n < m, n > 0), n, m)
def w_hints(n, m):
    """n(e) tasks, m(e) threads"""
    def S_(e, k): return SUML(e.eng)(LB(e).arr, k)
    def el(e, j, p): return LB(e)[j].arr[p]
    hs = []
    for nm in range(4):
        hs.append(Hint('task lists %d' % nm, lambda e, nm=nm: lists(e, LB(e), n(e), wbound(n(e), m(e)))[nm][1]))
    hs += [Hint('list count', lambda e: LB(e).len == m(e)),
        Hint('total so far', lambda e: S_(e, m(e)) == e['iii'], mod=('iii',)),
        Hint('tasks not yet given out', lambda e: forall([j_, k_, l_], imp(all_(0 <= j_, j_ < LB(e).len, 0 <= k_, k_ < LB(e)[j_].len, 0 <= l_, l_ < n(e) - e['iii']), el(e, j_, k_) != e['iperm'].arr[l_]), [[el(e, j_, k_), e['iperm'].arr[l_]]]), mod=('iii',))]
    return hs
contract(P, 'vroot::lb_weights', tu=T_, title='LoadBalancerWeights: an exact partition of the tasks for any weights', opts={'hfuncs': ['lb_weights']},
    pre=lambda c: [c['w'].len < BIG, c['nthreads'] >= 1, c['nthreads'] < BIG], specs=SORTSPEC,
    axioms=[SUML], lemmas=[suml_frame, suml_none],
    post=lambda c: lists(c, c['b'].taskNumber_, c['w'].len, wbound(c['w'].len, c['nthreads'])) + [('one list per thread', c['b'].taskNumber_.len == c['nthreads']),
        ('all tasks are given out', SUML(c.eng)(c['b'].taskNumber_.arr, c['nthreads']) == c['w'].len)],
    hints=w_hints(lambda e: e.root('w').len, lambda e: e.root('nthreads')))
def run_hints(n):
    def S_(e, k): return SUML(e.eng)(e['loadBalancer'].taskNumber_.arr, k)
    def el(e, j, p): return e['loadBalancer'].taskNumber_[j].arr[p]
    def ll(e, j): return e['loadBalancer'].taskNumber_[j].len
    def nl(e): return e['loadBalancer'].taskNumber_.len
    hs = []
    for tag, pos, kw in (('outer', lambda e: z3.IntVal(0), dict(mod=('j',))), ('inner', lambda e: e['p'], dict(fix=('j',), mod=('p',)))):
        hs += [Hint('runs so far ' + tag, lambda e, pos=pos: logged(e).len == S_(e, e['j']) + pos(e), **kw),
            Hint('runs in range ' + tag, lambda e: forall(k_, imp(all_(0 <= k_, k_ < logged(e).len), all_(logged(e).arr[k_] >= 0, logged(e).arr[k_] < n(e))), [logged(e).arr[k_]]), **kw),
            Hint('runs differ ' + tag, lambda e: forall([k_, l_], imp(all_(0 <= k_, k_ < l_, l_ < logged(e).len), logged(e).arr[k_] != logged(e).arr[l_]), [[logged(e).arr[k_], logged(e).arr[l_]]]), **kw),
            Hint('rest of this list ' + tag, lambda e, pos=pos: forall([k_, l_], imp(all_(0 <= k_, k_ < logged(e).len, pos(e) <= l_, l_ < ll(e, e['j']), e['j'] < nl(e)), logged(e).arr[k_] != el(e, e['j'], l_)), [[logged(e).arr[k_], el(e, e['j'], l_)]]), **kw),
            Hint('later lists ' + tag, lambda e: forall([k_, l_, j_], imp(all_(0 <= k_, k_ < logged(e).len, e['j'] < j_, j_ < nl(e), 0 <= l_, l_ < ll(e, j_)), logged(e).arr[k_] != el(e, j_, l_)), [[logged(e).arr[k_], el(e, j_, l_)]]), **kw)]
    return hs
contract(P, 'vroot::ng_weights', tu=T_, title='PthreadsNg with the weighted balancer runs every task exactly once', opts={'hfuncs': ['par_weights', 'lb_weights']},
    pre=lambda c: [c['log'].done.len == 0, c['log'].n < BIG, c['w'].len == c['log'].n, c['p'].nthreads_ >= 1, c['p'].nthreads_ < BIG, z3.Not(c['p'].setAffinities_)],
    post=lambda c: parts(c, c.old('log').n), specs=SORTSPEC, axioms=[SUML], lemmas=[suml_frame, suml_zero, suml_none],
    hints=w_hints(lambda e: e.root('log').n, lambda e: e.root('p').nthreads_) + run_hints(lambda e: e.root('log').n))
contract(P, 'vroot::nong_weights', tu=S, title='serial pool with weights runs every task once', opts={'hfuncs': ['par_serial'], 'harness': 'par_serial.cpp'},
    pre=lambda c: serial(c) + [c['w'].len == c['log'].n, c['log'].n < BIG], post=lambda c: parts(c, c.old('log').n), specs=SORTSPEC, hints=ORD + NL)

# ------------------------------------------------------------------ deprecated interface: block size and total handed to the client
def old_ghost(c):
    n, m = c['total'], c['p'].nthreads_
    return [imp(imod(n, m) == 0, GB == idiv(n, m)), imp(imod(n, m) != 0, GB == idiv(n, m) + 1)]
def uptoG(e, j):
    n = e.root('total')
    return z3.If(j * GB <= n, j * GB, n)
OT = 'par_old.cpp'
contract(P, 'vroot::old_pthreads', tu=OT, title='deprecated Pthreads: blocks handed to the client partition the range', opts={'hfuncs': ['par_old'], 'harness': 'par_old.cpp'},
    pre=lambda c: [c['log'].done.len == 0, c['total'] < BIG, c['p'].nthreads_ >= 1, c['p'].nthreads_ < BIG] + old_ghost(c),
    post=lambda c: parts(c, c['total']), axioms=[DIV_AX],
    hints=ordered(lambda e: 0) + [
        Hint('block bounds', lambda e: all_(GB >= 0, GB <= e.root('total'), e.root('p').nthreads_ * GB >= e.root('total'), e['j'] * GB >= 0, e['j'] * GB < (1 << 60)), mod=('j',)),
        Hint('threads so far', lambda e: logged(e).len == uptoG(e, e['j']), mod=('j',)),
        Hint('this thread', lambda e: logged(e).len == uptoG(e, e['j']) + e['p'], fix=('j',), mod=('p',)),
        Hint('this thread in range', lambda e: imp(e['j'] * GB <= e.root('total'), e['j'] * GB + e['p'] <= e.root('total')), fix=('j',), mod=('p',)),
        Hint('later thread idle', lambda e: imp(e['j'] * GB >= e.root('total'), e['p'] == 0), fix=('j',), mod=('p',))])
contract(P, 'vroot::old_nopthreads', tu=OT, title='deprecated NoPthreads: one block with the whole range', opts={'hfuncs': ['par_serial'], 'harness': 'par_serial.cpp'},
    pre=lambda c: [c['log'].done.len == 0, c['total'] < BIG], post=lambda c: parts(c, c['total']),
    hints=ordered(lambda e: 0) + [Hint('as many', lambda e: logged(e).len == e['p'])])
