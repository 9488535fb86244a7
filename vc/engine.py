"""Verification-condition generator: symbolic execution of the exported AST with
loop invariants (Houdini over a candidate pool), callee inlining or contracts."""
import itertools, os, sys, time
import z3
from .values import *

_uid = itertools.count(1)

def fresh_name(n):
    return '%s!%d' % (n, next(_uid))

_qfc = {}
def qfbv(hyps, goal, ms):
    """bit-blasting, for quantifier-free bit-vector obligations only"""
    if any(has_quant(h) for h in hyps) or has_quant(goal):
        return None
    s = z3.TryFor(z3.Tactic('qfbv'), ms).solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    try:
        return s.check()
    except z3.Z3Exception:
        return None

def has_quant(t):
    """does the term contain a quantifier/lambda?"""
    i = t.get_id()
    if i in _qfc:
        return _qfc[i][1]
    st = [t]
    seen = set()
    r = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    _qfc[i] = (t, r)
    return r

class Frame:
    __slots__ = ('fn', 'env', 'names', 'this', 'caller')
    def __init__(self, fn, this=None):
        self.fn = fn
        self.env = {}
        self.names = {}
        self.this = this
    def copy(self):
        f = Frame(self.fn, self.this)
        f.env = dict(self.env)
        f.names = dict(self.names)
        return f

class State:
    __slots__ = ('store', 'pc', 'pcset', 'frames', 'log', 'trace')
    def __init__(self):
        self.store = {}
        self.pc = []
        self.pcset = set()
        self.frames = []
        self.log = set()
        self.trace = ()
    def fork(self):
        s = State()
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.frames = [f.copy() for f in self.frames]
        s.log = set(self.log)
        s.trace = self.trace
        return s
    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if z3.is_true(f):
                continue
            i = f.get_id()
            if i in self.pcset:
                continue
            self.pcset.add(i)
            self.pc.append(f)
    @property
    def fr(self):
        return self.frames[-1]

NEXT = ('next',)
BREAK = ('break',)
CONT = ('continue',)

class Obligation:
    __slots__ = ('name', 'kind', 'loc', 'hyps', 'goal', 'status', 'backend', 'time', 'model', 'trace', 'fn')
    def __init__(self, name, kind, loc, hyps, goal, trace=(), fn=''):
        self.name, self.kind, self.loc, self.hyps, self.goal = name, kind, loc, hyps, goal
        self.status = None
        self.backend = ''
        self.time = 0.0
        self.model = None
        self.trace = trace
        self.fn = fn

class Limits(Exception):
    pass

# product of two integers, neither a literal (opts imul): described by IMUL_AX in contracts/matrix.py
IMUL = z3.Function('imul', z3.IntSort(), z3.IntSort(), z3.IntSort())
IDX = z3.Function('idx', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())     # idx(i,j,n) == i + j*n
def is_imul(x):
    return z3.is_app(x) and x.decl().eq(IMUL)

class Engine:
    SEED0 = 0       # second attempts of a whole contract start from another seed, with larger budgets
    def __init__(self, ir, bv=False, axioms=None, hints=(), callee_specs=None, real_mul='uf', real_div=None,
                 unroll=0, deadline=None, strings=True, opaque_fns=(), hou_rlimit=4000000, auto=True, verbose=False,
                 virt_class=None, no_inline=(), imul=False, constglobals=()):
        self.ir = ir
        self.imul = imul
        self.funcs = ir['funcs']
        self.T = Types(ir, bv)
        self.bv = bv
        self.axioms = list(axioms or [])
        self.hints = list(hints)
        self.specs = callee_specs or {}
        self.real_mul = real_mul
        self.obls = []
        self.emit = True
        self.dry = 0
        self.rty = {}
        self.old_state = None
        self.inv_memo = {}
        self.used_specs = set()
        self.bitfs = set()
        self.inlined = set()
        self.trusted = set()
        self.unroll = unroll
        self.deadline = deadline
        self.hou_rlimit = hou_rlimit
        self.auto = auto
        self.verbose = verbose
        self.globals = {}
        self.constglobals = constglobals   # variables that hold their initial value (nothing writes them)
        self.loops_done = []
        self.quickcache = {}
        self.nquick = 0
        self.tquick = 0.0
        self.thou = 0.0
        self.nhou = 0
        self.hyp_inv = 0
        self.paths = 0
        self.opaque_fns = tuple(opaque_fns)
        self.virt_class = virt_class
        self.keep = []
        self.inv_obls = []
        self.unrolled_bound_hit = False
        self.assumed = set()
        self.fmulf = z3.Function('fmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
        self.fdivf = z3.Function('fdiv', z3.RealSort(), z3.RealSort(), z3.RealSort())
        self.conjf = z3.Function('conj', z3.RealSort(), z3.RealSort())
        self.divf = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.modf = z3.Function('imod', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.umemo = {}
        self.alpha = {}
        from . import models
        self.models = models.Models(self)

    # ------------------------------------------------------------------ values
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Limits('time limit of the symbolic executor')

    def fresh(self, t, name='v', facts=None, ranged=True):
        T = self.T
        k = t['k']
        if k == 'int':
            c = z3.Const(fresh_name(name), T.isort(t))
            if not self.bv and facts is not None:
                facts.append(T.inrange(c, t))
            return c
        if k == 'bool':
            return z3.Const(fresh_name(name), z3.BoolSort())
        if T.isreal(t):
            return z3.Const(fresh_name(name), z3.RealSort())
        if T.isvec(t):
            e = T.ety(t)
            try:
                es = T.sort(e)
            except Unsupported:
                return Opaque('vector of ' + tyname(e))
            ln = T.idxval(t['n']) if k == 'arr' else z3.Const(fresh_name(name + '.len'), T.idxsort())
            arr = z3.Const(fresh_name(name + '.arr'), z3.ArraySort(T.idxsort(), es))
            if facts is not None:
                if not self.bv:
                    if k != 'arr':
                        facts.append(z3.And(ln >= 0, ln < (1 << 60)))
                    self.elem_facts(arr, e, facts)
                elif k != 'arr':
                    facts.append(z3.ULT(ln, z3.BitVecVal(1 << 40, 64)))
            return Vec(T, e, ln, arr, 'arr' if k == 'arr' else ('string' if T.isstr(t) else 'vector'))
        if T.ismap(t):
            ks, vs = T.sort(t['args'][0]), T.sort(t['args'][1])
            return MapV(T, t['args'][0], t['args'][1], z3.Const(fresh_name(name + '.dom'), z3.ArraySort(ks, z3.BoolSort())),
                        z3.Const(fresh_name(name + '.val'), z3.ArraySort(ks, vs)))
        if k == 'rec':
            try:
                fs = T.rfields(t)
            except Unsupported:
                return Opaque(t['full'])
            d = {}
            for n, ft, _ in fs:
                if ft['k'] == 'ref':
                    r = self.new_root(ft['to'], self.fresh(ft['to'], name + '.' + n, facts))
                    d[n] = Ptr(Loc(r), z3.BoolVal(False))
                else:
                    d[n] = self.fresh(ft, name + '.' + n, facts)
            return Rec(t, d)
        if k == 'ptr':
            to = t['to']
            if to['k'] in ('fn', 'void'):
                return Opaque('ptr')
            if to['k'] == 'int' and to.get('ch'):
                return Opaque('cstr')
            return Opaque('unknown pointer')
        if k == 'void':
            return None
        return Opaque(str(t))

    def elem_facts(self, arr, e, facts):
        if e['k'] == 'int':
            i = z3.Const(fresh_name('k'), self.T.idxsort())
            facts.append(z3.ForAll([i], self.T.inrange(arr[i], e), patterns=[arr[i]]))
        elif self.T.isvec(e):
            i = z3.Const(fresh_name('k'), self.T.idxsort())
            v = self.T.unpack(arr[i], e)
            facts.append(z3.ForAll([i], z3.And(v.len >= 0, v.len < (1 << 60)), patterns=[arr[i]]))
            ee = self.T.ety(e)
            if ee['k'] == 'int':
                j = z3.Const(fresh_name('k'), self.T.idxsort())
                facts.append(z3.ForAll([i, j], self.T.inrange(v.arr[j], ee), patterns=[v.arr[j]]))
        elif e['k'] == 'rec' and not self.T.isreal(e):
            i = z3.Const(fresh_name('k'), self.T.idxsort())
            v = self.T.unpack(arr[i], e)
            for n, ft, _ in self.T.rfields(e):
                if ft['k'] == 'int':
                    facts.append(z3.ForAll([i], self.T.inrange(v.fields[n], ft), patterns=[arr[i]]))

    def zero(self, t):
        T = self.T
        k = t['k']
        if k == 'int':
            return T.ival(0, t)
        if k == 'bool':
            return z3.BoolVal(False)
        if T.isreal(t):
            return z3.RealVal(0)
        if T.isvec(t):
            e = T.ety(t)
            try:
                es = T.sort(e)
            except Unsupported:
                return Opaque('vector of ' + tyname(e))
            if k == 'arr':
                return Vec(T, e, T.idxval(t['n']), z3.K(T.idxsort(), self.zpack(e)), 'arr')
            return Vec(T, e, T.idxval(0), z3.K(T.idxsort(), self.zpack(e)), 'string' if T.isstr(t) else 'vector')
        if T.ismap(t):
            ks, vs = T.sort(t['args'][0]), T.sort(t['args'][1])
            return MapV(T, t['args'][0], t['args'][1], z3.K(ks, z3.BoolVal(False)), z3.K(ks, self.zpack(t['args'][1])))
        if k == 'rec':
            try:
                fs = T.rfields(t)
            except Unsupported:
                return Opaque(t['full'])
            return Rec(t, {n: self.zero(ft) for n, ft, _ in fs})
        if k == 'ptr' or k == 'nullptr':
            return Ptr(None)
        return Opaque(str(t))

    def zpack(self, t):
        return self.T.pack(self.zero(t), t)

    def new_root(self, t, v=None, st=None):
        r = next(_uid)
        self.rty[r] = t
        if st is not None:
            st.store[r] = v
        else:
            self.umemo[r] = v
        return r

    # ------------------------------------------------------------------ store
    def rootval(self, st, r):
        if r in st.store:
            return st.store[r]
        if r in self.umemo:
            return self.umemo[r]
        raise Unsupported('dangling location')

    def read(self, st, loc):
        if loc is None:
            raise Unsupported('null dereference')
        v = self.rootval(st, loc.root)
        for kind, x in loc.path:
            if kind == 'f':
                if isinstance(v, Opaque):
                    return Opaque('field of opaque')
                if not isinstance(v, Rec):
                    raise Unsupported('field %s of %s' % (x, type(v).__name__))
                if x not in v.fields:
                    raise Unsupported('no field %s' % x)
                v = v.fields[x]
            else:
                if isinstance(v, Opaque):
                    return Opaque('element of opaque')
                if not isinstance(v, Vec):
                    raise Unsupported('index of ' + type(v).__name__)
                v = v[x]
        return v

    def upd(self, v, path, new):
        if not path:
            return new
        kind, x = path[0]
        if kind == 'f':
            if isinstance(v, Opaque):
                return v
            return v.set(x, self.upd(v.fields[x], path[1:], new))
        if isinstance(v, Opaque):
            return v
        idx = self.T.idxterm(x)
        if path[1:]:
            sub = self.upd(v[idx], path[1:], new)
        else:
            sub = new
        return v.with_(arr=z3.Store(v.arr, idx, self.T.pack(sub, v.ety)))

    def write(self, st, loc, new):
        if loc is None:
            raise Unsupported('null write')
        if loc.root in self.umemo and loc.root not in st.store:
            st.store[loc.root] = self.umemo[loc.root]
        p = []
        whole = True
        for kind, x in loc.path:
            if kind == 'i':
                whole = False
                break
            p.append(x)
        st.log.add((loc.root, tuple(p), whole))
        st.store[loc.root] = self.upd(self.rootval(st, loc.root), loc.path, new)

    def type_at(self, root, fpath):
        t = self.rty[root]
        for f in fpath:
            for n, ft, _ in self.T.rfields(t):
                if n == f:
                    t = ft
                    break
            else:
                raise Unsupported('type_at')
        return t

    # ------------------------------------------------------------------ solving helpers
    def quick(self, st, cond, ms=150):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if cond.get_id() in st.pcset:
            return True
        if has_quant(cond):
            return False
        facts = [f for f in st.pc if not has_quant(f)]
        key = (cond.get_id(), tuple(f.get_id() for f in facts))
        if key in self.quickcache:
            return self.quickcache[key][0]
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('rlimit', 200000)
        s.set('timeout', 2000)
        s.add(*facts)
        s.add(z3.Not(cond))
        r = s.check() == z3.unsat
        self.nquick += 1
        self.tquick += time.time() - t0
        self.quickcache[key] = (r, cond, facts)
        return r

    def _infeasible(self, st):
        if not st.pc:
            return False
        facts = [f for f in st.pc if not has_quant(f)]
        key = ('inf', tuple(f.get_id() for f in facts))
        if key in self.quickcache:
            return self.quickcache[key][0]
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('rlimit', 100000)
        s.set('timeout', 2000)
        s.add(*facts)
        r = s.check() == z3.unsat
        self.nquick += 1
        self.tquick += time.time() - t0
        self.quickcache[key] = (r, facts)
        return r

    def eprove(self, st, goal):
        """small e-matching proof attempt with the quantified facts"""
        key = ('e', goal.get_id(), tuple(f.get_id() for f in st.pc))
        if key in self.quickcache:
            return self.quickcache[key][0]
        r = self.hprove(st.pc, goal, rlimit=400000)
        self.quickcache[key] = (r, goal, list(st.pc))
        return r

    def hprove(self, hyps, goal, rlimit=None, tries=1):
        """used while inferring invariants; sound: returns True only if proved"""
        if self.hprove1(hyps, goal, rlimit, tries):
            return True
        parts = conjuncts(goal) if tries > 1 else ()
        return len(parts) > 1 and all(self.hprove1(list(hyps) + parts[:k], g, rlimit, tries) for k, g in enumerate(parts))

    def hprove1(self, hyps, goal, rlimit=None, tries=1):
        self.tick()
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        t0 = time.time()
        if self.T.bv and qfbv(list(self.axioms) + list(hyps), goal, 10000) == z3.unsat:
            self.thou += time.time() - t0
            self.nhou += 1
            return True
        # a search that ran out of its budget is repeated with another seed; one that gave up (it did
        # not look at what undecided branches would have triggered) first without relevancy, then with another seed
        plan, again = [(k, 2) for k in range(tries)], False
        while plan:
            seed, rel = plan.pop(0)
            s = z3.SimpleSolver()
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
            s.set('smt.random_seed', seed + Engine.SEED0)
            s.set('smt.relevancy', rel)
            s.set('rlimit', (rlimit or self.hou_rlimit) * (3 if seed > 1 or Engine.SEED0 else 1) if not again else 400000)
            s.set('timeout', 20000)
            s.add(*self.axioms)
            s.add(*hyps)
            s.add(z3.Not(goal))
            c = s.check()
            r = c == z3.unsat
            if r or c == z3.sat:
                break
            if rel == 2 and plan and 'incomplete' in s.reason_unknown():
                plan, again = ([(0, 0), (1, 2)] if not again else []), True
        self.thou += time.time() - t0
        self.nhou += 1
        if self.verbose > 1 and time.time() - t0 > 0.3:
            print('      slow hprove %.2f %s %s' % (time.time() - t0, r, str(goal)[:150].replace(chr(10), ' ')), file=sys.stderr)
        return r

    def oblige(self, st, goal, name, kind, loc=''):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_true(goal):
            if self.emit and not self.dry:
                o = Obligation(name, kind, loc, [], goal, st.trace)
                o.status = 'proved'
                o.backend = 'trivial'
                self.obls.append(o)
            return
        if self.emit and not self.dry:
            g = z3.simplify(goal)
            if z3.is_true(g) or self.quick(st, goal):
                o = Obligation(name, kind, loc, [], goal, st.trace)
                o.status = 'proved'
                o.backend = 'z3(qf)'
                self.obls.append(o)
            else:
                self.obls.append(Obligation(name, kind, loc, list(st.pc), goal, st.trace))
        st.assume(goal)

    # ------------------------------------------------------------------ integers
    def wrap(self, st, x, t, what='', loc='', step=None):
        """machine value of type t for mathematical x"""
        T = self.T
        lo, hi = T.rng(t)
        if z3.is_int_value(x):
            v = x.as_long()
            if lo <= v <= hi:
                return x
            if t['s'] and what:
                self.oblige(st, z3.BoolVal(False), 'signed overflow', 'overflow', loc)
            m = v % (1 << t['w'])
            if t['s'] and m > hi:
                m -= 1 << t['w']
            return z3.IntVal(m)
        rc = T.inrange(x, t)
        if self.quick(st, rc):
            return x
        if not self.dry and self.eprove(st, rc):
            st.assume(rc)
            return x
        if t['s'] and what:
            self.oblige(st, rc, 'no signed overflow', 'overflow', loc)
            return x
        M = 1 << t['w']
        if step == 'sub':
            return self.named(st, z3.If(x >= 0, x, x + M))
        if step == 'add':
            return self.named(st, z3.If(x <= hi, x, x - M))
        if t['s']:
            return self.named(st, (x - lo) % M + lo)
        return self.named(st, x % M)

    def named(self, st, t):
        """give a compound term a name (keeps quantifier patterns legal)"""
        if z3.is_bool(t) or not z3.is_expr(t):
            return t
        s = z3.simplify(t)
        if z3.is_const(s):
            return s
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE and self.boolint(s) is not None and not z3.is_bv(s) and z3.is_int(s):
            return t
        c = z3.Const(fresh_name('t'), t.sort())
        st.assume(c == t)
        return c

    def boolint(self, x):
        """x is If(c,1,0) or 0/1 literal -> c"""
        if z3.is_int_value(x) and x.as_long() in (0, 1):
            return z3.BoolVal(x.as_long() == 1)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
            if x.arg(1).as_long() == 1 and x.arg(2).as_long() == 0:
                return x.arg(0)
            if x.arg(1).as_long() == 0 and x.arg(2).as_long() == 1:
                return z3.Not(x.arg(0))
        return None

    def divmod(self, st, x, y):
        """truncated division for x>=0,y>0 (caller checked); returns q,r"""
        if z3.is_int_value(y):
            if z3.is_int_value(x):
                return z3.IntVal(x.as_long() // y.as_long()), z3.IntVal(x.as_long() % y.as_long())
            return x / y, x % y
        q, r = self.divf(x, y), self.modf(x, y)
        if st is not None:
            st.assume(z3.Implies(z3.And(x >= 0, y > 0), z3.And(x == (IMUL(q, y) if self.imul else y * q) + r, r >= 0, r < y, q >= 0, q <= x)))
            if x.eq(y):
                st.assume(z3.Implies(x > 0, z3.And(q == 1, r == 0)))
        return q, r

    def intop(self, st, op, x, y, t, loc, st_t2=None):
        T = self.T
        if self.bv:
            return self.bvop(st, op, x, y, t, loc, st_t2)
        if op in ('+', '-', '*'):
            if op == '+' and self.imul and (is_imul(x) != is_imul(y)):
                a, b = (y, x) if is_imul(x) else (x, y)
                r = IDX(a, b.arg(0), b.arg(1))
                st.assume(r == a + b)
            elif op == '+':
                r = x + y
            elif op == '-':
                r = x - y
            elif self.imul and not z3.is_int_value(x) and not z3.is_int_value(y):
                r = IMUL(x, y)
            else:
                r = x * y
            r = z3.simplify(r) if z3.is_int_value(x) and z3.is_int_value(y) else r
            return self.wrap(st, r, t, 'op', loc, {'+': 'add', '-': 'sub'}.get(op))
        if op in ('/', '%'):
            self.oblige(st, y != 0, 'division by zero', 'div', loc)
            if t['s']:
                nonneg = self.quick(st, z3.And(x >= 0, y > 0))
                if not nonneg:
                    ax, ay = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
                    q, r = self.divmod(st, ax, ay) if not z3.is_int_value(y) else (ax / abs(y.as_long()), ax % abs(y.as_long()))
                    if op == '/':
                        return self.wrap(st, z3.If((x >= 0) == (y > 0), q, -q), t, 'op', loc)
                    return z3.If(x >= 0, r, -r)
            q, r = self.divmod(st, x, y)
            return q if op == '/' else r
        if op in ('&', '|', '^'):
            a, b = self.boolint(x), self.boolint(y)
            if a is not None and b is not None:
                f = {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op]
                return z3.If(z3.simplify(f(a, b)), z3.IntVal(1), z3.IntVal(0))
            if z3.is_int_value(x) and z3.is_int_value(y):
                m = (1 << t['w']) - 1
                v = {'&': lambda p, q: p & q, '|': lambda p, q: p | q, '^': lambda p, q: p ^ q}[op](x.as_long() & m, y.as_long() & m)
                return self.wrap(st, z3.IntVal(v), t)
            if op == '&':
                for p, q in ((x, y), (y, x)):
                    if z3.is_int_value(q) and q.as_long() >= 0 and self.quick(st, p >= 0):
                        m = q.as_long()
                        # contiguous mask 2^a..2^b
                        if m == 0:
                            return z3.IntVal(0)
                        a = (m & -m).bit_length() - 1
                        if ((m >> a) & ((m >> a) + 1)) == 0:
                            n = (m >> a).bit_length()
                            return ((p / (1 << a)) % (1 << n)) * (1 << a) if a else p % (1 << n)
            w = t['w']
            if op == '^' and (not t['s'] or self.quick(st, z3.And(x >= 0, y >= 0))):
                # exclusive or of natural numbers: an uninterpreted commutative function that stays below 2^32 and 2^64 with its operands
                f = z3.Function('bxor', z3.IntSort(), z3.IntSort(), z3.IntSort())
                if f.name() not in self.bitfs:
                    self.bitfs.add(f.name())
                    a, b = z3.Ints('bx_a bx_b')
                    rng = [z3.Implies(z3.And(a >= 0, b >= 0, a < (1 << n), b < (1 << n)), f(a, b) < (1 << n)) for n in (31, 32, 63, 64)]
                    self.axioms.append(z3.ForAll([a, b], z3.And(z3.Implies(z3.And(a >= 0, b >= 0), f(a, b) >= 0), f(a, b) == f(b, a), *rng), patterns=[f(a, b)]))
                st.assume(z3.Implies(z3.And(x >= 0, y >= 0), f(x, y) >= 0))
                return f(x, y)
            bx, by = z3.Int2BV(x, w), z3.Int2BV(y, w)
            r = {'&': bx & by, '|': bx | by, '^': bx ^ by}[op]
            return z3.BV2Int(r, t['s'])
        if op in ('<<', '>>'):
            if z3.is_int_value(y):
                p = 1 << y.as_long()
                if op == '<<':
                    return self.wrap(st, x * p, t, '', loc)
                return x / p
            f = z3.Function('pow2', z3.IntSort(), z3.IntSort())
            st.assume(f(y) >= 1)
            if op == '<<':
                if z3.is_int_value(x) and x.as_long() == 1:
                    w = t['w']
                    tab = z3.IntVal(0)
                    r = z3.IntVal(0)
                    for k in range(w - 1, -1, -1):
                        r = z3.If(y == k, z3.IntVal(1 << k), r)
                    return self.wrap(st, r, t)
                return self.wrap(st, x * f(y), t, '', loc)
            return self.divmod(st, x, f(y))[0]
        raise Unsupported('int op ' + op)

    def bvop(self, st, op, x, y, t, loc, t2):
        s = t['s']
        if op in ('<<', '>>'):
            w = x.sort().size()
            if y.sort().size() < w:
                y = z3.ZeroExt(w - y.sort().size(), y)
            elif y.sort().size() > w:
                y = z3.Extract(w - 1, 0, y)
            self.oblige(st, z3.ULT(y, z3.BitVecVal(w, w)), 'shift amount in range', 'shift', loc)
            if op == '<<':
                return x << y
            return (x >> y) if s else z3.LShR(x, y)
        if op == '+':
            if s:
                self.oblige(st, z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), 'no signed overflow', 'overflow', loc)
            return x + y
        if op == '-':
            if s:
                self.oblige(st, z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)), 'no signed overflow', 'overflow', loc)
            return x - y
        if op == '*':
            if s:
                self.oblige(st, z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)), 'no signed overflow', 'overflow', loc)
            return x * y
        if op in ('/', '%'):
            self.oblige(st, y != 0, 'division by zero', 'div', loc)
            if op == '/':
                return x / y if s else z3.UDiv(x, y)
            return z3.SRem(x, y) if s else z3.URem(x, y)
        if op == '&':
            return x & y
        if op == '|':
            return x | y
        if op == '^':
            return x ^ y
        raise Unsupported('bv op ' + op)

    def cmpop(self, op, x, y, t):
        if op == '==':
            return x == y
        if op == '!=':
            return x != y
        if self.bv and z3.is_bv(x) and not t.get('s'):
            return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](x, y)
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]

    def intcast(self, st, x, ft, tt):
        """integral cast, x of type ft (int/bool) to tt"""
        if ft['k'] == 'bool':
            if tt['k'] == 'bool':
                return x
            return z3.If(x, self.T.ival(1, tt), self.T.ival(0, tt))
        if tt['k'] == 'bool':
            b = None if self.bv else self.boolint(x)
            return b if b is not None else x != self.T.ival(0, ft)
        if self.bv:
            a, b = ft['w'], tt['w']
            if b > a:
                return z3.SignExt(b - a, x) if ft['s'] else z3.ZeroExt(b - a, x)
            if b < a:
                return z3.Extract(b - 1, 0, x)
            return x
        lo, hi = self.T.rng(tt)
        l2, h2 = self.T.rng(ft)
        if lo <= l2 and h2 <= hi:
            return x
        st.assume(self.T.inrange(x, ft)) if not z3.is_int_value(x) else None
        return self.wrap(st, x, tt)

    # ------------------------------------------------------------------ reals
    def fmul(self, x, y):
        def num(z):
            return z3.is_rational_value(z)
        if self.real_mul == 'nra':
            return x * y
        x1, y1 = z3.simplify(x), z3.simplify(y)
        if num(x1) or num(y1):
            return x1 * y1
        return self.fmulf(x, y)
    def fdiv(self, x, y):
        y1 = z3.simplify(y)
        if z3.is_rational_value(y1) and y1.as_fraction() != 0:
            return x / y1
        if self.real_mul == 'nra':
            return x / y
        return self.fdivf(x, y)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st):
        """-> list of (state, value); value is a Loc when e is an lvalue"""
        k = e['e']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s %s' % (k, e.get('what', '')))
        return m(e, st)

    def rv(self, e, st):
        """evaluate to a value (reads lvalues)"""
        out = []
        for s, v in self.eval(e, st):
            if isinstance(v, Loc) and e.get('lv'):
                v = self.read(s, v)
            out.append((s, v))
        return out

    def evals(self, es, st, how=None):
        res = [(st, [])]
        for idx, e in enumerate(es):
            nxt = []
            for s, vs in res:
                for s2, v in self.eval(e, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def one(self, e, st):
        r = self.rv(e, st)
        if len(r) != 1:
            raise Unsupported('forking expression where one value is needed')
        return r[0]

    def e_int(self, e, st):
        t = e['t']
        if t['k'] == 'bool':
            return [(st, z3.BoolVal(int(e['v']) != 0))]
        return [(st, self.T.ival(int(e['v']), t))]

    def e_float(self, e, st):
        # the shortest decimal that denotes this double, as written in the source
        import fractions
        q = fractions.Fraction(repr(float(e['s'])))
        return [(st, z3.Q(q.numerator, q.denominator))]

    def e_str(self, e, st):
        bs = e['v']
        T = self.T
        a = z3.K(T.idxsort(), T.ival(0, CH))
        for i, b in enumerate(bs):
            a = z3.Store(a, T.idxval(i), T.ival(b if b < 128 else b - 256, CH))
        v = Vec(T, CH, T.idxval(len(bs) + 1), a, 'arr')
        r = self.new_root(e['t'], v, st)
        return [(st, Loc(r))]

    def e_null(self, e, st):
        return [(st, Ptr(None))]

    def e_zero(self, e, st):
        return [(st, self.zero(e['t']))]

    def e_this(self, e, st):
        for f in reversed(st.frames):
            if f.this is not None:
                return [(st, Ptr(f.this, z3.BoolVal(False)))]
            if not f.fn.get('lambda'):
                break
        raise Unsupported('this')

    def e_mat(self, e, st):
        out = []
        for s, v in self.rv(e['a'], st):
            if isinstance(v, Loc):          # proxy reference (vector<bool>)
                out.append((s, v))
                continue
            r = self.new_root(e['a']['t'], v, s)
            out.append((s, Loc(r)))
        return out

    def lookup(self, e, st):
        i = e['id']
        for f in reversed(st.frames):
            if i in f.env:
                return f.env[i]
            # only lambdas see their definers' variables: env copied at call
        if 'global' in e:
            return self.global_loc(e['global'], st)
        return None

    def global_loc(self, q, st):
        if q not in self.globals:
            g = self.ir['globals'].get(q)
            if g is None:
                raise Unsupported('global ' + q)
            if 'init' in g and (g.get('const') or q in self.constglobals):
                r = self.rv(g['init'], st)
                v = r[0][1]
                if g['t']['k'] == 'arr' and isinstance(v, Vec) and v.kind != 'arr':
                    v = Vec(self.T, v.ety, v.len, v.arr, 'arr')
            else:
                fs = []
                v = self.fresh(g['t'], 'global_' + q.split('::')[-1], fs)
                self.axioms.extend(f for f in fs)
            root = next(_uid)
            self.rty[root] = g['t']
            self.umemo[root] = v
            self.globals[q] = root
        return Loc(self.globals[q])

    def e_var(self, e, st):
        l = self.lookup(e, st)
        if l is None:
            raise Unsupported('variable ' + e['name'])
        return [(st, l)]

    def e_fnref(self, e, st):
        return [(st, FnV(e['fn']))]

    def deref(self, v):
        if isinstance(v, Ptr):
            if v.loc is None:
                raise Unsupported('null pointer dereference')
            return v.loc
        if isinstance(v, Loc):
            return v
        raise Unsupported('deref of ' + type(v).__name__ + (' ' + v.what if isinstance(v, Opaque) else ''))

    def e_field(self, e, st):
        out = []
        for s, b in self.eval(e['a'], st):
            if e['arrow']:
                if isinstance(b, Loc):
                    b = self.read(s, b)
                b = self.deref(b)
            if isinstance(b, Loc):
                l = b.f(e['f'])
                if e.get('isref'):
                    v = self.read(s, l)
                    l = self.deref(v)
                out.append((s, l))
            elif isinstance(b, Rec):
                r = self.new_root(e['a']['t'], b, s)
                l = Loc(r).f(e['f'])
                if e.get('lv') or True:
                    if e.get('isref'):
                        l = self.deref(self.read(s, l))
                    out.append((s, l if e.get('lv') else self.read(s, l)))
            elif isinstance(b, Opaque):
                out.append((s, Opaque('field')))
            else:
                raise Unsupported('field of ' + type(b).__name__)
        return out

    def e_cast(self, e, st):
        ck = e['ck']
        a = e['a']
        if ck == 'LValueToRValue':
            out = []
            if a['e'] == 'cond' and a['t']['k'] in ('int', 'bool', 'float'):
                a = dict(a)
                a['lv'] = False
                return self.eval(a, st)
            for s, v in self.eval(a, st):
                if isinstance(v, Loc):
                    l = v
                    v = self.read(s, v)
                    if e['t']['k'] == 'int' and e['t']['w'] == 8 and z3.is_expr(v):
                        v = self.through(s, v, self.stored(l), e['t'])
                    if e['t']['k'] == 'int' and not self.bv and z3.is_expr(v) and z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR):
                        s.assume(self.T.inrange(v, e['t']))
                out.append((s, v))
            return out
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'Dynamic', 'LValueBitCast'):
            return self.eval(a, st)
        if ck == 'ToVoid':
            return [(s, None) for s, v in self.eval(a, st)]
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            return [(s, self.intcast(s, v, a['t'], e['t'])) for s, v in self.rv(a, st)]
        if ck == 'IntegralToFloating':
            out = []
            for s, v in self.rv(a, st):
                if self.bv:
                    v = z3.BV2Int(v, a['t'].get('s', False)) if z3.is_bv(v) else v
                if z3.is_bool(v):
                    v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                out.append((s, z3.ToReal(v)))
            return out
        if ck in ('FloatingCast', 'FloatingRealToComplex', 'FloatingComplexCast'):
            return self.rv(a, st)
        if ck == 'FloatingToIntegral':
            out = []
            for s, v in self.rv(a, st):
                r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                if self.bv:
                    raise Unsupported('float to int in bv mode')
                if not self.quick(s, self.T.inrange(r, e['t'])):
                    self.oblige(s, self.T.inrange(r, e['t']), 'float to int in range', 'overflow', e.get('loc', ''))
                out.append((s, r))
            return out
        if ck == 'FloatingToBoolean':
            return [(s, v != 0) for s, v in self.rv(a, st)]
        if ck == 'ArrayToPointerDecay':
            out = []
            for s, l in self.eval(a, st):
                if isinstance(l, Loc):
                    out.append((s, Ptr(l.i(self.T.idxval(0)), z3.BoolVal(False))))
                else:
                    out.append((s, Opaque('array')))
            return out
        if ck == 'NullToPointer':
            return [(st, Ptr(None))]
        if ck == 'PointerToBoolean':
            out = []
            for s, v in self.rv(a, st):
                if isinstance(v, Ptr):
                    out.append((s, z3.Not(v.null)))
                else:
                    raise Unsupported('pointer to bool of ' + type(v).__name__)
            return out
        if ck == 'BitCast':
            return self.rv(a, st)
        raise Unsupported('cast ' + ck)

    def e_un(self, e, st):
        op = e['op']
        a = e['a']
        t = e['t']
        if op == '*':
            return [(s, self.deref(v)) for s, v in self.rv(a, st)]
        if op == '&':
            out = []
            for s, v in self.eval(a, st):
                if isinstance(v, Loc):
                    out.append((s, Ptr(v, z3.BoolVal(False))))
                elif isinstance(v, FnV):
                    out.append((s, v))
                else:
                    raise Unsupported('address of ' + type(v).__name__)
            return out
        if op in ('++', '--'):
            out = []
            for s, l in self.eval(a, st):
                old = self.read(s, l)
                if isinstance(old, Ptr):
                    new = self.ptradd(s, old, 1 if op == '++' else -1)
                elif z3.is_real(old):
                    new = old + 1 if op == '++' else old - 1
                else:
                    at = a['t']
                    ot = at
                    if at['w'] < 32 and not self.bv:
                        x = old + 1 if op == '++' else old - 1
                        new = self.wrap(s, x, at)
                    else:
                        new = self.intop(s, '+' if op == '++' else '-', old, self.T.ival(1, at), at, e.get('loc', ''))
                self.write(s, l, new)
                out.append((s, old if e['post'] else (l if e.get('lv') else new)))
            return out
        out = []
        for s, v in self.rv(a, st):
            if op == '!':
                r = z3.Not(v)
            elif op == '-':
                if z3.is_real(v):
                    r = -v
                elif self.bv:
                    r = -v
                else:
                    r = self.wrap(s, -v, t, 'op', e.get('loc', ''), 'sub')
            elif op == '+':
                r = v
            elif op == '~':
                if self.bv:
                    r = ~v
                else:
                    r = self.wrap(s, -v - 1, t)
            else:
                raise Unsupported('unary ' + op)
            out.append((s, r))
        return out

    def ptradd(self, st, p, n):
        if not isinstance(p, Ptr) or p.loc is None or not p.loc.path or p.loc.path[-1][0] != 'i':
            raise Unsupported('pointer arithmetic')
        idx = p.loc.path[-1][1]
        n = n if not isinstance(n, int) else self.T.idxval(n)
        if self.bv and n.sort().size() != 64:
            n = z3.SignExt(64 - n.sort().size(), n)
        return Ptr(Loc(p.loc.root, p.loc.path[:-1] + (('i', z3.simplify(idx + n)),)), p.null, p.kind)

    def sameloc(self, a, b):
        if a.root != b.root or len(a.path) != len(b.path):
            return None
        return self.samepath(a.path, b.path)
    def samepath(self, p, q):
        c = []
        for (k1, x), (k2, y) in zip(p, q):
            if k1 != k2:
                return None
            if k1 == 'f':
                if x != y:
                    return None
            else:
                c.append(x == y)
        return z3.And(*c) if c else z3.BoolVal(True)

    def ptrcmp(self, s, op, x, y):
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            raise Unsupported('compare opaque pointers')
        if x.loc is None or y.loc is None:
            if op in ('==', '!='):
                o = x if y.loc is None else y
                if x.loc is None and y.loc is None:
                    r = z3.BoolVal(True)
                else:
                    r = o.null
                return r if op == '==' else z3.Not(r)
            raise Unsupported('null order')
        if x.loc.root == y.loc.root and len(x.loc.path) == len(y.loc.path) and x.loc.path and x.loc.path[-1][0] == 'i':
            pre = self.samepath(x.loc.path[:-1], y.loc.path[:-1])
            if pre is not None and z3.is_true(z3.simplify(pre)):
                i, j = x.loc.path[-1][1], y.loc.path[-1][1]
                return self.cmpop(op, i, j, SZ)
        if op in ('==', '!='):
            r = self.sameloc(x.loc, y.loc)
            if r is None:
                r = z3.BoolVal(False)
            return r if op == '==' else z3.Not(r)
        raise Unsupported('pointer order')

    def guarded(self, e, st, cond):
        """evaluate e under cond without forking if it is pure and single-valued.
        returns (value) or None if impure"""
        s2 = st.fork()
        s2.assume(cond)
        n = len(self.obls)
        log0 = set(s2.log)
        roots0 = set(s2.store)
        rs = self.rv(e, s2)
        if len(rs) == 1:
            s3, v = rs[0]
            dirty = any(r in roots0 for (r, _, _) in (s3.log - log0)) or any(s3.store.get(r) is not st.store.get(r) for r in roots0)
            if not dirty and (isinstance(v, z3.ExprRef)):
                # keep facts learnt under the guard
                for f in s3.pc[len(st.pc):]:
                    if f.get_id() != cond.get_id() and not z3.is_true(f):
                        st.assume(z3.Implies(cond, f))
                return v
        if len(rs) == 0:
            return None
        return ('fork', rs)

    def e_bin(self, e, st):
        op = e['op']
        a, b = e['a'], e['b']
        if op in ('&&', '||'):
            out = []
            for s, x in self.rv(a, st):
                xs = z3.simplify(x)
                if z3.is_true(xs) or z3.is_false(xs):
                    if z3.is_true(xs) == (op == '||'):
                        out.append((s, z3.BoolVal(op == '||')))
                        continue
                    out.extend(self.rv(b, s))
                    continue
                g = x if op == '&&' else z3.Not(x)
                r = self.guarded(b, s, g)
                if r is None:
                    s1 = s.fork()
                    s1.assume(z3.Not(g))
                    out.append((s1, z3.BoolVal(op == '||')))
                elif isinstance(r, tuple):
                    s1 = s.fork()
                    s1.assume(z3.Not(g))
                    if not self._infeasible(s1):
                        out.append((s1, z3.BoolVal(op == '||')))
                    for s2, y in r[1]:
                        if not self._infeasible(s2):
                            out.append((s2, y))
                else:
                    out.append((s, z3.And(x, r) if op == '&&' else z3.Or(x, r)))
            return out
        if op == ',':
            out = []
            for s, _ in self.eval(a, st):
                out.extend(self.eval(b, s))
            return out
        out = []
        for s, x in self.rv(a, st):
            for s2, y in self.rv(b, s):
                out.append((s2, self.binop(s2, op, x, y, a['t'], b['t'], e['t'], e.get('loc', ''))))
        return out

    def binop(self, s, op, x, y, ta, tb, t, loc):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return self.ptrcmp(s, op, x, y)
            if op == '-' and isinstance(y, Ptr):
                if x.loc.root == y.loc.root and x.loc.path[:-1] == y.loc.path[:-1]:
                    return x.loc.path[-1][1] - y.loc.path[-1][1]
                raise Unsupported('pointer difference')
            if op in ('+', '-'):
                p, n = (x, y) if isinstance(x, Ptr) else (y, x)
                return self.ptradd(s, p, n if op == '+' else -n)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            raise Unsupported('binary op on opaque ' + op)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if z3.is_bool(x):
                if op == '==':
                    return x == y
                if op == '!=':
                    return x != y
            return self.cmpop(op, x, y, ta)
        if z3.is_real(x) or z3.is_real(y):
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return self.fmul(x, y)
            if op == '/':
                return self.fdiv(x, y)
            raise Unsupported('real op ' + op)
        return self.intop(s, op, x, y, t, loc, tb)

    def e_assign(self, e, st):
        out = []
        for s, y in self.rv(e['b'], st):
            for s2, l in self.eval(e['a'], s):
                if isinstance(l, Opaque):
                    out.append((s2, l))
                    continue
                if e['a']['t']['k'] == 'int' and e['a']['t']['w'] == 8 and z3.is_expr(y):
                    y = self.through(s2, y, e['a']['t'], self.stored(l))
                self.write(s2, l, y)
                out.append((s2, l))
        return out

    def stored(self, l):
        """the declared type of the object at a location, None when unknown"""
        t = self.rty.get(l.root)
        for k, x in l.path:
            if t is None:
                return None
            if k == 'i':
                t = self.T.ety(t) if self.T.isvec(t) else None
            else:
                t = next((ft for n, ft, _ in self.T.rfields(t) if n == x), None) if t['k'] == 'rec' else None
        return t
    def through(self, st, v, ft, tt):
        """a char seen through a pointer to unsigned char, or the reverse"""
        if self.bv or ft is None or tt is None or ft['k'] != 'int' or tt['k'] != 'int' or (ft['w'], ft['s']) == (tt['w'], tt['s']):
            return v
        if ft['w'] != tt['w']:
            raise Unsupported('access through a pointer of another width')
        return self.intcast(st, v, ft, tt)

    def e_cassign(self, e, st):
        out = []
        op = e['op']
        ta, tb = e['a']['t'], e['b']['t']
        for s, y in self.rv(e['b'], st):
            for s2, l in self.eval(e['a'], s):
                x = self.read(s2, l)
                if isinstance(x, Ptr):
                    r = self.ptradd(s2, x, y if op == '+' else -y)
                else:
                    ct = e['ct']
                    lt = e['lt']
                    xc = self.conv(s2, x, ta, lt)
                    r = self.binop(s2, op, xc, y, lt, tb, ct, e.get('loc', ''))
                    r = self.conv(s2, r, ct, ta)
                self.write(s2, l, r)
                out.append((s2, l))
        return out

    def conv(self, st, x, ft, tt):
        if ft['k'] == tt['k'] == 'float':
            return x
        if ft['k'] in ('int', 'bool') and tt['k'] in ('int', 'bool'):
            return self.intcast(st, x, ft, tt)
        if ft['k'] == 'int' and tt['k'] == 'float':
            return z3.ToReal(x)
        if ft['k'] == 'float' and tt['k'] == 'int':
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        return x

    def e_cond(self, e, st):
        out = []
        for s, c in self.rv(e['c'], st):
            cs = z3.simplify(c)
            if z3.is_true(cs):
                out.extend((self.eval if e.get('lv') else self.rv)(e['a'], s))
                continue
            if z3.is_false(cs):
                out.extend((self.eval if e.get('lv') else self.rv)(e['b'], s))
                continue
            if e['t']['k'] != 'void' and not e.get('lv'):
                r1 = self.guarded(e['a'], s, c)
                if r1 is not None and not isinstance(r1, tuple):
                    r2 = self.guarded(e['b'], s, z3.Not(c))
                    if r2 is not None and not isinstance(r2, tuple):
                        out.append((s, self.named(s, z3.If(c, r1, r2))))
                        continue
            s1, s2 = s.fork(), s
            s1.assume(c)
            s2.assume(z3.Not(c))
            ev = self.eval if e.get('lv') or e['t']['k'] == 'void' else self.rv
            if not self._infeasible(s1):
                out.extend(ev(e['a'], s1))
            if not self._infeasible(s2):
                out.extend(ev(e['b'], s2))
        return out

    def index_ok(self, st, idx, ln, what, loc):
        i = self.T.idxterm(idx)
        if self.bv:
            self.oblige(st, z3.ULT(i, ln), what, 'bounds', loc)
        else:
            self.oblige(st, z3.And(i >= 0, i < ln), what, 'bounds', loc)

    def e_sub(self, e, st):
        out = []
        for s, p in self.rv(e['a'], st):
            for s2, i in self.rv(e['b'], s):
                if self.bv and z3.is_bv(i) and i.sort().size() < 64:
                    w = i.sort().size()
                    i = z3.SignExt(64 - w, i) if e['b']['t'].get('s') else z3.ZeroExt(64 - w, i)
                q = self.ptradd(s2, p, i) if isinstance(p, Ptr) else None
                if q is None:
                    raise Unsupported('subscript of ' + type(p).__name__ + (' ' + p.what if isinstance(p, Opaque) else ''))
                base = self.read(s2, Loc(q.loc.root, q.loc.path[:-1]))
                if isinstance(base, Vec):
                    self.index_ok(s2, q.loc.path[-1][1], base.len, 'array index in bounds', e.get('loc', ''))
                out.append((s2, q.loc))
        return out

    def e_new(self, e, st):
        if 'n' in e:
            out = []
            for s, n in self.rv(e['n'], st):
                fs = []
                v = self.fresh(vec_t(e['at']), 'newarr', fs)
                s.assume(*fs)
                n = self.T.idxterm(n)
                v = v.with_(ln=n)
                r = self.new_root(vec_t(e['at']), v, s)
                out.append((s, Ptr(Loc(r).i(self.T.idxval(0)), z3.BoolVal(False))))
            return out
        out = []
        if 'init' in e:
            for s, v in self.rv(e['init'], st):
                r = self.new_root(e['at'], v, s)
                out.append((s, Ptr(Loc(r), z3.BoolVal(False))))
            return out
        fs = []
        v = self.fresh(e['at'], 'new', fs)
        st.assume(*fs)
        r = self.new_root(e['at'], v, st)
        return [(st, Ptr(Loc(r), z3.BoolVal(False)))]

    def e_delete(self, e, st):
        return [(s, None) for s, v in self.rv(e['a'], st)]

    class Throw(Exception):
        pass

    def e_throw(self, e, st):
        st.trace = st.trace + (('throw', e.get('loc', '')),)
        self.thrown.append((st, e.get('loc', '')))
        return []

    def e_init(self, e, st):
        t = e['t']
        T = self.T
        if t['k'] == 'arr':
            out = []
            for s, vs in self.revals(e['args'], st):
                et = t['of']
                if 'filler' in e:
                    base = self.zpack(et)
                else:
                    base = self.zpack(et)
                a = z3.K(T.idxsort(), base)
                for i, v in enumerate(vs):
                    a = z3.Store(a, T.idxval(i), T.pack(v, et))
                out.append((s, Vec(T, et, T.idxval(t['n']), a, 'arr')))
            return out
        if t['k'] == 'rec' and not T.isvec(t) and not T.isreal(t):
            fs = T.rfields(t)
            out = []
            for s, vs in self.revals(e['args'], st):
                out.append((s, Rec(t, {n: v for (n, _, _), v in zip(fs, vs)})))
            return out
        if len(e['args']) == 1:
            return self.rv(e['args'][0], st)
        if len(e['args']) == 0:
            return [(st, self.zero(t))]
        raise Unsupported('init list')

    def e_stdil(self, e, st):
        return self.rv(e['a'], st)

    def revals(self, es, st):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.rv(e, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def e_lambda(self, e, st):
        caps = []
        for c in e['caps']:
            if c.get('this'):
                continue
            if c['byref']:
                (st, l), = self.eval(c['init'], st)
            else:
                rr = self.rv(c['init'], st)
                if len(rr) != 1:
                    raise Unsupported('lambda capture')
                st, v = rr[0]
                r = self.new_root(c['init']['t'], v, st)
                l = Loc(r)
            caps.append((c['var'], c['name'], l))
        this = None
        for f in reversed(st.frames):
            if f.this is not None:
                this = f.this
                break
        return [(st, Closure(e['body'], caps, this))]

    # ------------------------------------------------------------------ calls
    def as_loc(self, st, v, t):
        if isinstance(v, Loc):
            return v
        r = self.new_root(t, v, st)
        return Loc(r)

    def e_ctor(self, e, st):
        fn = e['fn']
        t = e['t']
        args = e['args']
        if fn.get('defcopy'):
            return self.rv(args[0], st)
        r = self.models.ctor(e, st)
        if r is not None:
            return r
        if fn.get('defdef') and fn['id'] not in self.funcs:
            try:
                v = self.default_object(t, st)
            except Unsupported:
                v = Opaque(t.get('full', '?'))
            return [(st, v)]
        f = self.funcs.get(fn['id'])
        if f is None or (f.get('body') is None and not f.get('defaulted')):
            if fn['cls'].get('n', '').startswith('std::') or not self.repo_rec(t):
                res = []
                for s, _ in self.evals(args, st):
                    res.append((s, Opaque(t.get('full', '?'))))
                return res
            raise Unsupported('ctor without body ' + fn['id'])
        out = []
        for s, vs in self.evals(args, st):
            try:
                v0 = self.uninit_object(t, s)
            except Unsupported:
                v0 = Opaque(t['full'])
            root = self.new_root(t, v0, s)
            sp = next((key for key in self.specs if key in (fn['id'], fn['q'], fn['id'].split('(')[0])), None)
            if sp is not None:
                self.used_specs.add(sp)
                for s2, _ in self.specs[sp](self, e, s, Loc(root), vs):
                    out.append((s2, self.read(s2, Loc(root))))
                continue
            for s2, _ in self.call_body(f, s, Loc(root), vs, [a for a in args], fn):
                out.append((s2, self.read(s2, Loc(root))))
        return out

    def repo_rec(self, t):
        r = self.ir['records'].get(t.get('full', ''), {})
        return r.get('repo') or r.get('lambda')

    def uninit_object(self, t, st):
        fs = []
        v = self.fresh_rec_for_ctor(t, fs)
        st.assume(*fs)
        return v

    def fresh_rec_for_ctor(self, t, facts):
        """object before its constructor: class members empty, scalars arbitrary"""
        d = {}
        for n, ft, init in self.T.rfields(t):
            if ft['k'] == 'ref':
                d[n] = Ptr(None)
            elif ft['k'] in ('int', 'bool', 'float', 'arr'):
                d[n] = self.fresh(ft, n, facts)
            elif ft['k'] == 'ptr':
                d[n] = Opaque('uninitialised pointer')
            else:
                if ft['k'] == 'rec' and not self.T.isvec(ft) and not self.T.isreal(ft) and not self.T.ismap(ft):
                    try:
                        d[n] = self.fresh_rec_for_ctor(ft, facts)
                    except Unsupported:
                        d[n] = Opaque(ft['full'])
                else:
                    d[n] = self.zero(ft)
        return Rec(t, d)

    def default_object(self, t, st):
        fs = []
        d = {}
        for n, ft, init in self.T.rfields(t):
            if init is not None:
                rr = self.rv(init, st)
                d[n] = rr[0][1]
            elif ft['k'] in ('int', 'bool', 'float', 'arr'):
                d[n] = self.fresh(ft, n, fs)
            else:
                d[n] = self.zero(ft)
        st.assume(*fs)
        return Rec(t, d)

    def e_call(self, e, st):
        fn = e['fn']
        self.tick()
        # virtual dispatch on the known dynamic class is resolved below
        if fn['nm'] == '__assert_fail':
            self.oblige(st, z3.BoolVal(False), 'assertion in the code holds', 'assert', e.get('loc', ''))
            return []
        has_obj = 'obj' in e
        res = []
        if has_obj:
            for s, o in self.eval(e['obj'], st):
                if e.get('arrow'):
                    if isinstance(o, Loc):
                        o = self.read(s, o)
                    if isinstance(o, Opaque):
                        pass
                    else:
                        o = self.deref(o)
                for s2, vs in self.evals(e['args'], s):
                    res.extend(self.call(e, fn, s2, o, vs))
        else:
            for s2, vs in self.evals(e['args'], st):
                res.extend(self.call(e, fn, s2, None, vs))
        return res

    def e_icall(self, e, st):
        out = []
        for s, f in self.rv(e['f'], st):
            for s2, vs in self.evals(e['args'], s):
                if isinstance(f, FnV):
                    out.extend(self.call(dict(e), f.fn, s2, None, vs))
                elif isinstance(f, Closure):
                    out.extend(self.call_closure(f, s2, vs, e['args'], e))
                else:
                    raise Unsupported('indirect call')
        return out

    def call_closure(self, c, st, vs, argexprs, e):
        f = self.funcs[c.fn]
        return self.call_body(f, st, c.this, vs, argexprs, {'id': c.fn}, closure=c)

    def call(self, e, fn, st, obj, vs):
        # spec?
        for key, sp in self.specs.items():
            if key == fn["id"] or key == fn["q"] or key == fn["id"].split("(")[0]:
                # a recursive function: its own calls go through its contract, the outermost one is the body under proof
                if getattr(sp, 'recursive', False) and not any(x.fn['id'] == fn['id'] for x in st.frames):
                    continue
                self.used_specs.add(key)
                return sp(self, e, st, obj, vs)
        if isinstance(obj, Closure) or (isinstance(obj, Loc) and fn['nm'] == 'operator()' and isinstance(self.read(st, obj), Closure)):
            c = obj if isinstance(obj, Closure) else self.read(st, obj)
            return self.call_closure(c, st, vs, e['args'], e)
        for pat in self.opaque_fns:
            if pat == fn['q'] or pat == fn['nm']:
                self.assumed.add('opaque function ' + fn['q'])
                return [(st, self.opaque_result(fn, st))]
        r = self.models.call(e, fn, st, obj, vs)
        if r is not None:
            return r
        f = self.funcs.get(fn['id'])
        if fn.get('virt') and not e.get('qual'):
            f2 = self.devirtualize(fn, st, obj)
            if f2 is not None:
                f = f2
        if fn.get('defassign') and (f is None or f.get('body') is None):
            v = vs[0]
            if isinstance(v, Loc):
                v = self.read(st, v)
            self.write(st, obj, v)
            return [(st, obj)]
        if f is None or f.get('body') is None:
            if f is not None and f.get('defaulted'):
                return [(st, None)]
            raise Unsupported('call to %s has neither body, model nor contract' % fn['id'])
        if obj is not None and not isinstance(obj, Loc) and not fn.get('static'):
            obj = self.as_loc(st, obj, e['obj']['t'])
        return self.call_body(f, st, obj, vs, e['args'], fn)

    def devirtualize(self, fn, st, obj):
        if not isinstance(obj, Loc):
            return None
        v = self.read(st, obj)
        if not isinstance(v, Rec):
            return None
        cls = v.cls['full']
        # search functions of class cls overriding fn
        def overrides(f, target, depth=0):
            if f['id'] == target:
                return True
            for o in f.get('overrides', []):
                if o == target:
                    return True
                of = self.funcs.get(o)
                if of and depth < 5 and overrides(of, target, depth + 1):
                    return True
            return False
        for f in self.funcs.values():
            if f.get('cls', {}).get('full') == cls and f['nm'] == fn['nm'] and overrides(f, fn['id']):
                return f
        return None

    def opaque_result(self, fn, st):
        t = fn['rt']
        if t['k'] == 'ref':
            t = t['to']
            fs = []
            v = self.fresh(t, 'opq', fs)
            st.assume(*fs)
            return Loc(self.new_root(t, v, st))
        fs = []
        v = self.fresh(t, 'opq', fs)
        st.assume(*fs)
        return v

    MAXDEPTH = 40

    def call_body(self, f, st, this, vs, argexprs, fn, closure=None):
        """inline a function body -> list of (state, value)"""
        if len(st.frames) > self.MAXDEPTH or sum(1 for x in st.frames if x.fn['id'] == f['id']) > 3:
            raise Unsupported('recursion ' + f['id'])
        if len(st.frames) >= 1:
            self.inlined.add(f['id'])
        fr = Frame(f, this)
        if closure:
            for vid, name, l in closure.caps:
                fr.env[vid] = l
                fr.names[name] = l
        for i, p in enumerate(f['params']):
            if i >= len(vs):
                raise Unsupported('missing argument')
            v = vs[i]
            if p['t']['k'] == 'ref':
                if not isinstance(v, Loc):
                    ae = argexprs[i] if i < len(argexprs) else None
                    if isinstance(v, Ptr) and not (p['t']['to']['k'] == 'ptr' or self.T.isiter(p['t']['to'])):
                        v = self.deref(v)
                    else:
                        v = Loc(self.new_root(p['t']['to'], v, st))
                l = v
            else:
                if isinstance(v, Loc):
                    v = self.read(st, v)
                l = Loc(self.new_root(p['t'], v, st))
            fr.env[p['id']] = l
            if p['name']:
                fr.names[p['name']] = l
        keys = set(st.store)
        st.frames.append(fr)
        depth = len(st.frames)
        saved = self.thrown
        self.thrown = []
        states = [st]
        if f.get('ctor'):
            states = self.run_inits(f, st)
        outs = []
        for s in states:
            if f['body'] is None:
                outs.append((s, NEXT))
            else:
                outs.extend(self.exec(f['body'], s))
        thr = self.thrown
        self.thrown = saved
        for s, l in thr:
            s.frames = s.frames[:depth - 1]
            self.thrown.append((s, l))
        res = []
        rt = f['rt']
        for s, o in outs:
            s.frames = s.frames[:depth - 1]
            if o[0] == 'return':
                v = o[1]
                if rt['k'] != 'ref' and isinstance(v, Loc):
                    v = self.read(s, v)
                res.append((s, v))
            elif o[0] == 'next':
                if rt['k'] not in ('void',) and not f.get('ctor') and not f.get('dtor'):
                    # falling off the end of a value-returning function
                    self.oblige(s, z3.BoolVal(False), 'control reaches end of non-void function', 'noreturn', f['loc'])
                    continue
                res.append((s, None))
            else:
                raise Unsupported('outcome ' + o[0])
        return self.merge(res, keys, f.get('ctor')) if rt['k'] == 'void' else res

    def run_inits(self, f, st):
        states = [st]
        this = st.fr.this
        done = set()
        for init in f.get('inits', []):
            nxt = []
            for s in states:
                a = init['a']
                if 'f' in init:
                    done.add(init['f'])
                    cur = self.read(s, this)
                    isref = False
                    if isinstance(cur, Rec):
                        for n, ft, _ in self.T.rfields(cur.cls):
                            if n == init['f'] and ft['k'] == 'ref':
                                isref = True
                    if isref:
                        for s2, v in self.eval(a, s):
                            if not isinstance(v, Loc):
                                v = self.as_loc(s2, v, a['t'])
                            self.write(s2, this.f(init['f']), Ptr(v, z3.BoolVal(False)))
                            nxt.append(s2)
                    else:
                        for s2, v in self.rv(a, s):
                            self.write(s2, this.f(init['f']), v)
                            nxt.append(s2)
                elif 'base' in init or init.get('deleg'):
                    # constructor of a base subobject runs on the same (flattened) object
                    if a['e'] != 'ctor':
                        nxt.append(s)
                        continue
                    fn2 = a['fn']
                    f2 = self.funcs.get(fn2['id'])
                    if f2 is None or (f2['body'] is None and not f2.get('defaulted')):
                        nxt.append(s)
                        continue
                    for s2, vs in self.evals(a['args'], s):
                        for s3, _ in self.call_body(f2, s2, this, vs, a['args'], fn2):
                            nxt.append(s3)
                else:
                    raise Unsupported('ctor initialiser')
            states = nxt
        return states

    # ------------------------------------------------------------------ statements
    thrown = []

    def exec(self, s, st):
        k = s['s']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s %s at %s' % (k, s.get('what', ''), s.get('loc', '')))
        return m(s, st)

    def s_null(self, s, st):
        return [(st, NEXT)]

    def s_expr(self, s, st):
        return [(x, NEXT) for x, _ in self.eval(s['a'], st)]

    def seq(self, stmts, st):
        cur = [st]
        outs = []
        for b in stmts:
            nxt = []
            for c in cur:
                for s2, o in self.exec(b, c):
                    if o is NEXT:
                        nxt.append(s2)
                    else:
                        outs.append((s2, o))
            cur = nxt
            if not cur:
                break
        self.paths = max(self.paths, len(cur) + len(outs))
        if len(cur) + len(outs) > 6000:
            raise Unsupported('path explosion')
        return [(c, NEXT) for c in cur] + outs

    def s_block(self, s, st):
        return self.seq(s['b'], st)

    def s_decl(self, s, st):
        cur = [st]
        for d in s['d']:
            nxt = []
            for c in cur:
                nxt.extend(self.vardecl(d, c))
            cur = nxt
        return [(c, NEXT) for c in cur]

    def vardecl(self, d, st):
        t = d['t']
        out = []
        if d.get('static'):
            # function-local static: constant if its type is const and its initialiser closed
            if not t.get('c'):
                fs = []
                v = self.fresh(t, d['name'], fs)
                st.assume(*fs)
                r = self.new_root(t, v, st)
                st.fr.env[d['id']] = Loc(r)
                st.fr.names[d['name']] = Loc(r)
                return [st]
        if 'init' in d:
            if t['k'] == 'ref':
                for s, v in self.eval(d['init'], st):
                    if not isinstance(v, Loc):
                        v = self.as_loc(s, v, t['to'])
                    s.fr.env[d['id']] = v
                    s.fr.names[d['name']] = v
                    out.append(s)
                return out
            for s, v in self.rv(d['init'], st):
                r = self.new_root(t, v, s)
                s.fr.env[d['id']] = Loc(r)
                s.fr.names[d['name']] = Loc(r)
                out.append(s)
            return out
        fs = []
        if t['k'] == 'ptr':
            v = Opaque('uninitialised pointer')
        else:
            v = self.fresh(t, d['name'], fs)
        st.assume(*fs)
        r = self.new_root(t, v, st)
        st.fr.env[d['id']] = Loc(r)
        st.fr.names[d['name']] = Loc(r)
        return [st]

    def s_if(self, s, st):
        states = [st]
        keys = set(st.store)
        if 'init' in s:
            states = [x for x, _ in self.exec(s['init'], st)]
        if 'var' in s:
            states = [y for x in states for y in self.vardecl(s['var'], x)]
        out = []
        for s0 in states:
            for s1, c in self.rv(s['c'], s0):
                cs = z3.simplify(c)
                if not z3.is_false(cs):
                    a = s1.fork()
                    a.assume(c)
                    if z3.is_true(cs) or not self._infeasible(a):
                        a.trace = a.trace + (('if', s.get('loc', ''), True),)
                        out.extend(self.exec(s['a'], a))
                if not z3.is_true(cs):
                    b = s1
                    b.assume(z3.Not(c))
                    if z3.is_false(cs) or not self._infeasible(b):
                        b.trace = b.trace + (('if', s.get('loc', ''), False),)
                        if 'b' in s:
                            out.extend(self.exec(s['b'], b))
                        else:
                            out.append((b, NEXT))
        return self.merge(out, keys)

    def merge(self, outs, keys, keepall=False):
        """join states that differ only in what is known about them (the facts common to both are kept)"""
        if len(outs) < 2:
            return outs
        res = []
        for s, o in outs:
            if not (o is NEXT or o == ('return', None) or o is None):
                res.append((s, o))
                continue
            for i, (m, mo) in enumerate(res):
                if (mo is o or mo == o) and len(m.frames) == len(s.frames) and self.samestore(m, s, keys):
                    ids = s.pcset
                    m2 = m
                    keep = [f for f in m.pc if f.get_id() in ids]
                    kid = set(f.get_id() for f in keep)
                    if (keepall or o == ('return', None)) and any(has_quant(f) for x in (m, s) for f in x.pc if f.get_id() not in kid):
                        continue        # the paths end here: keep what each of them knows
                    da = [f for f in m.pc if f.get_id() not in kid and not has_quant(f)]
                    db = [f for f in s.pc if f.get_id() not in kid and not has_quant(f)]
                    if da and db:
                        either = z3.simplify(z3.Or(z3.And(*da), z3.And(*db)))
                        if not z3.is_true(either):
                            keep.append(either)
                    m2.pc = keep
                    m2.pcset = set(f.get_id() for f in keep)
                    m2.log = m.log | s.log
                    break
            else:
                res.append((s, o))
        return res

    def samestore(self, a, b, keys):
        if keys is not None:
            ks = keys
        else:
            ks = set(a.store) | set(b.store)
        for k in ks:
            x, y = a.store.get(k), b.store.get(k)
            if x is y:
                continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y):
                continue
            return False
        return True

    def s_return(self, s, st):
        if 'a' not in s:
            return [(st, ('return', None))]
        return [(x, ('return', v)) for x, v in self.eval(s['a'], st)]

    def s_break(self, s, st):
        return [(st, BREAK)]

    def s_continue(self, s, st):
        return [(st, CONT)]

    def s_try(self, s, st):
        saved = self.thrown
        self.thrown = []
        depth = len(st.frames)
        outs = self.exec(s['b'], st)
        thr = self.thrown
        self.thrown = saved
        for ts, l in thr:
            ts.frames = ts.frames[:depth]
            h = s['h'][0]
            if 'var' in h and h['t']['k'] == 'ref':
                r = self.new_root(h['t']['to'], Opaque('exception'), ts)
                ts.fr.env[h['var']] = Loc(r)
            outs.extend(self.exec(h['b'], ts))
        return outs

    def s_switch(self, s, st):
        items = []
        def flat(x):
            labels = []
            while x['s'] in ('case', 'default'):
                labels.append(x)
                x = x['b']
            items.append((labels, x))
        body = s['b']['b'] if s['b']['s'] == 'block' else [s['b']]
        for b in body:
            flat(b)
        out = []
        for s1, c in self.rv(s['c'], st):
            neg = []
            starts = []
            dflt = None
            for i, (labels, _) in enumerate(items):
                conds = []
                for l in labels:
                    if l['s'] == 'default':
                        dflt = i
                    else:
                        v = self.one(l['v'], s1)[1]
                        conds.append(c == v)
                if conds:
                    starts.append((i, z3.Or(*conds)))
                    neg.append(z3.Not(z3.Or(*conds)))
            alls = starts + [(dflt if dflt is not None else len(items), z3.And(*neg) if neg else z3.BoolVal(True))]
            for i, cond in alls:
                if z3.is_false(z3.simplify(cond)):
                    continue
                a = s1.fork()
                a.assume(cond)
                if self._infeasible(a):
                    continue
                for s2, o in self.seq([x for _, x in items[i:]], a):
                    out.append((s2, NEXT if o is BREAK else o))
        return out

    # ------------------------------------------------------------------ loops
    def s_for(self, s, st):
        states = [st]
        if 'init' in s:
            states = [x for x, _ in self.exec(s['init'], st)]
        out = []
        for x in states:
            out.extend(self.loop(s, x, s.get('c'), s['b'], s.get('inc'), False))
        return out

    def s_while(self, s, st):
        return self.loop(s, st, s['c'], s['b'], None, False)

    def s_do(self, s, st):
        return self.loop(s, st, s['c'], s['b'], None, True)

    def s_range(self, s, st):
        states = [st]
        for k in ('range', 'begin', 'end'):
            states = [y for x in states for y, _ in self.exec(s[k], x)]
        out = []
        body = {'s': 'block', 'b': [s['var'], s['b']], 'loc': s['loc']}
        for x in states:
            out.extend(self.loop(s, x, s['c'], body, s['inc'], False))
        return out

    def iterate(self, st, cond, body, inc, dowhile):
        """one iteration from head state st: returns (ends, exits, others)"""
        ends, exits, others = [], [], []
        if dowhile:
            conds = [(st, z3.BoolVal(True))]
        elif cond is None:
            conds = [(st, z3.BoolVal(True))]
        else:
            conds = self.rv(cond, st)
        for s, c in conds:
            cs = z3.simplify(c)
            if not z3.is_true(cs):
                x = s.fork()
                x.assume(z3.Not(c))
                if not self._infeasible(x):
                    exits.append(x)
            if z3.is_false(cs):
                continue
            s.assume(c)
            if self._infeasible(s):
                continue
            s.trace = s.trace + (('iter',),)
            for s2, o in self.exec(body, s):
                if o is NEXT or o is CONT:
                    if dowhile:
                        for s3, c3 in self.rv(cond, s2):
                            x = s3.fork()
                            x.assume(z3.Not(c3))
                            if not self._infeasible(x):
                                exits.append(x)
                            s3.assume(c3)
                            if not self._infeasible(s3):
                                ends.append(s3)
                    elif inc is not None:
                        for s3, _ in self.eval(inc, s2):
                            ends.append(s3)
                    else:
                        ends.append(s2)
                elif o is BREAK:
                    exits.append(s2)
                else:
                    others.append((s2, o))
        return ends, exits, others

    def loopkey(self, s, st):
        return (tuple(f.fn['id'] for f in st.frames), id(s), st.trace)

    def loop(self, s, st, cond, body, inc, dowhile):
        self.tick()
        if self.unroll and not self.dry:
            return self.loop_unroll(s, st, cond, body, inc, dowhile)
        # constant-trip loops: try full unrolling when the condition is decided concretely
        u = self.try_concrete(s, st, cond, body, inc, dowhile)
        if u is not None:
            return u
        roots0 = set(st.store)
        nfr = len(st.frames)
        # 1. write set, by dry runs
        W = set()
        self.dry += 1
        emit0 = self.emit
        self.emit = False
        saved = self.thrown
        try:
            for _ in range(6):
                h = self.havoc(st, W)
                self.thrown = []
                h.log = set()
                ends, exits, others = self.iterate(h, cond, body, inc, dowhile)
                W2 = set(W)
                for x in ends + exits + [o[0] for o in others] + [t[0] for t in self.thrown]:
                    for (r, p, whole) in x.log:
                        if r in roots0 or r in self.umemo:
                            W2.add((r, p, whole))
                if W2 == W:
                    break
                W = W2
            else:
                raise Unsupported('write set does not converge')
        finally:
            self.dry -= 1
            self.emit = emit0
            self.thrown = saved
        W = self.normw(W)
        if self.dry:
            # inside somebody else's dry run: just havoc and take one iteration
            h = self.havoc(st, W)
            h.log |= W
            ends, exits, others = self.iterate(h, cond, body, inc, dowhile)
            return [(x, NEXT) for x in exits] + others
        # 2. candidates
        head = self.havoc(st, W)
        head.log |= W
        env0 = st
        cands = self.candidates(s, st, head, W, cond, nfr)
        cands = [c for c in cands]
        # initialisation
        good = []
        key = self.loopkey(s, st)
        memo = self.inv_memo.get(key)
        for c in cands:
            if memo is not None and c.name not in memo:
                continue
            t0 = self.cterm(c, st, st)
            if t0 is None:
                continue
            th = self.cterm(c, st, head)
            if th is None:
                continue
            good.append((c, th, t0))
        ok = []
        if good:
            allt = [t0 for _, _, t0 in good]
            if self.hprove(st.pc, z3.And(*allt)) :
                ok = good
            else:
                for g in good:
                    if self.hprove(st.pc, g[2], tries=g[0].tries):
                        ok.append(g)
                    elif self.verbose:
                        print('   not initially:', s.get('loc'), g[0].name, file=sys.stderr)
                        if os.environ.get('VC_DUMP') == 'init ' + g[0].name:
                            ss = z3.SimpleSolver()
                            ss.add(*self.axioms); ss.add(*st.pc); ss.add(z3.Not(g[2]))
                            open('/tmp/w/dump.smt2', 'w').write(ss.to_smt2())
        good = ok
        # 3. Houdini
        emit0 = self.emit
        saved = self.thrown
        nobl = len(self.obls)
        rounds = 0
        ninv = len(self.inv_obls)
        while True:
            rounds += 1
            self.emit = False
            self.thrown = []
            h = head.fork()
            h.assume(*[th for _, th, _ in good])
            ends, exits, others = self.iterate(h, cond, body, inc, dowhile)
            drop = set()
            for x in ends:
                x.frames = x.frames[:nfr]
                todo = []
                for n, (c, th, _) in enumerate(good):
                    if n in drop:
                        continue
                    t = self.cterm(c, st, x)
                    if t is None:
                        drop.add(n)
                    else:
                        todo.append((n, t))
                if not todo:
                    continue
                if len(todo) > 1 and self.hprove(x.pc, z3.And(*[t for _, t in todo])):
                    continue
                for n, t in todo:
                    if not self.hprove(x.pc, t, tries=good[n][0].tries):
                        drop.add(n)
                        if os.environ.get('VC_DUMP') == good[n][0].name:
                            ss = z3.SimpleSolver()
                            ss.add(*self.axioms); ss.add(*x.pc); ss.add(z3.Not(t))
                            open('/tmp/w/dump.smt2', 'w').write(ss.to_smt2())
                        if self.verbose:
                            print('   drop', good[n][0].name, file=sys.stderr)
            if not drop:
                break
            good = [g for n, g in enumerate(good) if n not in drop]
        self.emit = emit0
        self.thrown = saved
        self.inv_memo[key] = set(c.name for c, _, _ in good)
        if self.verbose and emit0:
            print('  loop', s.get('loc'), 'frames', len(st.frames), 'kept', [c.name for c, _, _ in good], 'of', len(cands), 'rounds', rounds, file=sys.stderr)
        if emit0:
            self.loops_done.append({'loc': s.get('loc'), 'kept': [c.name for c, _, _ in good], 'rounds': rounds})
            self.hyp_inv += 2 * len(good)
        # 4. final pass with obligations
        if emit0:
            h = head.fork()
            h.assume(*[th for _, th, _ in good])
            ends, exits, others = self.iterate(h, cond, body, inc, dowhile)
            self.check_term(s, st, head, good, ends, cond, nfr)
        res = []
        for x in exits:
            x.frames = x.frames[:nfr]
            res.append((x, NEXT))
        for x, o in others:
            x.frames = x.frames[:nfr]
            res.append((x, o))
        return res

    termination = True

    def check_term(self, s, st0, head, good, ends, cond, nfr):
        """termination measure from the loop condition: a<b, a<=b, a!=b, a>b ..."""
        if not self.termination:
            return
        for c in self.measures(head):
            for x in ends:
                self.oblige(x.fork(), z3.And(c.fn(LoopEnv(self, x, st0)) < c.fn(LoopEnv(self, head, st0)), c.fn(LoopEnv(self, head, st0)) > 0), 'loop makes progress', 'term', s.get('loc', ''))
            return
        if cond is None:
            return
        e = cond
        while e['e'] == 'bin' and e['op'] == '&&':
            e = e['a']
        self.dry += 1
        try:
            m0 = self.measure(e, head)
            if m0 is None:
                return
            h = head.fork()
            h.assume(*[th for _, th, _ in good])
            for x in ends:
                m1 = self.measure(e, x)
                if m1 is None:
                    return
                # progress: measure decreases and was positive
                self.dry -= 1
                try:
                    if self.bv:
                        pass
                    else:
                        self.oblige(x.fork(), z3.And(m1 < m0, m0 > 0), 'loop makes progress', 'term', s.get('loc', ''))
                finally:
                    self.dry += 1
        finally:
            self.dry -= 1

    def measures(self, head):
        """measures given by the contract for loops whose condition does not show one"""
        return [c for h in self.hints if isinstance(h, Measure) for c in h.expand(self, head, head, ())]

    def measure(self, e, st):
        if e['e'] != 'bin' or e['op'] not in ('<', '<=', '>', '>=', '!='):
            return None
        if e['a']['t']['k'] != 'int':
            return None
        s = st.fork()
        try:
            a = self.rv(e['a'], s)
            if len(a) != 1:
                return None
            b = self.rv(e['b'], a[0][0])
            if len(b) != 1:
                return None
        except Unsupported:
            return None
        x, y = a[0][1], b[0][1]
        if e['op'] in ('<', '<=', '!='):
            return y - x + (1 if e['op'] == '<=' else 0)
        return x - y + (1 if e['op'] == '>=' else 0)

    def try_concrete(self, s, st, cond, body, inc, dowhile, limit=40):
        """unroll loops whose condition is concretely decided at every iteration"""
        if cond is None or self.dry and False:
            return None
        probe = st.fork()
        emit0, saved = self.emit, self.thrown
        self.emit = False
        self.thrown = []
        self.dry += 1
        try:
            if dowhile:
                return None
            r = self.rv(cond, probe)
            if len(r) != 1:
                return None
            c = z3.simplify(r[0][1])
            if z3.is_false(c):
                concrete = True
            elif z3.is_true(c):
                concrete = None
            else:
                return None
        finally:
            self.dry -= 1
            self.emit, self.thrown = emit0, saved
        if not concrete:
            # condition true on entry: is it literally 'x < CONST' with literal x ?
            if not self.literal_cond(cond, st):
                return None
            # bound the number of trips by a dry literal simulation: just attempt
            n = self.literal_trips(cond, st)
            if n is None or n > limit:
                return None
        res = []
        cur = [st]
        nfr = len(st.frames)
        for it in range(limit + 2):
            nxt = []
            for x in cur:
                ends, exits, others = self.iterate(x, cond, body, inc, dowhile)
                for y in ends:
                    y.frames = y.frames[:nfr]
                    nxt.append(y)
                for y in exits:
                    y.frames = y.frames[:nfr]
                    res.append((y, NEXT))
                for y, o in others:
                    y.frames = y.frames[:nfr]
                    res.append((y, o))
            cur = nxt
            if not cur:
                return res
        raise Unsupported('concrete loop did not end')

    def literal_cond(self, cond, st):
        e = cond
        if e['e'] != 'bin' or e['op'] not in ('<', '<=', '>', '>=', '!='):
            return False
        return True

    def literal_trips(self, cond, st):
        m = None
        try:
            self.dry += 1
            emit0 = self.emit
            self.emit = False
            s = st.fork()
            a = self.rv(cond['a'], s)
            b = self.rv(cond['b'], a[0][0])
            x, y = z3.simplify(a[0][1]), z3.simplify(b[0][1])
            if z3.is_int_value(x) and z3.is_int_value(y):
                return abs(x.as_long() - y.as_long()) + 1
            if z3.is_bv_value(x) and z3.is_bv_value(y):
                return abs(x.as_signed_long() - y.as_signed_long()) + 1
            return None
        except Exception:
            return None
        finally:
            self.dry -= 1
            self.emit = emit0

    def loop_unroll(self, s, st, cond, body, inc, dowhile):
        res = []
        cur = [st]
        nfr = len(st.frames)
        for it in range(self.unroll + 1):
            nxt = []
            for x in cur:
                if it == self.unroll:
                    # cut: drop the paths that need more iterations
                    if cond is not None and not dowhile:
                        for s1, c in self.rv(cond, x):
                            y = s1.fork()
                            y.assume(z3.Not(c))
                            if not self._infeasible(y):
                                y.frames = y.frames[:nfr]
                                res.append((y, NEXT))
                    self.unrolled_bound_hit = True
                    continue
                ends, exits, others = self.iterate(x, cond, body, inc, dowhile)
                for y in ends:
                    y.frames = y.frames[:nfr]
                    nxt.append(y)
                for y in exits:
                    y.frames = y.frames[:nfr]
                    res.append((y, NEXT))
                for y, o in others:
                    y.frames = y.frames[:nfr]
                    res.append((y, o))
            cur = nxt
            if not cur:
                break
        return res

    def normw(self, W):
        """drop entries covered by a whole write of a prefix"""
        W = set(W)
        whole = [(r, p) for (r, p, w) in W if w]
        out = set()
        for (r, p, w) in W:
            cov = False
            for (r2, p2) in whole:
                if r2 == r and (len(p2) < len(p) and p[:len(p2)] == p2 or (p2 == p and not w)):
                    cov = True
            if not cov:
                out.add((r, p, w))
        return out

    def havoc(self, st, W):
        h = st.fork()
        W = self.normw(W)
        facts = []
        for (r, p, whole) in sorted(W, key=lambda x: (x[0], x[1], x[2])):
            loc = Loc(r, tuple(('f', f) for f in p))
            if r not in h.store:
                h.store[r] = self.umemo[r]
            cur = self.read(h, loc)
            t = self.type_at(r, p)
            new = self.havoc_val(cur, t, whole, facts, p[-1] if p else self.rootname(h, r))
            h.store[r] = self.upd(h.store[r], loc.path, new)
        h.assume(*facts)
        return h

    def rootname(self, st, r):
        for f in reversed(st.frames):
            for n, l in f.names.items():
                if l.root == r and not l.path:
                    return n
        return 'h'

    def havoc_val(self, cur, t, whole, facts, name):
        if isinstance(cur, Vec) and not whole:
            arr = z3.Const(fresh_name(name + '.arr'), cur.arr.sort())
            if not self.bv:
                self.elem_facts(arr, cur.ety, facts)
            return cur.with_(arr=arr)
        if isinstance(cur, Ptr):
            if cur.loc is not None and cur.loc.path and cur.loc.path[-1][0] == 'i':
                idx = z3.Const(fresh_name(name + '.idx'), self.T.idxsort())
                return Ptr(Loc(cur.loc.root, cur.loc.path[:-1] + (('i', idx),)), cur.null, cur.kind)
            if cur.loc is None:
                return Opaque('havoced pointer')
            return Opaque('havoced pointer')
        if isinstance(cur, (Closure, FnV, Opaque)):
            if isinstance(cur, Opaque) and t['k'] in ('int', 'bool', 'float'):
                return self.fresh(t, name, facts)
            return cur
        if isinstance(cur, Rec):
            d = {}
            for n, ft, _ in self.T.rfields(cur.cls):
                d[n] = self.havoc_val(cur.fields[n], ft, True, facts, n)
            return Rec(cur.cls, d)
        if t['k'] == 'arr':
            return self.havoc_val(cur, t, False, facts, name)
        return self.fresh(t, name, facts)

    # ------------------------------------------------------------------ candidates
    def cterm(self, c, st0, st):
        try:
            t = c.fn(LoopEnv(self, st, st0))
        except (KeyError, Unsupported, AttributeError, IndexError, z3.Z3Exception, TypeError) as ex:
            if os.environ.get('VC_DEBUG'):
                print('   cand', c.name, 'n/a:', type(ex).__name__, ex, file=sys.stderr)
            return None
        if isinstance(t, (list, tuple)):
            t = z3.And(*t)
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        return t

    def candidates(self, s, st, head, W, cond, nfr):
        out = []
        T = self.T
        if self.auto and not self.bv:
            for (r, p, whole) in sorted(W, key=lambda x: (x[0], x[1], x[2])):
                loc = Loc(r, tuple(('f', f) for f in p))
                nm = '.'.join((self.rootname(st, r),) + p)
                t = self.type_at(r, p)
                v0 = self.rootval(st, r) if not p else self.read(st, loc)
                if t['k'] == 'int':
                    out.append(Cand('%s>=init' % nm, lambda e, loc=loc: self.read(e.st, loc) >= self.read(e.st0, loc)))
                    out.append(Cand('%s<=init' % nm, lambda e, loc=loc: self.read(e.st, loc) <= self.read(e.st0, loc)))
                    out.append(Cand('%s>=0' % nm, lambda e, loc=loc: self.read(e.st, loc) >= 0))
                if isinstance(v0, Vec) and whole:
                    out.append(Cand('len(%s)==init' % nm, lambda e, loc=loc: self.read(e.st, loc).len == self.read(e.st0, loc).len))
                if isinstance(v0, Ptr) and v0.loc is not None and v0.loc.path and v0.loc.path[-1][0] == 'i':
                    out.append(Cand('%s>=init' % nm, lambda e, loc=loc: self.read(e.st, loc).loc.path[-1][1] >= self.read(e.st0, loc).loc.path[-1][1]))
                if isinstance(v0, Rec) and whole:
                    for n, ft, _ in T.rfields(v0.cls):
                        if T.isvec(ft):
                            out.append(Cand('len(%s.%s)==init' % (nm, n), lambda e, loc=loc, n=n: self.read(e.st, loc).fields[n].len == self.read(e.st0, loc).fields[n].len))
                        elif ft['k'] == 'int':
                            out.append(Cand('%s.%s==init' % (nm, n), lambda e, loc=loc, n=n: self.read(e.st, loc).fields[n] == self.read(e.st0, loc).fields[n]))
            # bound from the loop condition
            if cond is not None:
                ee = cond
                cs = []
                st2 = [ee]
                while st2:
                    x = st2.pop()
                    if x['e'] == 'bin' and x['op'] == '&&':
                        st2 += [x['a'], x['b']]
                    else:
                        cs.append(x)
                for ci, x in enumerate(cs):
                    if x['e'] == 'bin' and x['op'] in ('<', '!=', '>', '<=', '>='):
                        def mk(x):
                            def f(e):
                                sx = e.st.fork()
                                self.dry += 1
                                em = self.emit
                                self.emit = False
                                try:
                                    a = self.rv(x['a'], sx)
                                    if len(a) != 1:
                                        raise KeyError
                                    b = self.rv(x['b'], a[0][0])
                                    if len(b) != 1:
                                        raise KeyError
                                finally:
                                    self.dry -= 1
                                    self.emit = em
                                a, b = a[0][1], b[0][1]
                                if isinstance(a, Ptr):
                                    a, b = a.loc.path[-1][1], b.loc.path[-1][1]
                                if not (z3.is_expr(a) and z3.is_expr(b)):
                                    raise KeyError
                                op = x['op']
                                if op in ('<', '!='):
                                    return a <= b
                                if op == '<=':
                                    return a <= b + 1
                                if op == '>':
                                    return a >= b
                                return a >= b - 1
                            return f
                        out.append(Cand('cond-bound%d' % ci, mk(x)))
                    elif x['e'] == 'call' and x['fn']['nm'] == 'operator!=':
                        def mk2(x):
                            def f(e):
                                sx = e.st.fork()
                                self.dry += 1
                                em = self.emit
                                self.emit = False
                                try:
                                    args = ([x['obj']] if 'obj' in x else []) + x['args']
                                    vs = self.revals(args, sx)
                                finally:
                                    self.dry -= 1
                                    self.emit = em
                                a, b = vs[0][1]
                                return a.loc.path[-1][1] <= b.loc.path[-1][1]
                            return f
                        out.append(Cand('cond-bound%d' % ci, mk2(x)))
        for h in self.hints:
            if isinstance(h, Measure):
                continue
            out.extend(h.expand(self, st, head, W))
        return out


class Cand:
    __slots__ = ('name', 'fn', 'tries')
    def __init__(self, name, fn, tries=1):
        self.name = name
        self.fn = fn
        self.tries = tries

class Hint:
    """candidate invariant; vars: local names it talks about.  If a name is not in
    scope, other locals in scope are tried in its place.  mod / fix: names that the
    loop must (not) modify for the hint to be tried there."""
    def __init__(self, name, fn, vars=(), mod=(), fix=()):
        self.name = name
        self.fn = fn
        self.vars = tuple(vars) + tuple(v for v in tuple(mod) + tuple(fix) if v not in vars)
        self.mod, self.fix = mod, fix
    def expand(self, eng, st, head, W):
        names = {}
        for f in st.frames:
            for n in f.names:
                names[n] = f.names[n]
        wroots = set(r for (r, p, w) in W)
        def ok(m):
            for v in self.mod:
                l = names.get(m.get(v, v))
                if l is None or l.root not in wroots:
                    return False
            for v in self.fix:
                l = names.get(m.get(v, v))
                if l is None or l.root in wroots:
                    return False
            return True
        missing = [v for v in self.vars if v not in names]
        if not missing:
            return [Cand(self.name, self.fn, 4)] if ok({}) else []
        pool = []
        for n, l in names.items():
            if l.path or l.root not in st.store:
                continue
            pool.append(n)
        used = set(self.vars)
        pool = [n for n in pool if n not in used]
        out = []
        for combo in itertools.islice(itertools.permutations(pool, len(missing)), 60):
            m = dict(zip(missing, combo))
            if not ok(m):
                continue
            out.append(Cand('%s[%s]' % (self.name, ','.join('%s=%s' % kv for kv in m.items())), lambda e, m=m: self.fn(e.rename(m)), 2))
        return out

def conjuncts(g):
    """goals that together are the goal g"""
    if z3.is_and(g):
        return [h for c in g.children() for h in conjuncts(c)]
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), h) for h in conjuncts(g.arg(1))]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const(fresh_name(g.var_name(k)), g.var_sort(k)) for k in range(g.num_vars())]
        b = z3.substitute_vars(g.body(), *reversed(vs))
        hs = conjuncts(b)
        if len(hs) > 1:
            return hs                   # for arbitrary values of the bound variables
    return [g]

class Measure(Hint):
    """a term that every iteration of the loop makes smaller while it is positive"""

class LoopEnv:
    """what an invariant may talk about: e['x'] current value of local/param x,
    e.init('x') its value at loop entry, e.old('x') at function entry"""
    def __init__(self, eng, st, st0, ren=None):
        self.eng, self.st, self.st0 = eng, st, st0
        self.ren = ren or {}
    def rename(self, m):
        d = dict(self.ren)
        d.update(m)
        return LoopEnv(self.eng, self.st, self.st0, d)
    def _loc(self, name, st):
        name = self.ren.get(name, name)
        for f in reversed(st.frames):
            if name in f.names:
                return f.names[name]
        raise KeyError(name)
    def _get(self, name, st):
        if name == 'this':
            for f in reversed(st.frames):
                if f.this is not None:
                    return self.eng.read(st, f.this)
            raise KeyError('this')
        v = self.eng.read(st, self._loc(name, st))
        if isinstance(v, Ptr) and v.loc is not None and (not v.loc.path or v.loc.path[-1][0] != 'i'):
            return self.eng.read(st, v.loc)
        return v
    def __getitem__(self, name):
        return self._get(name, self.st)
    def root(self, name):
        """current value of a parameter (or 'this') of the function under contract"""
        f = self.st.frames[0]
        if name == 'this':
            return self.eng.read(self.st, f.this)
        return self.eng.read(self.st, f.names[name])
    def root0(self, name):
        """value at loop entry of a parameter of the function under contract"""
        return self.eng.read(self.st0, self.st.frames[0].names[name])
    def init(self, name):
        return self._get(name, self.st0)
    def old(self, name):
        c = self.eng.ctx
        return c.old(name)
    @property
    def ctx(self):
        return self.eng.ctx
    def has(self, name):
        try:
            if name == 'this':
                return any(f.this is not None for f in self.st.frames)
            self._loc(name, self.st)
            return True
        except KeyError:
            return False
