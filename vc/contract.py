"""Contracts over root functions, and the driver that turns them into obligations."""
import os, sys, time, subprocess, tempfile, traceback
import z3
from .values import *
from .engine import *

REG = {}          # property -> [Contract]

class Env:
    """what pre/postconditions may talk about"""
    def __init__(self, eng, st, locs, st0, ret=None):
        self.eng, self.st, self.locs, self.st0, self.ret = eng, st, locs, st0, ret
        self.T = eng.T
    def _at(self, name, st):
        v = self.eng.read(st, self.locs[name])
        while isinstance(v, Ptr) and v.loc is not None and (not v.loc.path or v.loc.path[-1][0] != 'i'):
            v = self.eng.read(st, v.loc)
        if isinstance(v, Ptr) and v.loc is not None:
            return self.eng.read(st, Loc(v.loc.root, v.loc.path[:-1]))
        return v
    def __getitem__(self, name):
        return self._at(name, self.st)
    def old(self, name):
        return self._at(name, self.st0)
    @property
    def result(self):
        v = self.ret
        if isinstance(v, Loc):
            v = self.eng.read(self.st, v)
        return v

class Contract:
    def __init__(self, prop, root, pre=None, post=None, throws=None, hints=(), axioms=(), specs=None, uses=(),
                 opts=None, title='', lemmas=(), ptrlen=None, virt=None, funcs='', tu=None, ghost=None, setup=None):
        self.prop, self.root = prop, root
        self.pre, self.post, self.throws = pre, post, throws
        self.hints, self.axioms = list(hints), list(axioms)
        self.specs = dict(specs or {})
        self.uses = list(uses)
        self.opts = dict(opts or {})
        self.title = title or root
        self.lemmas = list(lemmas)
        self.funcs = funcs
        self.tu = tu
        self.ghost = ghost
        self.setup = setup

def contract(prop, root, **kw):
    c = Contract(prop, root, **kw)
    REG.setdefault(prop, []).append(c)
    return c

# ------------------------------------------------------------------ spec helpers
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, R)

def ints(s):
    return z3.Ints(s)

def forall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats is None:
        return z3.ForAll(vs, body)
    ps = []
    for p in pats:
        ps.append(z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p)
    return z3.ForAll(vs, body, patterns=ps)

def imp(a, b):
    return z3.Implies(a, b)

def all_(*xs):
    return z3.And(*xs)

class SumFn:
    """Recursive definition over mathematical integers with fuel:
       F(args, lo) = base;  F(args, k) = step(args, k-1, F(args, k-1)) for k > lo"""
    FUEL0 = False
    def __init__(self, name, sorts, term=None, base=None, step=None, rng=R, lo=0, lof=None):
        self.name = name
        self.sorts = list(sorts)
        self.F1 = z3.Function(name, *(self.sorts + [I, rng]))
        self.F0 = z3.Function(name + '$', *(self.sorts + [I, rng]))
        self.rng = rng
        if base is None:
            base = z3.RealVal(0) if rng == R else z3.IntVal(0)
        self.base = base
        self.term = term
        self.step = step or (lambda *a: a[-1] + term(*a[:-1]))
        self.lof = lof or (lambda *a: z3.IntVal(lo))
    def __call__(self, *args):
        args = [z3.IntVal(a) if isinstance(a, int) else a for a in args]
        return (self.F0 if SumFn.FUEL0 else self.F1)(*args)
    def axioms(self):
        xs = [z3.Const('%s_a%d' % (self.name, i), s) for i, s in enumerate(self.sorts)]
        k = z3.Int(self.name + '_k')
        F1, F0 = self.F1, self.F0
        lo = self.lof(*xs)
        b = self.base(*xs) if callable(self.base) else self.base
        return [
            z3.ForAll(xs + [k], F1(*xs, k) == F0(*xs, k), patterns=[F1(*xs, k)]),
            z3.ForAll(xs + [k], z3.Implies(k <= lo, F0(*xs, k) == b), patterns=[F0(*xs, k)]),
            z3.ForAll(xs + [k], z3.Implies(k > lo, F1(*xs, k) == self.step(*(xs + [k - 1, F0(*xs, k - 1)]))), patterns=[F1(*xs, k)]),
        ]

class Lemma:
    """forall vars. body, optionally by induction on an integer variable (base at k <= lo,
    step k -> k+1 for k >= lo).  Proved as its own obligations, then available as an axiom
    (also in its low-fuel form, which is the same statement because F == F$).
    mk() -> (vars, body, patterns[, induction variable, lower end])"""
    def __init__(self, name, mk, uses=(), local=(), only_prove=False, only_local=False, here=()):
        # local: definitions needed in the proof of the lemma only
        self.name, self.mk = name, mk
        self.only_local = only_local    # proved from the local definitions and the lemmas it uses alone
        self.only_prove = only_prove    # a fact that justifies an axiom; not handed to the solver again
        self.uses, self.local = list(uses), list(local)
        self.here = list(here)          # proved lemmas at given terms over the variables of this one
    def formulas(self):
        out = []
        if self.only_prove:
            return out
        for fuel0 in (False, True):
            SumFn.FUEL0 = fuel0
            try:
                r = self.mk()
            finally:
                SumFn.FUEL0 = False
            out.append(forall(r[0], r[1], r[2]))
            if fuel0 and out[0].eq(out[1]):
                out.pop()
        return out
    def inst(self, vars, pats, **terms):
        """the (proved) lemma at the given terms, for all vars"""
        r = self.mk()
        by = {str(v): v for v in r[0]}
        f = z3.substitute(r[1], *[(by[k], t) for k, t in terms.items()])
        return forall(vars, f, pats) if vars else f
    def obligations(self, axioms):
        axs = ([] if self.only_local else list(axioms)) + self.local + [a for u in self.uses for a in u.formulas()]
        r = self.mk()
        vars, body = r[0], r[1]
        k, lo = (r[3], r[4]) if len(r) > 3 else (None, None)
        sk = [(v, z3.Const(fresh_name(str(v)), v.sort())) for v in vars]
        axs += [z3.substitute(f, *sk) for f in self.here]
        if k is None:
            return [Obligation('lemma ' + self.name, 'lemma', '', axs, z3.substitute(body, *sk))]
        out = []
        kk = [b for a, b in sk if a.eq(k)][0]
        slo = z3.substitute(lo, *sk) if isinstance(lo, z3.ExprRef) else lo
        out.append(Obligation('lemma %s (base)' % self.name, 'lemma', '', axs + [kk <= slo], z3.substitute(body, *sk)))
        hyp = z3.substitute(body, *sk)
        goal = z3.substitute(body, *[(a, (b if not a.eq(k) else b + 1)) for a, b in sk])
        out.append(Obligation('lemma %s (step)' % self.name, 'lemma', '', axs + [kk >= slo, hyp], goal))
        return out

# ------------------------------------------------------------------ solving
RL0, RL1, RL2 = 8000000, 20000000, 20000000

def to_smt2(hyps, goal):
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    return s.to_smt2()

def solve(o, axioms, quickonly=False, want_model=True, bv=False):
    if o.status == 'proved':
        return o
    t0 = time.time()
    hyps = list(axioms) + list(o.hyps)
    if bv and qfbv(hyps, o.goal, 60000) == z3.unsat:
        o.status, o.backend, o.time = 'proved', 'z3(bit-blasting)', time.time() - t0
        return o
    if o.kind == 'lemma':
        s = z3.Solver()
        s.set('rlimit', 4000000)
        s.set('timeout', 5000)
        s.add(*hyps)
        s.add(z3.Not(o.goal))
        if s.check() == z3.unsat:
            o.status, o.backend, o.time = 'proved', 'z3(mbqi)', time.time() - t0
            return o
    stuck = False
    for mk, seed, rl, ms, be, rel in ((z3.SimpleSolver, 0, RL0, 15000, 'z3', 2), (z3.SimpleSolver, 0, RL0, 15000, 'z3', 0), (z3.SimpleSolver, 1, RL0, 15000, 'z3', 2), (z3.Solver, 0, RL1, 30000, 'z3(simplified)', 2),
                                      (z3.SimpleSolver, 2, RL1, 30000, 'z3', 2), (z3.SimpleSolver, 3, RL1, 30000, 'z3', 2)):
        if stuck and mk is z3.SimpleSolver and rel:
            continue
        s = mk()
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.set('smt.random_seed', seed + Engine.SEED0)
        s.set('smt.relevancy', rel)     # 0: terms under undecided branches also trigger definitions
        s.set('rlimit', rl * (3 if Engine.SEED0 else 1))
        s.set('timeout', ms * (2 if Engine.SEED0 else 1))
        s.add(*hyps)
        s.add(z3.Not(o.goal))
        r = s.check()
        if r == z3.unsat:
            o.status, o.backend, o.time = 'proved', be, time.time() - t0
            return o
        if mk is z3.SimpleSolver and r != z3.sat and 'incomplete' in s.reason_unknown():
            stuck = True        # another seed would not help
        if quickonly:
            break
    if os.environ.get('VC_DUMPO') and os.environ['VC_DUMPO'] in o.name:
        s.set('smt.mbqi', False)
        open('/tmp/w/dump.smt2', 'w').write(s.to_smt2())
    if quickonly:
        o.status, o.time = 'unknown', time.time() - t0
        return o
    s = z3.Solver()
    s.set('rlimit', RL2)
    s.set('timeout', 20000)
    s.add(*hyps)
    s.add(z3.Not(o.goal))
    r = s.check()
    if r == z3.unsat:
        o.status, o.backend, o.time = 'proved', 'z3(mbqi)', time.time() - t0
        return o
    if r == z3.sat:
        o.model = s.model()
        o.status = 'sat'
        o.time = time.time() - t0
        return o
    o.status = 'unknown'
    try:
        txt = '(set-logic ALL)\n' + to_smt2(hyps, o.goal)
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=15000', '--quiet', '-'], input=txt, capture_output=True, text=True, timeout=30)
        if p.stdout.strip().split('\n')[0] == 'unsat':
            o.status, o.backend = 'proved', 'cvc5'
    except Exception:
        pass
    o.time = time.time() - t0
    return o

class Result:
    def __init__(self, c):
        self.root = c.root
        self.title = c.title
        self.prop = c.prop
        self.status = None      # proved / failed / unsupported / error
        self.reason = ''
        self.failed = []
        self.nobl = 0
        self.ndis = 0
        self.backends = {}
        self.kinds = {}
        self.inlined = []
        self.trusted = []
        self.assumed = []
        self.loops = []
        self.time = 0.0
        self.solver = 0.0
        self.specs = []
        self.vacuous = False

def fresh_param(eng, t, name, st, facts):
    if t['k'] == 'ref':
        v = eng.fresh(t['to'], name, facts)
        return Loc(eng.new_root(t['to'], v, st))
    if t['k'] == 'ptr' and t['to']['k'] not in ('fn', 'void') and not t['to'].get('ch'):
        vt = vec_t(t['to'])
        v = eng.fresh(vt, name, facts)
        r = eng.new_root(vt, v, st)
        p = Ptr(Loc(r).i(eng.T.idxval(0)), z3.BoolVal(False))
        return p
    return eng.fresh(t, name, facts)

def run_contract(c, ir, verbose=False, deadline=None, base=None):
    res = Result(c)
    t0 = time.time()
    try:
        _run(c, ir, res, verbose, t0 + (deadline or 120))
    except (Unsupported, Limits) as ex:
        res.status = 'unsupported'
        res.reason = '%s: %s' % (type(ex).__name__, ex)
        if verbose > 1:
            traceback.print_exc()
    except RecursionError as ex:
        res.status, res.reason = 'unsupported', 'recursion depth'
    except (KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception, ValueError, AssertionError) as ex:
        res.status = 'unsupported'
        res.reason = 'contract does not fit the current source: %s: %s' % (type(ex).__name__, ex)
        res.trace = traceback.format_exc()
        if verbose:
            traceback.print_exc()
    res.time = time.time() - t0
    return res

def find_root(ir, name):
    fs = [f for f in ir['funcs'].values() if f['q'] == name and f.get('body') is not None]
    if len(fs) != 1:
        raise Unsupported('%d functions named %s' % (len(fs), name))
    return fs[0]

def _run(c, ir, res, verbose, deadline):
    opts = {k: v for k, v in c.opts.items() if k not in ('hfuncs', 'harness', 'thorough_only', 'allow_vacuous')}
    eng = Engine(ir, hints=c.hints, callee_specs=dict(c.specs), verbose=verbose, deadline=deadline, **opts)
    for u in c.uses:
        for k, v in u.callee_specs(eng).items():
            eng.specs[k] = v
    eng.thrown = []
    f = find_root(ir, c.root)
    st = State()
    facts = []
    locs = {}
    vs = []
    for p in f['params']:
        v = fresh_param(eng, p['t'], p['name'], st, facts)
        vs.append(v)
        if isinstance(v, Loc):
            locs[p['name']] = v
        else:
            locs[p['name']] = Loc(eng.new_root(p['t'], v, st))
    st.assume(*facts)
    axs = []
    for a in c.axioms:
        if not isinstance(a, (SumFn, z3.ExprRef)):
            a = a(eng)
        axs.extend(a.axioms() if isinstance(a, SumFn) else [a])
    lem = []
    base = list(axs)
    for l in c.lemmas:
        if not isinstance(l, Lemma):
            l = l(eng)
        lem.extend(l.obligations(base))
        axs.extend(l.formulas())
    eng.axioms.extend(axs)
    st0 = st.fork()
    if c.setup:
        c.setup(Env(eng, st, locs, st))
        st0 = st.fork()
    env0 = Env(eng, st, locs, st0)
    eng.ctx = env0
    if c.ghost:
        c.ghost(env0)
    if c.pre:
        pre = c.pre(env0)
        st.assume(*(pre if isinstance(pre, (list, tuple)) else [pre]))
    st0 = st.fork()
    env0.st0 = st0
    outs = eng.call_body(f, st, None, vs, [{'t': p['t']} for p in f['params']], f)
    obls = lem
    thrown = eng.thrown
    eng.thrown = []
    res.vacuous = len(outs) == 0 and not thrown
    live = 0
    for s, v in outs:
        # vacuity: the path facts must not be contradictory
        if not eng.hprove(s.pc, z3.BoolVal(False), rlimit=2000000):
            live += 1
        e = Env(eng, s, locs, st0, v)
        if c.post:
            ps = c.post(e)
            for item in (ps if isinstance(ps, (list, tuple)) else [ps]):
                nm, g = item if isinstance(item, tuple) else ('postcondition', item)
                s2 = s.fork()
                eng.oblige(s2, g, 'post: ' + nm, 'post', f['loc'])
    for s, loc in thrown:
        e = Env(eng, s, locs, st0)
        if c.throws is None:
            eng.oblige(s.fork(), z3.BoolVal(False), 'no exception under the precondition', 'throw', loc)
        elif c.throws is not True:
            r = c.throws(e)
            for item in (r if isinstance(r, (list, tuple)) else [r]):
                nm, g = item if isinstance(item, tuple) else ('exception only when specified', item)
                eng.oblige(s.fork(), g, 'throws: ' + nm, 'throw', loc)
    if outs and live == 0 and not c.opts.get('allow_vacuous'):
        res.status, res.reason = 'unsupported', 'every path to a normal return is contradictory (vacuous)'
        res.vacuous = True
    obls = lem + eng.obls
    if verbose:
        print('  %s: %d obligations, %d paths, %d loops; houdini %d calls %.1fs quick %d %.1fs' % (
            c.root, len(obls), len(outs), len(eng.loops_done), eng.nhou, eng.thou, eng.nquick, eng.tquick), file=sys.stderr)
    nfail = 0
    seenfail = {}
    for o in obls:
        if time.time() > deadline or nfail >= 8:
            if nfail:
                res.reason = 'stopped after the first failed obligations'
                res.nobl += len(obls) - obls.index(o)
                break
            raise Limits('time limit while discharging obligations')
        k = (o.name, o.loc)
        solve(o, eng.axioms if o.kind != 'lemma' else [], quickonly=seenfail.get(k, 0) >= 1 or nfail >= 3, bv=eng.T.bv)
        res.nobl += 1
        res.solver += o.time
        res.kinds[o.kind] = res.kinds.get(o.kind, 0) + 1
        if o.status == 'proved':
            res.ndis += 1
            res.backends[o.backend] = res.backends.get(o.backend, 0) + 1
        else:
            nfail += 1
            seenfail[k] = seenfail.get(k, 0) + 1
            m = ''
            if o.model is not None:
                m = model_text(o.model, eng, env0)
            res.failed.append({'name': o.name, 'kind': o.kind, 'loc': o.loc, 'status': o.status, 'model': m,
                               'path': [str(t) for t in o.trace][-20:], 'goal': str(z3.simplify(o.goal))[:1500] if not has_quant(o.goal) else str(o.goal)[:1500]})
            if verbose:
                print('  FAILED', o.name, o.loc, o.status, 'goal:', str(o.goal)[:600], file=sys.stderr)
                if verbose > 1:
                    for h in o.hyps:
                        print('      hyp', str(h)[:300], file=sys.stderr)
    res.nobl += eng.hyp_inv
    res.ndis += eng.hyp_inv
    if eng.hyp_inv:
        res.backends['z3(invariants)'] = eng.hyp_inv
        res.kinds['loop invariant'] = eng.hyp_inv
    res.solver += eng.thou + eng.tquick
    res.inlined = sorted(eng.inlined)
    res.trusted = sorted(eng.trusted)
    res.assumed = sorted(eng.assumed)
    res.specs = sorted(eng.used_specs)
    res.loops = eng.loops_done
    if res.status is None:
        res.status = 'failed' if res.failed else 'proved'

def model_text(m, eng, env):
    out = []
    for n in env.locs:
        try:
            out.append('%s = %s' % (n, show(m, env.old(n), eng)))
        except Exception as ex:
            out.append('%s = ?' % n)
    return '\n'.join(out)

def show(m, v, eng, depth=0):
    if isinstance(v, z3.ExprRef):
        return str(m.eval(v, model_completion=True))[:80]
    if isinstance(v, Vec):
        n = m.eval(v.len, model_completion=True)
        n = n.as_long()
        xs = []
        for i in range(min(n, 12)):
            xs.append(show(m, v[i], eng, depth + 1))
        return '(len %d)[%s%s]' % (n, ', '.join(xs), ', ...' if n > 12 else '')
    if isinstance(v, Rec):
        return '{' + ', '.join('%s: %s' % (k, show(m, x, eng, depth + 1)) for k, x in v.fields.items()) + '}'
    return type(v).__name__
