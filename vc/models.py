"""Contracts (trusted) of the C++ standard library operations the code uses."""
import z3
from .values import *

MATH1 = ('sqrt', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'cosh', 'sinh', 'tanh', 'floor', 'ceil', 'log10', 'log2')

def SAMETEXT(srt):
    I = z3.IntSort()
    P, W = z3.Function('same_text', srt, I, srt, I, z3.BoolSort()), z3.Function('same_text_w', srt, I, srt, I, I)
    a, b, m, n, k = z3.Const('st_a', srt), z3.Const('st_b', srt), z3.Int('st_m'), z3.Int('st_n'), z3.Int('st_k')
    return P, z3.And(z3.ForAll([a, m, b, n], z3.Or(z3.And(P(a, m, b, n), m == n), z3.And(z3.Not(P(a, m, b, n)), z3.Or(m != n, z3.And(W(a, m, b, n) >= 0, W(a, m, b, n) < m, a[W(a, m, b, n)] != b[W(a, m, b, n)])))), patterns=[P(a, m, b, n)]),
                     z3.ForAll([a, m, b, n, k], z3.Implies(z3.And(P(a, m, b, n), k >= 0, k < m), a[k] == b[k]), patterns=[z3.MultiPattern(P(a, m, b, n), a[k]), z3.MultiPattern(P(a, m, b, n), b[k])]))


class Models:
    def __init__(self, eng):
        self.E = eng
        self.T = eng.T

    def trust(self, w):
        self.E.trusted.add(w)

    # -------------------------------------------------------------- helpers
    def val(self, st, v):
        return self.E.read(st, v) if isinstance(v, Loc) else v

    def isvecT(self, t):
        return t is not None and t['k'] == 'rec' and (t['n'] in VECTORS or t['n'] in STRINGS)

    def grow(self, st, v, n, fill, what='resize'):
        """v resized to n, new elements = fill (packed term)"""
        E, T = self.E, self.T
        n = T.idxterm(n)
        ln = z3.simplify(v.len)
        if z3.is_int_value(ln) and ln.as_long() == 0 or (z3.is_bv_value(ln) and ln.as_long() == 0):
            return v.with_(ln=n, arr=z3.K(T.idxsort(), fill))
        if E.quick(st, (n <= v.len) if not E.bv else z3.ULE(n, v.len)):
            return v.with_(ln=n)
        if E.quick(st, v.len == 0):
            return v.with_(ln=n, arr=z3.K(T.idxsort(), fill))
        from .engine import fresh_name
        arr = z3.Const(fresh_name('rs'), v.arr.sort())
        i = z3.Const(fresh_name('k'), T.idxsort())
        lt = (i < v.len) if not E.bv else z3.ULT(i, v.len)
        st.assume(z3.ForAll([i], arr[i] == z3.If(lt, v.arr[i], fill), patterns=[arr[i]]))
        return v.with_(ln=n, arr=arr)

    def sub(self, st, v, a, n, kind=None):
        """slice [a, a+n)"""
        from .engine import fresh_name
        if z3.is_int_value(z3.simplify(a)) and z3.simplify(a).as_long() == 0:
            return Vec(self.T, v.ety, n, v.arr, kind or v.kind)
        arr = z3.Const(fresh_name('sl'), v.arr.sort())
        i = z3.Const(fresh_name('k'), self.T.idxsort())
        st.assume(z3.ForAll([i], arr[i] == v.arr[i + a], patterns=[arr[i]]))
        return Vec(self.T, v.ety, n, arr, kind or v.kind)

    def concat(self, st, v, w):
        from .engine import fresh_name
        lv, lw = z3.simplify(v.len), z3.simplify(w.len)
        num = z3.is_int_value
        if num(lw) and lw.as_long() <= 4:
            a = v.arr
            for k in range(lw.as_long()):
                a = z3.Store(a, v.len + k, z3.simplify(w.arr[k]))
            return v.with_(ln=z3.simplify(v.len + lw), arr=a)
        if num(lv) and lv.as_long() == 0:
            return v.with_(ln=w.len, arr=w.arr)
        arr = z3.Const(fresh_name('cat'), v.arr.sort())
        i = z3.Const(fresh_name('k'), self.T.idxsort())
        st.assume(z3.ForAll([i], arr[i] == z3.If(i < v.len, v.arr[i], w.arr[i - v.len]), patterns=[arr[i]]))
        return v.with_(ln=v.len + w.len, arr=arr)

    def cstr(self, st, v):
        """char const* -> string value (up to the terminating NUL of a literal)"""
        v = self.val(st, v)
        if isinstance(v, Ptr) and v.loc is not None and v.loc.path and v.loc.path[-1][0] == 'i':
            base = self.E.read(st, Loc(v.loc.root, v.loc.path[:-1]))
            if isinstance(base, Vec):
                off = z3.simplify(v.loc.path[-1][1])
                if z3.is_int_value(off) and off.as_long() == 0:
                    if base.kind == 'arr':
                        return Vec(self.T, CH, z3.simplify(base.len - 1), base.arr, 'string')
                    return base.with_()
        if isinstance(v, Vec):
            return v
        raise Unsupported('C string')

    def tostr(self, st, v, t=None):
        v = self.val(st, v)
        if isinstance(v, Vec):
            if v.kind == 'arr':
                return Vec(self.T, CH, z3.simplify(v.len - 1), v.arr, 'string')
            return v
        if isinstance(v, Ptr):
            return self.cstr(st, v)
        if isinstance(v, z3.ExprRef) and not z3.is_bool(v):
            a = z3.Store(z3.K(self.T.idxsort(), self.T.ival(0, CH)), self.T.idxval(0), v)
            return Vec(self.T, CH, self.T.idxval(1), a, 'string')
        raise Unsupported('string operand ' + type(v).__name__)

    def streq(self, st, a, b):
        """extensional equality of two vectors/strings"""
        from .engine import fresh_name
        la, lb = z3.simplify(a.len), z3.simplify(b.len)
        n = None
        if z3.is_int_value(la):
            n = la.as_long()
        elif z3.is_int_value(lb):
            n = lb.as_long()
        if n is not None and n <= 40:
            return z3.And(a.len == b.len, *[a.arr[self.T.idxval(k)] == b.arr[self.T.idxval(k)] for k in range(n)])
        if a.arr.eq(b.arr):
            return a.len == b.len
        i = z3.Const(fresh_name('k'), self.T.idxsort())
        elem = self.elemeq(a[i], b[i], a.ety, st)
        c = z3.Const(fresh_name('eq'), z3.BoolSort())
        w = z3.Const(fresh_name('w'), self.T.idxsort())
        if self.E.bv:
            rng = z3.ULT(i, a.len)
            rw = z3.ULT(w, a.len)
        else:
            rng = z3.And(i >= 0, i < a.len)
            rw = z3.And(w >= 0, w < a.len)
        st.assume(z3.Implies(c, z3.And(a.len == b.len, z3.ForAll([i], z3.Implies(rng, elem), patterns=[a.arr[i], b.arr[i]] if not isinstance(elem, bool) else []))))
        st.assume(z3.Implies(z3.Not(c), z3.Or(a.len != b.len, z3.And(rw, z3.Not(self.elemeq(a[w], b[w], a.ety, st))))))
        return c

    def elemeq(self, x, y, t, st):
        if isinstance(x, z3.ExprRef):
            return x == y
        if isinstance(x, Rec):
            return z3.And(*[self.elemeq(x.fields[n], y.fields[n], ft, st) for n, ft, _ in self.T.rfields(t)])
        if isinstance(x, Vec):
            j = z3.Const('vj', self.T.idxsort())
            return z3.And(x.len == y.len, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x.len), x.arr[j] == y.arr[j])))
        raise Unsupported('element equality')

    def idx(self, st, v, t):
        v = self.val(st, v)
        if self.E.bv and z3.is_bv(v) and v.sort().size() < 64:
            n = v.sort().size()
            return z3.SignExt(64 - n, v) if t.get('s') else z3.ZeroExt(64 - n, v)
        return v

    def iter(self, loc, idx):
        return Ptr(loc.i(idx), z3.BoolVal(False), 'iter')

    def pos(self, p):
        if not isinstance(p, Ptr) or p.loc is None or not p.loc.path or p.loc.path[-1][0] != 'i':
            raise Unsupported('iterator')
        return Loc(p.loc.root, p.loc.path[:-1]), p.loc.path[-1][1]

    # -------------------------------------------------------------- constructors
    def ctor(self, e, st):
        fn = e['fn']
        t = e['t']
        args = e['args']
        E, T = self.E, self.T
        cls = fn['cls']
        n = cls.get('n', '')
        if n == 'std::complex':
            self.trust('std::complex')
            out = []
            for s, vs in E.evals(args, st):
                vs = [self.val(s, v) for v in vs]
                if len(vs) == 0:
                    out.append((s, z3.RealVal(0)))
                elif len(vs) == 1:
                    out.append((s, vs[0]))
                else:
                    im = z3.simplify(vs[1])
                    if z3.is_rational_value(im) and im.as_fraction() == 0:
                        out.append((s, vs[0]))
                    else:
                        f = z3.Function('mkcomplex', z3.RealSort(), z3.RealSort(), z3.RealSort())
                        out.append((s, f(vs[0], vs[1])))
            return out
        if n in VECTORS or n in STRINGS:
            self.trust(n)
            # drop allocator argument
            out = []
            args2 = [a for a in args if not (a['t']['k'] == 'rec' and a['t'].get('n') in ('std::allocator',))]
            for s, vs in E.evals(args2, st):
                out.append((s, self.vec_ctor(s, t, args2, vs, e)))
            return out
        if n == 'std::pair':
            out = []
            for s, vs in E.evals(args, st):
                vs = [self.val(s, v) for v in vs]
                if len(vs) == 2:
                    out.append((s, Rec(t, {'first': vs[0], 'second': vs[1]})))
                elif len(vs) == 0:
                    out.append((s, E.zero(t)))
                elif len(vs) == 1 and isinstance(vs[0], Rec):
                    out.append((s, Rec(t, {'first': vs[0].fields['first'], 'second': vs[0].fields['second']})))
                else:
                    raise Unsupported('pair ctor')
            return out
        if n == '__gnu_cxx::__normal_iterator':
            out = []
            for s, vs in E.evals(args, st):
                out.append((s, self.val(s, vs[0]) if vs else Opaque('iterator')))
            return out
        if n == 'std::map':
            if not args or all(a['t']['k'] == 'rec' and a['t'].get('n') in ('std::allocator', 'std::less') for a in args):
                return [(st, E.zero(t))]
            return None
        if n == 'std::allocator' or n.startswith('std::less') or n.startswith('std::greater'):
            return [(st, Opaque(n))]
        if n.startswith('std::') and not E.repo_rec(t):
            out = []
            for s, vs in E.evals(args, st):
                out.append((s, Opaque(n)))
            return out
        return None

    def vec_ctor(self, s, t, args, vs, e):
        E, T = self.E, self.T
        ety = T.ety(t) if not T.isstr(t) else CH
        if not vs:
            return E.zero(t)
        a0 = self.val(s, vs[0])
        t0 = args[0]['t']
        if T.isstr(t):
            if len(vs) == 1:
                return self.tostr(s, vs[0])
            if len(vs) == 2 and isinstance(a0, z3.ExprRef):
                c = self.val(s, vs[1])
                return Vec(T, CH, a0, z3.K(T.idxsort(), c), 'string')
            if isinstance(a0, Ptr) and isinstance(self.val(s, vs[1]), Ptr):
                pass
            elif isinstance(a0, Vec) and len(vs) >= 2:
                pos = self.val(s, vs[1])
                n = self.val(s, vs[2]) if len(vs) > 2 else a0.len
                ln = z3.If(pos + n <= a0.len, n, a0.len - pos)
                return self.sub(s, a0, pos, ln, 'string')
            elif isinstance(a0, Ptr) and len(vs) == 2:
                b = self.cstr(s, a0)
                n = self.val(s, vs[1])
                return b.with_(ln=n)
        if isinstance(a0, Vec):
            if a0.kind == 'arr' and e.get('il') or t0.get('n') == 'std::initializer_list':
                return Vec(T, ety, a0.len, a0.arr, 'vector')
            return a0
        if isinstance(a0, z3.ExprRef):
            n = self.idx(s, vs[0], t0)
            if len(vs) >= 2:
                fill = T.pack(self.val(s, vs[1]), ety)
            else:
                fill = E.zpack(ety)
            if not E.bv and not E.quick(s, n <= (1 << 60)):
                E.assumed.add('std::vector length below max_size')
                s.assume(n <= (1 << 60))
            return Vec(T, ety, n, z3.K(T.idxsort(), fill), 'vector')
        if isinstance(a0, Ptr):
            l, i = self.pos(a0)
            l2, j = self.pos(self.val(s, vs[1]))
            v = E.read(s, l)
            return self.sub(s, v, i, j - i, 'string' if T.isstr(t) else 'vector')
        raise Unsupported('vector ctor')

    # -------------------------------------------------------------- calls
    def call(self, e, fn, st, obj, vs):
        q, nm = fn['q'], fn['nm']
        E, T = self.E, self.T
        cls = fn.get('cls')
        # members
        if cls is not None and obj is not None:
            n = cls.get('n', '')
            if n in VECTORS or n in STRINGS or n == 'std::_Vector_base':
                self.trust(n + '::' + nm)
                if T.isstr(cls):
                    return self.string_member(e, fn, st, obj, vs, nm)
                return self.vec_member(e, fn, st, obj, vs, nm)
            if n in ITERS:
                return self.iter_member(e, fn, st, obj, vs, nm)
            if n == 'std::_Bit_reference':
                while isinstance(obj, Loc) and isinstance(E.read(st, obj), Loc):
                    obj = E.read(st, obj)
                if nm == 'operator bool':
                    return [(st, self.val(st, obj))]
                if nm == 'operator=':
                    E.write(st, obj, self.val(st, vs[0]))
                    return [(st, obj)]
            if n == 'std::complex':
                self.trust('std::complex')
                return self.complex_member(e, fn, st, obj, vs, nm)
            if n == 'std::initializer_list':
                v = self.val(st, obj)
                if nm == 'size':
                    return [(st, v.len)]
            if n == 'std::pair' and nm == 'operator=':
                E.write(st, obj, self.val(st, vs[0]))
                return [(st, obj)]
            if n == 'std::map':
                self.trust('std::map::' + nm)
                return self.map_member(e, fn, st, obj, vs, nm)
            if n.startswith('std::') and self.isstream(n):
                return self.stream(e, fn, st, obj, vs)
        # free functions / operators
        if q.startswith('std::') or q.startswith('__gnu_cxx::') or '::' not in q or cls is None:
            r = self.free(e, fn, st, obj, vs, q, nm)
            if r is not None:
                return r
        return None

    def isstream(self, n):
        return 'stream' in n or n in ('std::basic_ios', 'std::ios_base', 'std::runtime_error', 'std::exception', 'std::logic_error')

    def stream(self, e, fn, st, obj, vs):
        nm = fn['nm']
        if nm == 'operator<<' or nm in ('flush', 'close', 'precision', 'width', 'setf', 'unsetf', 'put', 'write'):
            if fn['rt']['k'] == 'ref':
                return [(st, obj)]
            return [(st, self.E.fresh(fn['rt'], 'stream', []))]
        fs = []
        rt = fn['rt']
        if rt['k'] == 'ref':
            if nm in ('operator>>', 'get', 'read', 'getline'):
                raise Unsupported('stream input ' + nm)
            return [(st, obj)]
        if rt['k'] == 'rec':
            if self.T.isstr(rt):
                v = self.E.fresh(rt, 'streamstr', fs)
                st.assume(*fs)
                return [(st, v)]
            return [(st, Opaque('stream'))]
        v = self.E.fresh(rt, 'stream', fs)
        st.assume(*fs)
        return [(st, v)]

    def complex_member(self, e, fn, st, obj, vs, nm):
        E = self.E
        x = self.val(st, obj)
        if nm in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
            y = self.val(st, vs[0])
            if z3.is_int(y):
                y = z3.ToReal(y)
            r = {'operator=': lambda: y, 'operator+=': lambda: x + y, 'operator-=': lambda: x - y, 'operator*=': lambda: E.fmul(x, y), 'operator/=': lambda: E.fdiv(x, y)}[nm]()
            E.write(st, obj, r)
            return [(st, obj)]
        if nm in ('real', 'imag') and not vs:
            f = z3.Function('c' + nm, z3.RealSort(), z3.RealSort())
            return [(st, f(x))]
        raise Unsupported('complex ' + nm)

    def vec_member(self, e, fn, st, obj, vs, nm):
        E, T = self.E, self.T
        loc = obj if isinstance(obj, Loc) else None
        v = self.val(st, obj)
        if isinstance(v, Opaque):
            raise Unsupported('vector of unmodelled elements')
        one = T.idxval(1)
        argt = [a['t'] for a in e['args']]
        if loc is None:
            loc = Loc(E.new_root(e['obj']['t'], v, st))
        if nm == 'size' or nm == 'length':
            return [(st, v.len)]
        if nm == 'empty':
            return [(st, v.len == T.idxval(0))]
        if nm == 'capacity' or nm == 'max_size':
            fs = []
            x = E.fresh(SZ, 'cap', fs)
            st.assume(*fs)
            return [(st, x)]
        if nm in ('operator[]', 'at'):
            i = self.idx(st, vs[0], argt[0])
            i0 = z3.simplify(i)
            if nm == 'at':
                c = z3.And(i >= 0, i < v.len) if not E.bv else z3.ULT(T.idxterm(i), v.len)
                if not E.quick(st, c):
                    bad = st.fork()
                    bad.assume(z3.Not(c))
                    if not E._infeasible(bad):
                        bad.trace = bad.trace + (('throw', 'at'),)
                        E.thrown.append((bad, e.get('loc', '')))
                    st.assume(c)
            else:
                E.index_ok(st, i, v.len, 'vector index in bounds', e.get('loc', ''))
            return [(st, loc.i(i))]
        if nm == 'push_back' or nm == 'emplace_back':
            x = self.val(st, vs[0])
            E.write(st, loc, v.with_(ln=z3.simplify(v.len + one), arr=z3.Store(v.arr, v.len, T.pack(x, v.ety))))
            return [(st, None)]
        if nm == 'pop_back':
            E.oblige(st, v.len != T.idxval(0), 'pop_back on non-empty vector', 'bounds', e.get('loc', ''))
            E.write(st, loc, v.with_(ln=v.len - one))
            return [(st, None)]
        if nm == 'clear':
            E.write(st, loc, v.with_(ln=T.idxval(0)))
            return [(st, None)]
        if nm == 'reserve' or nm == 'shrink_to_fit':
            return [(st, None)]
        if nm == 'resize':
            n = self.idx(st, vs[0], argt[0])
            fill = T.pack(self.val(st, vs[1]), v.ety) if len(vs) > 1 else E.zpack(v.ety)
            if not E.bv and not E.quick(st, n <= (1 << 60)):
                E.assumed.add('std::vector length below max_size')
                st.assume(n <= (1 << 60))
            E.write(st, loc, self.grow(st, v, n, fill))
            return [(st, None)]
        if nm == 'assign':
            a0 = self.val(st, vs[0])
            if isinstance(a0, Ptr):
                l, i = self.pos(a0)
                _, j = self.pos(self.val(st, vs[1]))
                w = E.read(st, l)
                E.write(st, loc, self.sub(st, w, i, j - i, 'vector'))
            else:
                E.write(st, loc, v.with_(ln=a0, arr=z3.K(T.idxsort(), T.pack(self.val(st, vs[1]), v.ety))))
            return [(st, None)]
        if nm == 'operator=':
            w = self.val(st, vs[0])
            E.write(st, loc, Vec(T, v.ety, w.len, w.arr, v.kind))
            return [(st, loc)]
        if nm == 'swap':
            w = self.val(st, vs[0])
            E.write(st, loc, w)
            E.write(st, vs[0], v)
            return [(st, None)]
        if nm in ('begin', 'cbegin', 'data'):
            return [(st, self.iter(loc, T.idxval(0)))]
        if nm in ('end', 'cend'):
            return [(st, self.iter(loc, v.len))]
        if nm == 'back':
            E.oblige(st, v.len != T.idxval(0), 'back() of non-empty vector', 'bounds', e.get('loc', ''))
            return [(st, loc.i(z3.simplify(v.len - one)))]
        if nm == 'front':
            E.oblige(st, v.len != T.idxval(0), 'front() of non-empty vector', 'bounds', e.get('loc', ''))
            return [(st, loc.i(T.idxval(0)))]
        if nm == 'erase':
            _, i = self.pos(self.val(st, vs[0]))
            if len(vs) > 1:
                _, j = self.pos(self.val(st, vs[1]))
            else:
                j = i + one
                E.oblige(st, z3.And(i >= 0, i < v.len), 'erase position valid', 'bounds', e.get('loc', ''))
            from .engine import fresh_name
            arr = z3.Const(fresh_name('er'), v.arr.sort())
            k = z3.Const(fresh_name('k'), T.idxsort())
            st.assume(z3.ForAll([k], arr[k] == z3.If(k < i, v.arr[k], v.arr[k + (j - i)]), patterns=[arr[k]]))
            E.write(st, loc, v.with_(ln=v.len - (j - i), arr=arr))
            return [(st, self.iter(loc, i))]
        if nm == 'insert':
            _, i = self.pos(self.val(st, vs[0]))
            from .engine import fresh_name
            arr = z3.Const(fresh_name('ins'), v.arr.sort())
            k = z3.Const(fresh_name('k'), T.idxsort())
            if len(vs) == 2:
                x = T.pack(self.val(st, vs[1]), v.ety)
                st.assume(z3.ForAll([k], arr[k] == z3.If(k < i, v.arr[k], z3.If(k == i, x, v.arr[k - 1])), patterns=[arr[k]]))
                E.write(st, loc, v.with_(ln=v.len + 1, arr=arr))
            elif len(vs) == 3 and isinstance(self.val(st, vs[1]), Ptr):
                l2, a = self.pos(self.val(st, vs[1]))
                _, b = self.pos(self.val(st, vs[2]))
                w = E.read(st, l2)
                n = b - a
                st.assume(z3.ForAll([k], arr[k] == z3.If(k < i, v.arr[k], z3.If(k < i + n, w.arr[k - i + a], v.arr[k - n])), patterns=[arr[k]]))
                E.write(st, loc, v.with_(ln=v.len + n, arr=arr))
            else:
                raise Unsupported('vector insert')
            return [(st, self.iter(loc, i))]
        raise Unsupported('vector::' + nm)

    def iter_member(self, e, fn, st, obj, vs, nm):
        E = self.E
        p = self.val(st, obj)
        if 'obj' in e and e['obj']['t'].get('n') == 'std::reverse_iterator':
            # kept as the position of its base
            if nm == 'operator*':
                l, i = self.pos(p)
                E.index_ok(st, i - 1, E.read(st, l).len, 'iterator dereference in range', e.get('loc', ''))
                return [(st, l.i(i - 1))]
            if nm in ('operator++', 'operator--'):
                new = E.ptradd(st, p, -1 if nm == 'operator++' else 1)
                E.write(st, obj, new)
                return [(st, p if vs else obj)]
            if nm not in ('base', 'operator='):
                raise Unsupported('reverse iterator ' + nm)
        if nm == 'operator*':
            l, i = self.pos(p)
            b = E.read(st, l)
            E.index_ok(st, i, b.len, 'iterator dereference in range', e.get('loc', ''))
            return [(st, p.loc)]
        if nm == 'operator->':
            return [(st, p)]
        if nm == 'operator++' or nm == 'operator--':
            new = E.ptradd(st, p, 1 if nm == 'operator++' else -1)
            E.write(st, obj, new)
            return [(st, p if vs else obj)]
        if nm in ('operator+', 'operator-'):
            n = self.val(st, vs[0])
            return [(st, E.ptradd(st, p, n if nm == 'operator+' else -n))]
        if nm in ('operator+=', 'operator-='):
            n = self.val(st, vs[0])
            E.write(st, obj, E.ptradd(st, p, n if nm == 'operator+=' else -n))
            return [(st, obj)]
        if nm == 'operator[]':
            n = self.val(st, vs[0])
            return [(st, E.ptradd(st, p, n).loc)]
        if nm == 'operator=':
            E.write(st, obj, self.val(st, vs[0]))
            return [(st, obj)]
        if nm == 'base':
            return [(st, p)]
        raise Unsupported('iterator ' + nm)

    def map_member(self, e, fn, st, obj, vs, nm):
        E, T = self.E, self.T
        m = self.val(st, obj)
        raise Unsupported('map::' + nm)

    def string_member(self, e, fn, st, obj, vs, nm):
        E, T = self.E, self.T
        if nm in ('size', 'length', 'empty', 'operator[]', 'at', 'clear', 'push_back', 'pop_back', 'begin', 'end', 'back', 'front', 'reserve', 'swap', 'resize', 'cbegin', 'cend'):
            if nm in ('operator[]',):
                loc = obj if isinstance(obj, Loc) else Loc(E.new_root(e['obj']['t'], obj, st))
                v = self.val(st, obj)
                i = self.idx(st, vs[0], e['args'][0]['t'])
                # s[size()] is the terminating NUL
                if not E.quick(st, i < v.len):
                    E.oblige(st, z3.And(i >= 0, i <= v.len), 'string index in bounds', 'bounds', e.get('loc', ''))
                    r = z3.If(i < v.len, v.arr[i], T.ival(0, CH))
                    if e.get('t', {}).get('c'):
                        return [(st, Loc(E.new_root(CH, r, st)))]
                    if E.quick(st, i >= v.len):
                        return [(st, Loc(E.new_root(CH, T.ival(0, CH), st)))]
                    end = st.fork()
                    end.assume(i >= v.len)
                    st.assume(i < v.len)
                    return ([] if E._infeasible(end) else [(end, Loc(E.new_root(CH, T.ival(0, CH), end)))]) + [(st, loc.i(i))]
                return [(st, loc.i(i))]
            if isinstance(obj, Loc) or nm in ('size', 'length', 'empty'):
                return self.vec_member(e, fn, st, obj, vs, nm)
            return self.vec_member(e, fn, st, obj, vs, nm)
        v = self.val(st, obj)
        if isinstance(v, Opaque):
            raise Unsupported('opaque string')
        if nm in ('c_str', 'data'):
            loc = obj if isinstance(obj, Loc) else Loc(E.new_root(e['obj']['t'], v, st))
            return [(st, Ptr(loc.i(T.idxval(0)), z3.BoolVal(False)))]
        if nm in ('operator=', 'assign'):
            E.write(st, obj, self.tostr(st, vs[0]))
            return [(st, obj)]
        if nm in ('operator+=', 'append'):
            if len(vs) == 1:
                w = self.tostr(st, vs[0])
            elif len(vs) == 2 and isinstance(self.val(st, vs[0]), z3.ExprRef):
                w = Vec(T, CH, self.val(st, vs[0]), z3.K(T.idxsort(), self.val(st, vs[1])), 'string')
            else:
                raise Unsupported('string append')
            E.write(st, obj, self.concat(st, v, w))
            return [(st, obj)]
        if nm == 'substr':
            pos = self.val(st, vs[0]) if vs else T.idxval(0)
            n = self.val(st, vs[1]) if len(vs) > 1 else v.len
            c = pos <= v.len
            if not E.quick(st, c):
                bad = st.fork()
                bad.assume(z3.Not(c))
                if not E._infeasible(bad):
                    E.thrown.append((bad, e.get('loc', '')))
                st.assume(c)
            nn = n
            if E.quick(st, pos + n <= v.len):
                ln = n
            else:
                from .engine import fresh_name
                ln = z3.Const(fresh_name('sublen'), T.idxsort())
                st.assume(ln == z3.If(pos + n <= v.len, n, v.len - pos))
            return [(st, self.sub(st, v, pos, ln, 'string'))]
        if nm == 'find':
            from .engine import fresh_name
            w = self.tostr(st, vs[0])
            pos = self.val(st, vs[1]) if len(vs) > 1 else T.idxval(0)
            npos = z3.IntVal((1 << 64) - 1)
            lit = self.literal(v)
            if lit is not None and z3.is_int_value(z3.simplify(w.len)) and z3.simplify(w.len).as_long() == 1 and z3.is_int_value(z3.simplify(pos)) and z3.simplify(pos).as_long() == 0:
                # a character looked up in a known text: the position as a function of the character
                F = z3.Function('find_in_' + lit, z3.IntSort(), z3.IntSort())
                c = z3.Const('fc', z3.IntSort())
                first = {}
                for k, x in enumerate(lit):
                    first.setdefault(x, k)
                st.assume(z3.And(*[F(ord(x)) == k for x, k in first.items()]))
                L = z3.Function('char_of_' + lit, z3.IntSort(), z3.IntSort())
                st.assume(z3.And(*[L(k) == ord(x) for k, x in enumerate(lit)]))
                st.assume(z3.ForAll([c], z3.Or(F(c) == npos, z3.And(F(c) >= 0, F(c) < len(lit), L(F(c)) == c)), patterns=[F(c)]))
                return [(st, F(z3.simplify(w.arr[0])))]
            r = z3.Const(fresh_name('find'), z3.IntSort())
            k = z3.Const(fresh_name('k'), z3.IntSort())
            m = self.matchat(st, v, w)
            st.assume(z3.Or(r == npos, z3.And(r >= pos, r + w.len <= v.len, r >= 0, m(r))))
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= pos, k < r, k + w.len <= v.len, k >= 0), z3.Not(m(k))), patterns=[m.pat(k)]))
            return [(st, r)]
        if nm in ('find_first_of', 'find_first_not_of'):
            from .engine import fresh_name
            w = self.tostr(st, vs[0])
            pos = self.val(st, vs[1]) if len(vs) > 1 else T.idxval(0)
            npos = z3.IntVal((1 << 64) - 1)
            r, k = z3.Const(fresh_name('found'), z3.IntSort()), z3.Const(fresh_name('k'), z3.IntSort())
            inset = self.inset(w)
            hit = inset if nm == 'find_first_of' else (lambda c: z3.Not(inset(c)))
            st.assume(z3.Or(r == npos, z3.And(r >= pos, r < v.len, r >= 0, hit(v.arr[r]))))
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= pos, k >= 0, k < r, k < v.len), z3.Not(hit(v.arr[k]))), patterns=[v.arr[k]]))
            return [(st, r)]
        if nm in ('rfind', 'find_last_of') and (len(vs) == 1 or z3.is_int_value(z3.simplify(self.val(st, vs[1]))) and z3.simplify(self.val(st, vs[1])).as_long() == (1 << 64) - 1):
            from .engine import fresh_name
            w = self.tostr(st, vs[0])
            npos = z3.IntVal((1 << 64) - 1)
            r, k = z3.Const(fresh_name('found'), z3.IntSort()), z3.Const(fresh_name('k'), z3.IntSort())
            if nm == 'rfind' and not (z3.is_int_value(z3.simplify(w.len)) and z3.simplify(w.len).as_long() == 1):
                raise Unsupported('rfind of a text')
            hit = self.inset(w)
            st.assume(z3.Or(r == npos, z3.And(r < v.len, r >= 0, hit(v.arr[r]))))
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, z3.Or(r == npos, k > r), k < v.len), z3.Not(hit(v.arr[k]))), patterns=[v.arr[k]]))
            return [(st, r)]
        if nm == 'replace' and len(vs) == 3:
            w = self.tostr(st, vs[2])
            pos, n = self.val(st, vs[0]), self.val(st, vs[1])
            if isinstance(pos, Ptr):
                raise Unsupported('string::replace')
            c = pos <= v.len
            if not E.quick(st, c):
                bad = st.fork()
                bad.assume(z3.Not(c))
                if not E._infeasible(bad):
                    E.thrown.append((bad, e.get('loc', '')))
                st.assume(c)
            if not E.quick(st, pos + n <= v.len):
                n = z3.If(pos + n <= v.len, n, v.len - pos)
            from .engine import fresh_name
            arr, k = z3.Const(fresh_name('repl'), v.arr.sort()), z3.Const(fresh_name('k'), T.idxsort())
            st.assume(z3.ForAll([k], z3.Implies(k < pos, arr[k] == v.arr[k]), patterns=[arr[k]]))
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= pos, k < pos + w.len), arr[k] == w.arr[k - pos]), patterns=[arr[k]]))
            st.assume(z3.ForAll([k], z3.Implies(k >= pos + w.len, arr[k] == v.arr[k - w.len + n]), patterns=[arr[k]]))
            E.write(st, obj, v.with_(ln=v.len - n + w.len, arr=arr))
            return [(st, obj)]
        if nm == 'compare':
            raise Unsupported('string::compare')
        if nm in ('rbegin', 'rend', 'crbegin', 'crend') and isinstance(obj, Loc):
            return [(st, self.iter(obj, v.len if 'begin' in nm else T.idxval(0)))]
        raise Unsupported('string::' + nm)

    def predicate(self, st, t, fn, x):
        """the answer of a function object for the value x (an expression); the object must not have side effects"""
        E = self.E
        from .engine import Closure
        f = self.val(st, fn)
        s2 = st.fork()
        if isinstance(f, Closure):
            res = E.call_closure(f, s2, [x], [], {})
        else:
            fs = [g for g in E.funcs.values() if g['nm'] == 'operator()' and (g.get('cls') or {}).get('full') == t.get('full')]
            if len(fs) != 1 or len(fs[0]['params']) != 1:
                raise Unsupported('function object ' + t.get('full', ''))
            g = fs[0]
            this = fn if isinstance(fn, Loc) else Loc(E.new_root(t, f, s2))
            pt = g['params'][0]['t']
            a = x if pt['k'] != 'ref' else Loc(E.new_root(pt['to'], x, s2))
            res = E.call_body(g, s2, this, [a], [{'t': pt}], dict(g, pt=[pt]))
        if len(res) != 1:
            raise Unsupported('function object with branches')
        r = res[0][1]
        return r if z3.is_bool(r) else r != 0

    def inset(self, w):
        """predicate c -> character c is one of those of the text w"""
        T = self.T
        n = z3.simplify(w.len)
        if z3.is_int_value(n) and n.as_long() <= 16:
            return lambda c: z3.Or(*[c == z3.simplify(w.arr[j]) for j in range(n.as_long())]) if n.as_long() else z3.BoolVal(False)
        P = z3.Function('inset', w.arr.sort(), z3.IntSort(), w.arr.sort().range(), z3.BoolSort())
        if 'inset' not in self.E.bitfs:
            self.E.bitfs.add('inset')
            W = z3.Function('inset_at', w.arr.sort(), z3.IntSort(), w.arr.sort().range(), z3.IntSort())
            a, n_, k, c = z3.Const('is_a', w.arr.sort()), z3.Int('is_n'), z3.Int('is_k'), z3.Const('is_c', w.arr.sort().range())
            self.E.axioms.append(z3.ForAll([a, n_, c], z3.Implies(P(a, n_, c), z3.And(W(a, n_, c) >= 0, W(a, n_, c) < n_, a[W(a, n_, c)] == c)), patterns=[P(a, n_, c)]))
            self.E.axioms.append(z3.ForAll([a, n_, c, k], z3.Implies(z3.And(k >= 0, k < n_, a[k] == c), P(a, n_, c)), patterns=[z3.MultiPattern(P(a, n_, c), a[k])]))
        return lambda c: P(w.arr, w.len, c)

    def sametext(self, st, a, b):
        """equality of two texts, as a predicate that may be quantified over"""
        P, ax = SAMETEXT(a.arr.sort())
        st.assume(ax)
        return P(a.arr, a.len, b.arr, b.len)

    def literal(self, v):
        """the text, if all of it is known (printable, at most 128 characters)"""
        n = z3.simplify(v.len)
        if not z3.is_int_value(n) or not 0 < n.as_long() <= 128:
            return None
        out = ''
        for k in range(n.as_long()):
            x = z3.simplify(v.arr[k])
            if not z3.is_int_value(x) or not 32 <= x.as_long() < 127:
                return None
            out += chr(x.as_long())
        return out

    def matchat(self, st, v, w):
        """predicate k -> w occurs in v at k"""
        T = self.T
        lw = z3.simplify(w.len)
        if z3.is_int_value(lw) and lw.as_long() <= 16:
            n = lw.as_long()
            f = lambda k: z3.And(*[v.arr[k + j] == z3.simplify(w.arr[j]) for j in range(n)]) if n else z3.BoolVal(True)
            f.pat = lambda k: v.arr[k]
            return f
        P = z3.Function('text_at', v.arr.sort(), w.arr.sort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        f = lambda k: P(v.arr, w.arr, w.len, k)
        f.pat = lambda k: P(v.arr, w.arr, w.len, k)
        a = z3.Const('ma', v.arr.sort())
        b = z3.Const('mb', w.arr.sort())
        n, k, j = z3.Ints('mn mk mj')
        W = z3.Function('text_at_w', v.arr.sort(), w.arr.sort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
        st.assume(z3.ForAll([a, b, n, k, j], z3.Implies(z3.And(P(a, b, n, k), j >= 0, j < n), a[k + j] == b[j]), patterns=[z3.MultiPattern(P(a, b, n, k), b[j])]))
        st.assume(z3.ForAll([a, b, n, k], z3.Or(P(a, b, n, k), z3.And(W(a, b, n, k) >= 0, W(a, b, n, k) < n, a[k + W(a, b, n, k)] != b[W(a, b, n, k)])), patterns=[P(a, b, n, k)]))
        return f

    # -------------------------------------------------------------- free functions
    def free(self, e, fn, st, obj, vs, q, nm):
        E, T = self.E, self.T
        allv = ([obj] if obj is not None else []) + vs
        av = None
        base = q.split('::')[-1]
        args = ([e['obj']] if obj is not None and 'obj' in e else []) + e['args']
        at = [a['t'] for a in args]

        def v(i):
            return self.val(st, allv[i])

        # streams
        if nm in ('operator<<', 'operator>>') and at and at[0]['k'] == 'rec' and self.isstream(at[0].get('n', '')) and q.startswith('std::'):
            if nm == 'operator>>':
                # what is read is arbitrary
                if len(allv) != 2 or not isinstance(allv[1], Loc) or at[1]['k'] not in ('int', 'bool', 'fp', 'float', 'rec', 'enum'):
                    raise Unsupported('stream input ' + str(e.get('loc')))
                fs = []
                w = E.fresh(at[1], 'read', fs)
                st.assume(*fs)
                E.write(st, allv[1], w)
            return [(st, allv[0])]
        if nm in ('endl', 'flush') and q.startswith('std::'):
            return [(st, allv[0])]
        # iterator comparisons / arithmetic (free operators of __normal_iterator)
        if q.startswith('__gnu_cxx::operator') or (q.startswith('std::operator') and len(at) == 2 and T.isiter(at[0]) and T.isiter(at[1])):
            op = nm[len('operator'):]
            x, y = v(0), v(1)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return [(st, E.ptrcmp(st, op, x, y))]
            if op == '-':
                return [(st, x.loc.path[-1][1] - y.loc.path[-1][1])]
            if op == '+':
                return [(st, E.ptradd(st, y, x))]
        # strings
        strs = [i for i, t in enumerate(at) if T.isstr(t)]
        if q.startswith('std::') and strs and nm in ('operator+', 'operator==', 'operator!=', 'operator<'):
            if nm == 'operator+':
                return [(st, self.concat(st, self.tostr(st, allv[0]), self.tostr(st, allv[1])))]
            if nm in ('operator==', 'operator!='):
                r = self.streq(st, self.tostr(st, allv[0]), self.tostr(st, allv[1]))
                return [(st, r if nm == 'operator==' else z3.Not(r))]
            raise Unsupported('string order')
        # vectors ==
        if q.startswith('std::operator') and nm in ('operator==', 'operator!=') and len(at) == 2 and T.isvec(at[0]) and fn['id'] not in E.funcs:
            r = self.streq(st, v(0), v(1))
            return [(st, r if nm == 'operator==' else z3.Not(r))]
        # complex
        cx = [i for i, t in enumerate(at) if t['k'] == 'rec' and t.get('n') == 'std::complex']
        if q.startswith('std::') and cx and fn['id'] not in E.funcs:
            self.trust('std::complex ' + nm)
            x = v(0)
            if z3.is_int(x):
                x = z3.ToReal(x)
            if len(allv) == 2:
                y = v(1)
                if z3.is_int(y):
                    y = z3.ToReal(y)
                op = nm[len('operator'):] if nm.startswith('operator') else ''
                if op == '+':
                    return [(st, x + y)]
                if op == '-':
                    return [(st, x - y)]
                if op == '*':
                    return [(st, E.fmul(x, y))]
                if op == '/':
                    return [(st, E.fdiv(x, y))]
                if op == '==':
                    return [(st, x == y)]
                if op == '!=':
                    return [(st, x != y)]
            else:
                if nm == 'operator-':
                    return [(st, -x)]
                if nm == 'operator+':
                    return [(st, x)]
                if nm == 'conj':
                    return [(st, E.conjf(x))]
                if nm in ('real', 'imag', 'norm', 'abs', 'arg'):
                    f = z3.Function('c' + nm, z3.RealSort(), z3.RealSort())
                    r = f(x)
                    if nm in ('norm', 'abs'):
                        st.assume(r >= 0)
                    return [(st, r)]
            raise Unsupported('complex ' + nm)
        if q in ('std::min', 'std::max') and len(allv) == 2:
            x, y = v(0), v(1)
            c = E.cmpop('<', y, x, at[0]) if q == 'std::min' else E.cmpop('<', x, y, at[0])
            r = E.named(st, z3.If(c, y, x))
            return [(st, Loc(E.new_root(fn['rt']['to'], r, st)))]
        if base in ('abs', 'fabs') and (q.startswith('std::') or '::' not in q):
            x = v(0)
            if z3.is_real(x):
                return [(st, z3.If(x >= 0, x, -x))]
            if E.bv:
                return [(st, z3.If(x >= 0, x, -x))]
            return [(st, E.wrap(st, z3.If(x >= 0, x, -x), at[0], 'abs', e.get('loc', '')))]
        if base in ('labs', 'llabs'):
            x = v(0)
            return [(st, z3.If(x >= 0, x, -x))]
        if base in MATH1 and (q.startswith('std::') or '::' not in q) and len(allv) == 1 and z3.is_real(v(0)):
            f = z3.Function('m_' + base, z3.RealSort(), z3.RealSort())
            self.trust('libm ' + base + ' (uninterpreted)')
            x = v(0)
            if base == 'sqrt':
                st.assume(z3.Implies(x >= 0, z3.And(f(x) >= 0)))
            return [(st, f(x))]
        if q in ('std::pow', 'pow') and len(allv) == 2:
            f = z3.Function('m_pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
            x, y = v(0), v(1)
            if z3.is_int(x):
                x = z3.ToReal(x)
            if z3.is_int(y):
                y = z3.ToReal(y)
            return [(st, f(x, y))]
        if q in ('std::real', 'std::imag', 'std::conj', 'std::norm') and z3.is_real(v(0)):
            x = v(0)
            return [(st, {'real': x, 'imag': z3.RealVal(0), 'conj': x, 'norm': E.fmul(x, x)}[base])]
        if q == 'std::swap' and len(allv) == 2:
            x, y = v(0), v(1)
            E.write(st, allv[0], y)
            E.write(st, allv[1], x)
            return [(st, None)]
        if q in ('std::move', 'std::forward'):
            return [(st, allv[0])]
        if q in ('std::make_pair',):
            return [(st, Rec(fn['rt'], {'first': v(0), 'second': v(1)}))]
        if q == 'std::fill':
            l, i = self.pos(v(0))
            _, j = self.pos(v(1))
            return [(st, self.fillrange(st, l, i, j, v(2)))]
        if q in ('memcpy', 'std::memcpy', 'std::copy'):
            if q == 'std::copy':
                l, i = self.pos(v(0))
                _, j = self.pos(v(1))
                d, k0 = self.pos(v(2))
                n = j - i
            else:
                raise Unsupported('memcpy')
            src, dst = E.read(st, l), E.read(st, d)
            E.oblige(st, z3.And(k0 >= 0, k0 + n <= dst.len, i >= 0, n >= 0, j <= src.len), 'std::copy stays in range', 'bounds', e.get('loc', ''))
            from .engine import fresh_name
            arr = z3.Const(fresh_name('cp'), dst.arr.sort())
            k = z3.Const(fresh_name('k'), T.idxsort())
            st.assume(z3.ForAll([k], arr[k] == z3.If(z3.And(k >= k0, k < k0 + n), src.arr[k - k0 + i], dst.arr[k]), patterns=[arr[k]]))
            E.write(st, d.i(T.idxval(0)), E.read(st, d.i(T.idxval(0))))
            E.write(st, d, dst.with_(arr=arr))
            return [(st, Ptr(d.i(k0 + n), z3.BoolVal(False)))]
        if q == 'std::sort':
            return self.sort(e, fn, st, allv)
        if q in ('std::min_element', 'std::max_element') and len(allv) == 2:
            l, i = self.pos(v(0))
            _, j = self.pos(v(1))
            w = E.read(st, l)
            self.trust(q)
            from .engine import fresh_name
            r = z3.Const(fresh_name('ext'), T.idxsort())
            k = z3.Const(fresh_name('k'), T.idxsort())
            le = E.cmpop('<=', w.arr[r], w.arr[k], w.ety) if q == 'std::min_element' else E.cmpop('>=', w.arr[r], w.arr[k], w.ety)
            st.assume(z3.If(i < j, z3.And(i <= r, r < j), r == j),
                      z3.ForAll([k], z3.Implies(z3.And(i <= k, k < j), le), patterns=[w.arr[k]]))
            return [(st, self.iter(l, r))]
        if q in ('std::find',):
            from .engine import fresh_name
            l, i = self.pos(v(0))
            _, j = self.pos(v(1))
            vec = E.read(st, l)
            x = v(2)
            if isinstance(x, Vec) or isinstance(x, Ptr):
                x = self.tostr(st, x)
                r, k = z3.Const(fresh_name('find'), T.idxsort()), z3.Const(fresh_name('k'), T.idxsort())
                st.assume(z3.And(r >= i, r <= j, z3.Implies(r < j, self.sametext(st, vec[r], x))))
                same = self.sametext(st, vec[k], x)
                st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= i, k < r), z3.Not(same)), patterns=[same]))
                return [(st, self.iter(l, r))]
            r = z3.Const(fresh_name('find'), T.idxsort())
            k = z3.Const(fresh_name('k'), T.idxsort())
            px = T.pack(x, vec.ety)
            st.assume(z3.And(r >= i, r <= j, z3.Implies(r < j, vec.arr[r] == px)))
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= i, k < r), vec.arr[k] != px), patterns=[vec.arr[k]]))
            return [(st, self.iter(l, r))]
        if q == 'std::find_if' and at[2]['k'] == 'rec':
            from .engine import fresh_name
            l, i = self.pos(v(0))
            _, j = self.pos(v(1))
            vec = E.read(st, l)
            rev = at[0].get('n') == 'std::reverse_iterator'
            k = z3.Const(fresh_name('k'), T.idxsort())
            hit = self.predicate(st, at[2], allv[2], vec[k])
            at_ = lambda x: z3.substitute(hit, (k, x))
            r = z3.Const(fresh_name('find'), T.idxsort())
            if rev:
                st.assume(z3.And(r <= i, r >= j, z3.Implies(r > j, at_(r - 1))))
                st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= r, k < i), z3.Not(hit)), patterns=[vec.arr[k]]))
            else:
                st.assume(z3.And(r >= i, r <= j, z3.Implies(r < j, at_(r))))
                st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= i, k < r), z3.Not(hit)), patterns=[vec.arr[k]]))
            return [(st, self.iter(l, r))]
        if q in ('std::distance',):
            return [(st, self.pos(v(1))[1] - self.pos(v(0))[1])]
        if q in ('std::ldiv', 'ldiv', 'std::div', 'div'):
            x, y = v(0), v(1)
            E.oblige(st, y != 0, 'division by zero', 'div', e.get('loc', ''))
            qq = E.intop(st, '/', x, y, at[0], e.get('loc', ''))
            rr = E.intop(st, '%', x, y, at[0], e.get('loc', ''))
            return [(st, Rec(fn['rt'], {'quot': qq, 'rem': rr}))]
        if q in ('atoi', 'std::atoi', 'atof', 'std::atof', 'strlen'):
            f = {'atoi': INT, 'atof': DBL, 'strlen': SZ}[base]
            if base in ('atoi', 'atof'):
                s = self.cstr(st, allv[0])
                rs = z3.IntSort() if base == 'atoi' else z3.RealSort()
                F = z3.Function('c_' + base, s.arr.sort(), z3.IntSort(), rs)
                r = F(s.arr, s.len)
                if base == 'atoi':
                    st.assume(T.inrange(r, INT))
                return [(st, r)]
        if q in ('std::to_string',):
            fs = []
            r = E.fresh(fn['rt'], 'tostring', fs)
            st.assume(*fs)
            return [(st, r)]
        if q in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'tolower', 'toupper'):
            x = v(0)
            if base == 'isalnum':
                c = z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 90), z3.And(x >= 97, x <= 122))
            elif base == 'isdigit':
                c = z3.And(x >= 48, x <= 57)
            elif base == 'isalpha':
                c = z3.Or(z3.And(x >= 65, x <= 90), z3.And(x >= 97, x <= 122))
            elif base == 'isspace':
                c = z3.Or(x == 32, z3.And(x >= 9, x <= 13))
            else:
                raise Unsupported(base)
            self.trust('ctype ' + base + ' in the C locale')
            return [(st, z3.If(c, T.ival(1, INT), T.ival(0, INT)))]
        if base.startswith('pthread_') or base in ('sched_getcpu', 'strerror', 'sysconf'):
            r = self.pthread(e, fn, st, allv, base)
            if r is not None:
                return r
        if q in ('exit', 'abort', 'std::exit', 'std::abort', 'std::terminate'):
            E.thrown.append((st, e.get('loc', '')))
            return []
        return None

    def pthread(self, e, fn, st, allv, base):
        """POSIX threads, one schedule: a created thread runs to its end at once"""
        E, T = self.E, self.T
        self.trust('POSIX ' + base)
        if base == 'pthread_exit':
            E.thrown.append((st, 'thread exit'))
            return []
        if base == 'strerror':
            return [(st, Opaque('cstr'))]
        if base == 'pthread_create':
            E.assumed.add('a created thread runs its whole function exactly once before pthread_join returns; only the schedule that runs it at once is followed (the tasks do not interact)')
            f = self.val(st, allv[2])
            if isinstance(f, Loc):
                f = E.read(st, f)
            if not isinstance(f, FnV):
                raise Unsupported('thread function')
            g = E.funcs.get(f.fn['id'])
            if g is None:
                raise Unsupported('thread function body')
            saved, E.thrown = E.thrown, []
            depth = len(st.frames)
            outs = [s for s, _ in E.call_body(g, st, None, [self.val(st, allv[3])], e['args'][3:4], f.fn)]
            thr, E.thrown = E.thrown, saved
            for s, l in thr:
                if l != 'thread exit':
                    E.thrown.append((s, l))
                    continue
                s.frames = s.frames[:depth]
                outs.append(s)
            res = []
            for s in outs:
                res.append((s, E.fresh(INT, 'ret')))
            return res
        if fn['rt']['k'] == 'void':
            return [(st, None)]
        fs = []
        v = E.fresh(fn['rt'], base, fs)
        st.assume(*fs)
        return [(st, v)]

    def fillrange(self, st, l, i, j, x):
        E, T = self.E, self.T
        from .engine import fresh_name
        v = E.read(st, l)
        arr = z3.Const(fresh_name('fill'), v.arr.sort())
        k = z3.Const(fresh_name('k'), T.idxsort())
        st.assume(z3.ForAll([k], arr[k] == z3.If(z3.And(k >= i, k < j), T.pack(x, v.ety), v.arr[k]), patterns=[arr[k]]))
        E.write(st, l, v.with_(arr=arr))
        return None

    def sort(self, e, fn, st, allv):
        """std::sort(first,last[,comp]): the range becomes a permutation of itself,
        ordered by comp (adjacent elements not inverted)."""
        E, T = self.E, self.T
        from .engine import fresh_name
        self.trust('std::sort')
        l, i = self.pos(self.val(st, allv[0]))
        _, j = self.pos(self.val(st, allv[1]))
        v = E.read(st, l)
        arr = z3.Const(fresh_name('sorted'), v.arr.sort())
        P = z3.Const(fresh_name('perm'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        Q = z3.Const(fresh_name('pinv'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        a, b = z3.Int(fresh_name('a')), z3.Int(fresh_name('b'))
        inr = lambda x: z3.And(x >= i, x < j)
        st.assume(z3.ForAll([a], z3.Implies(inr(a), z3.And(inr(P[a]), Q[P[a]] == a, arr[a] == v.arr[P[a]])), patterns=[arr[a]]))
        st.assume(z3.ForAll([a], z3.Implies(inr(a), z3.And(inr(P[a]), Q[P[a]] == a, arr[a] == v.arr[P[a]])), patterns=[P[a]]))
        st.assume(z3.ForAll([a], z3.Implies(inr(a), z3.And(inr(Q[a]), P[Q[a]] == a, arr[Q[a]] == v.arr[a])), patterns=[Q[a]]))
        st.assume(z3.ForAll([a], z3.Implies(inr(a), z3.And(inr(Q[a]), P[Q[a]] == a, arr[Q[a]] == v.arr[a])), patterns=[v.arr[a]]))
        st.assume(z3.ForAll([a], z3.Implies(z3.Not(inr(a)), arr[a] == v.arr[a]), patterns=[arr[a]]))
        # comparator
        es = T.sort(v.ety)
        cx, cy, cz = [z3.Const(fresh_name('cmp'), es) for _ in range(3)]
        x, y = T.unpack(cx, v.ety), T.unpack(cy, v.ety)
        if len(allv) > 2:
            c = allv[2]
            cv = self.val(st, c)
            s2 = st.fork()
            n0 = len(s2.pc)
            lx, ly = Loc(E.new_root(v.ety, x, s2)), Loc(E.new_root(v.ety, y, s2))
            em = E.emit
            E.emit = False
            try:
                if isinstance(cv, Closure):
                    rs = E.call_closure(cv, s2, [lx, ly], e['args'][2:3] * 2, e)
                elif isinstance(cv, (Rec, Opaque)):
                    f = None
                    ct = cv.cls['full'] if isinstance(cv, Rec) else None
                    ct = ct or e['args'][2]['t'].get('full')
                    for g in E.funcs.values():
                        if g['nm'] == 'operator()' and g.get('cls', {}).get('full') == ct:
                            f = g
                    if f is None:
                        raise Unsupported('comparator')
                    cl = c if isinstance(c, Loc) else Loc(E.new_root(e['args'][2]['t'], cv, s2))
                    rs = E.call_body(f, s2, cl, [lx, ly], e['args'][2:3] * 2, {'id': f['id']})
                elif isinstance(cv, FnV):
                    f = E.funcs.get(cv.fn['id'])
                    if f is None:
                        raise Unsupported('comparator fn')
                    rs = E.call_body(f, s2, None, [lx, ly], e['args'][2:3] * 2, {'id': f['id']})
                else:
                    raise Unsupported('comparator kind')
            finally:
                E.emit = em
            terms = []
            for s3, r in rs:
                cond = [f for f in s3.pc[n0:]]
                terms.append(z3.And(*(cond + [r])) if len(rs) > 1 else r)
            lessab = z3.simplify(z3.Or(*terms))
        else:
            if isinstance(x, z3.ExprRef):
                lessab = E.cmpop('<', x, y, v.ety)
            elif isinstance(x, Rec) and x.cls['n'] == 'std::pair':
                f, g = x.fields['first'], y.fields['first']
                lessab = z3.Or(f < g, z3.And(f == g, x.fields['second'] < y.fields['second']))
            else:
                raise Unsupported('sort order')
        L = lambda p, q: z3.substitute(lessab, (cx, p), (cy, q))
        if not E.bv:
            for c3 in (cx, cy, cz):
                u = T.unpack(c3, v.ety)
                if isinstance(u, Rec):
                    for n, ft, _ in T.rfields(u.cls):
                        if ft['k'] == 'int':
                            st.assume(T.inrange(u.fields[n], ft))
                elif v.ety['k'] == 'int':
                    st.assume(T.inrange(u, v.ety))
        loc = e.get('loc', '')
        E.oblige(st, z3.Not(L(cx, cx)), 'std::sort: the ordering is irreflexive', 'callee precondition', loc)
        E.oblige(st, z3.Implies(L(cx, cy), z3.Not(L(cy, cx))), 'std::sort: the ordering is asymmetric', 'callee precondition', loc)
        E.oblige(st, z3.Implies(z3.And(z3.Not(L(cx, cy)), z3.Not(L(cy, cz))), z3.Not(L(cx, cz))), 'std::sort: the ordering is a weak order', 'callee precondition', loc)
        lessab = L(arr[b], arr[a])
        st.assume(z3.ForAll([a, b], z3.Implies(z3.And(inr(a), inr(b), a < b), z3.Not(lessab)), patterns=[z3.MultiPattern(arr[a], arr[b])]))
        E.write(st, l, v.with_(arr=arr))
        return [(st, None)]
