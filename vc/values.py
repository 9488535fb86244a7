"""Value and sort model of the verifier.

A C++ value is represented by a Python object:
  integers   z3 Int (mathematical value, wrapped/checked by the engine) or, in
             bit-vector mode, z3 BitVec of the type's width
  bool       z3 Bool
  float/double and std::complex<>   z3 Real ("exact arithmetic" assumption)
  class      Rec(cls, {field: value})
  std::vector / std::string / C array   Vec(elem type, length, SMT array)
  pointers, iterators, references       Ptr(Loc)
"""
import z3

class Unsupported(Exception):
    pass

class Loc:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()):
        self.root = root
        self.path = tuple(path)
    def f(self, name):
        return Loc(self.root, self.path + (('f', name),))
    def i(self, idx):
        return Loc(self.root, self.path + (('i', idx),))
    def __repr__(self):
        return 'Loc(%s,%s)' % (self.root, self.path)

class Rec:
    __slots__ = ('cls', 'fields')
    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields
    def set(self, k, v):
        d = dict(self.fields)
        d[k] = v
        return Rec(self.cls, d)
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        f = self.fields
        if k in f:
            return f[k]
        raise KeyError('field ' + k)
    def __getitem__(self, k):
        return self.fields[k]

class Vec:
    """kind: 'vector', 'string' or 'arr'."""
    __slots__ = ('ety', 'len', 'arr', 'kind', 'T')
    def __init__(self, T, ety, ln, arr, kind='vector'):
        self.T = T
        self.ety = ety
        self.len = ln
        self.arr = arr
        self.kind = kind
    def with_(self, ln=None, arr=None):
        return Vec(self.T, self.ety, self.len if ln is None else ln, self.arr if arr is None else arr, self.kind)
    def __getitem__(self, k):
        return self.T.unpack(z3.Select(self.arr, self.T.idxterm(k)), self.ety)

class Ptr:
    __slots__ = ('loc', 'null', 'kind')
    def __init__(self, loc, null=None, kind='ptr'):
        self.loc = loc
        self.null = z3.BoolVal(loc is None) if null is None else null
        self.kind = kind

class MapV:
    """std::map<K,V> with scalar key: dom array + val array."""
    __slots__ = ('kty', 'vty', 'dom', 'val', 'T')
    def __init__(self, T, kty, vty, dom, val):
        self.T, self.kty, self.vty, self.dom, self.val = T, kty, vty, dom, val

class Closure:
    __slots__ = ('fn', 'caps', 'this')
    def __init__(self, fn, caps, this):
        self.fn, self.caps, self.this = fn, caps, this

class Opaque:
    __slots__ = ('what', 'term')
    def __init__(self, what, term=None):
        self.what = what
        self.term = term

class FnV:
    __slots__ = ('fn',)
    def __init__(self, fn):
        self.fn = fn

INT = {'k': 'int', 'w': 32, 's': True}
SZ = {'k': 'int', 'w': 64, 's': False}
U8 = {'k': 'int', 'w': 8, 's': False}
CH = {'k': 'int', 'w': 8, 's': True, 'ch': True}
U32 = {'k': 'int', 'w': 32, 's': False}
BOOL = {'k': 'bool'}
DBL = {'k': 'float', 'w': 64}

def vec_t(ety):
    return {'k': 'rec', 'n': 'std::vector', 'full': 'std::vector<%s>' % tyname(ety), 'args': [ety]}

def tyname(t):
    k = t['k']
    if k == 'int':
        return ('i' if t['s'] else 'u') + str(t['w'])
    if k == 'float':
        return 'real'
    if k == 'bool':
        return 'bool'
    if k == 'rec':
        if t['n'] in ('std::vector',):
            return 'V_' + tyname(t['args'][0])
        if t['n'].endswith('basic_string'):
            return 'V_i8'
        if t['n'] == 'std::complex':
            return 'real'
        return t['full']
    if k == 'arr':
        return 'V_' + tyname(t['of'])
    if k == 'ptr' or k == 'ref':
        return 'P_' + tyname(t['to'])
    return k

VECTORS = ('std::vector',)
STRINGS = ('std::__cxx11::basic_string', 'std::basic_string')
ITERS = ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator')

class Types:
    serial = 0
    def __init__(self, ir, bv=False):
        self.ir = ir
        self.bv = bv
        self.dt = {}
        self.n = 0
        self.recfields = {}
        # pointers stored inside SMT arrays are numbered; 0 is null
        self.ptrs = [None]
        self.ptrid = {}

    def packptr(self, v):
        if isinstance(v, Opaque):
            return v.term if v.term is not None else z3.FreshInt('ptr')
        if v.loc is None:
            return z3.IntVal(0)
        key = (v.loc.root, tuple((k, x.get_id() if isinstance(x, z3.ExprRef) else x) for k, x in v.loc.path))
        if key not in self.ptrid:
            self.ptrid[key] = len(self.ptrs)
            self.ptrs.append(v)
        return z3.IntVal(self.ptrid[key])
    def unpackptr(self, term):
        t = z3.simplify(term)
        if z3.is_int_value(t) and 0 <= t.as_long() < len(self.ptrs):
            k = t.as_long()
            return self.ptrs[k] if k else Ptr(None)
        return Opaque('pointer read from memory', term)

    # ---- integers
    def isort(self, t):
        return z3.BitVecSort(t['w']) if self.bv else z3.IntSort()
    def idxsort(self):
        return z3.BitVecSort(64) if self.bv else z3.IntSort()
    def ival(self, v, t):
        if self.bv:
            return z3.BitVecVal(v, t['w'])
        return z3.IntVal(v)
    def idxval(self, v):
        return z3.BitVecVal(v, 64) if self.bv else z3.IntVal(v)
    def idxterm(self, k):
        if isinstance(k, int):
            return self.idxval(k)
        if self.bv and k.sort().size() != 64:
            return z3.ZeroExt(64 - k.sort().size(), k)
        return k
    def rng(self, t):
        w = t['w']
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t['s'] else (0, (1 << w) - 1)
    def inrange(self, x, t):
        lo, hi = self.rng(t)
        return z3.And(x >= lo, x <= hi)

    # ---- classification
    def isvec(self, t):
        return t['k'] == 'arr' or (t['k'] == 'rec' and (t['n'] in VECTORS or t['n'] in STRINGS))
    def isstr(self, t):
        return t['k'] == 'rec' and t['n'] in STRINGS
    def isiter(self, t):
        return t['k'] == 'ptr' or (t['k'] == 'rec' and t['n'] in ITERS)
    def isreal(self, t):
        return t['k'] == 'float' or (t['k'] == 'rec' and t['n'] == 'std::complex')
    def ety(self, t):
        return t['of'] if t['k'] == 'arr' else t['args'][0]
    def ismap(self, t):
        return t['k'] == 'rec' and t['n'] == 'std::map'

    def fields(self, full):
        if full in self.recfields:
            return self.recfields[full]
        r = self.ir['records'].get(full)
        if r is None:
            raise Unsupported('record ' + full)
        out = []
        if r['n'] == 'std::pair':
            raise Unsupported('pair needs type args')
        for b in r.get('bases', []):
            if b['k'] == 'rec' and self.ir['records'].get(b['full'], {}).get('repo'):
                out += self.fields(b['full'])
        for f in r.get('fields', []):
            out.append((f['name'], f['t'], f.get('init')))
        self.recfields[full] = out
        return out
    def rfields(self, t):
        if t['n'] == 'std::pair':
            return [('first', t['args'][0], None), ('second', t['args'][1], None)]
        if t['n'] == 'std::tuple':
            return [('e%d' % i, a, None) for i, a in enumerate(t['args'])]
        return self.fields(t['full'])

    # ---- sorts
    def sort(self, t):
        k = t['k']
        if k == 'int':
            return self.isort(t)
        if k == 'bool':
            return z3.BoolSort()
        if self.isreal(t):
            return z3.RealSort()
        if self.isvec(t) or k == 'rec':
            return self.dtsort(t)[0]
        if k == 'ptr':
            return z3.IntSort()
        raise Unsupported('sort of ' + str(t))
    def dtsort(self, t):
        nm = tyname(t)
        if nm in self.dt:
            return self.dt[nm]
        Types.serial += 1           # names of datatypes must be unique in the solver context
        self.n = me = Types.serial
        if self.isvec(t):
            es = self.sort(self.ety(t))
            d = z3.Datatype('Vec%d' % me)
            d.declare('mkv%d' % me, ('len%d' % me, self.idxsort()), ('dat%d' % me, z3.ArraySort(self.idxsort(), es)))
        else:
            fs = [(n, self.sort(ft)) for n, ft, _ in self.rfields(t)]
            if not fs:
                raise Unsupported('empty record sort ' + nm)
            d = z3.Datatype('Rec%d' % me)
            d.declare('mkr%d' % me, *[('%s_%d' % (n.strip('$'), me), s) for n, s in fs])
        s = d.create()
        self.dt[nm] = (s, t)
        return self.dt[nm]
    def pack(self, v, t):
        if self.isvec(t):
            s = self.dtsort(t)[0]
            return s.constructor(0)(v.len, v.arr)
        if t['k'] == 'rec' and not self.isreal(t):
            s = self.dtsort(t)[0]
            return s.constructor(0)(*[self.pack(v.fields[n], ft) for n, ft, _ in self.rfields(t)])
        if isinstance(v, z3.ExprRef):
            return v
        if t['k'] == 'ptr' and isinstance(v, (Ptr, Opaque)):
            return self.packptr(v)
        raise Unsupported('pack ' + tyname(t) + ' ' + type(v).__name__)
    def unpack(self, term, t):
        if self.isvec(t):
            s = self.dtsort(t)[0]
            if z3.is_app(term) and term.decl().eq(s.constructor(0)):
                return Vec(self, self.ety(t), term.arg(0), term.arg(1), 'string' if self.isstr(t) else 'vector')
            return Vec(self, self.ety(t), s.accessor(0, 0)(term), s.accessor(0, 1)(term), 'string' if self.isstr(t) else 'vector')
        if t['k'] == 'rec' and not self.isreal(t):
            s = self.dtsort(t)[0]
            d = {}
            con = z3.is_app(term) and term.decl().eq(s.constructor(0))
            for i, (n, ft, _) in enumerate(self.rfields(t)):
                d[n] = self.unpack(term.arg(i) if con else s.accessor(0, i)(term), ft)
            return Rec(t, d)
        if t['k'] == 'ptr':
            return self.unpackptr(term)
        return term
