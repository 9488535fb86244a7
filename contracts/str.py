from contracts.lib import *
P = 'P11'
TU = 'str.cpp'
BIG = 1 << 30
Q, M = z3.Function('idiv', I, I, I), z3.Function('imod', I, I, I)
SET = z3.Function('inset', AI, I, I, B)
def isin(d, c): return SET(d.arr, d.len, c)
def noset(s): return [s.len < BIG]

# ---------------------------------------------------------------- split
DL = z3.Function('delimiter_at', AI, AI, I, I, B)      # (text, delimiters, how many, position)
ST = z3.Function('token_starts_at', AI, AI, I, I, B)
_s, _d, _n, _k = z3.Const('sp_s', AI), z3.Const('sp_d', AI), z3.Int('sp_n'), z3.Int('sp_k')
def dl_def(one):
    return z3.ForAll([_s, _d, _n, _k], DL(_s, _d, _n, _k) == (_s[_k] == 32 if one else SET(_d, _n, _s[_k])), patterns=[DL(_s, _d, _n, _k), _s[_k]] if False else [DL(_s, _d, _n, _k)])
ST_DEF = z3.ForAll([_s, _d, _n, _k], ST(_s, _d, _n, _k) == z3.And(z3.Not(DL(_s, _d, _n, _k)), z3.Or(_k == 0, DL(_s, _d, _n, _k - 1))), patterns=[ST(_s, _d, _n, _k)])
CN = SumFn('tokens_before', [AI, AI, I], term=lambda s, d, n, x: z3.If(ST(s, d, n, x), z3.IntVal(1), z3.IntVal(0)), rng=I)
def _none():
    a, b = z3.Ints('sp_a sp_b')
    return [_s, _d, _n, a, b], imp(all_(0 <= a, a <= b, forall(_k, imp(all_(a <= _k, _k < b), z3.Not(ST(_s, _d, _n, _k))), [ST(_s, _d, _n, _k)])), CN(_s, _d, _n, b) == CN(_s, _d, _n, a)), [[CN(_s, _d, _n, a), CN(_s, _d, _n, b)]], b, a
L_NONE = Lemma('no token starts, no new token', _none)
def _zero():
    b = z3.Int('sp_b')
    return [_s, _d, _n, b], imp(all_(0 <= b, forall(_k, imp(all_(0 <= _k, _k < b), z3.Not(ST(_s, _d, _n, _k))), [ST(_s, _d, _n, _k)])), CN(_s, _d, _n, b) == 0), [[mk(b), CN(_s, _d, _n, b)]], b, z3.IntVal(0)
L_ZERO = Lemma('no token starts, no token', _zero, local=CN.axioms())
def _one():
    a, b = z3.Ints('sp_a sp_b')
    return [_s, _d, _n, a, b], imp(all_(0 <= a, a < b, ST(_s, _d, _n, a), forall(_k, imp(all_(a < _k, _k < b), z3.Not(ST(_s, _d, _n, _k))), [ST(_s, _d, _n, _k)])), CN(_s, _d, _n, b) == CN(_s, _d, _n, a) + 1), [[mk(a), mk(b), CN(_s, _d, _n, a), CN(_s, _d, _n, b)]], b, a + 1
L_ONE = Lemma('one token starts', _one, local=CN.axioms())
def _strict():
    a, b = z3.Ints('sp_a sp_b')
    return [_s, _d, _n, a, b], imp(all_(0 <= a, a < b, ST(_s, _d, _n, a)), all_(CN(_s, _d, _n, a) >= 0, CN(_s, _d, _n, a) < CN(_s, _d, _n, b))), [[ST(_s, _d, _n, a), mk(b), CN(_s, _d, _n, b)]], b, a + 1
def _nn():
    a = z3.Int('sp_a')
    return [_s, _d, _n, a], CN(_s, _d, _n, a) >= 0, [CN(_s, _d, _n, a)], a, z3.IntVal(0)
L_NN = Lemma('counts are not negative', _nn, local=CN.axioms())
L_STRICT = Lemma('a token that starts before is counted', _strict, uses=[L_NN], local=CN.axioms())
NP = (1 << 64) - 1
def split_con(root, title, one):
    def D(e):
        if one:
            return z3.Const('a_space', AI), z3.IntVal(1)
        d = e.old('delims')
        return d.arr, d.len
    def S(e): return e.old('str')
    def dl(e, k): return DL(S(e).arr, *D(e), k)
    def st(e, k): return ST(S(e).arr, *D(e), k)
    def cn(e, k): return CN(S(e).arr, *D(e), k)
    def token(e, t, p, q):
        """t is the longest run of non-delimiters at p; q is a bound position in it"""
        s = S(e)
        return all_(t.len > 0, p + t.len <= s.len, z3.Or(p + t.len == s.len, dl(e, p + t.len)))
    def tokens(e, v, upto):
        s, l0 = S(e), e.old('tokens').len
        t = v[l0 + cn(e, i_)]
        return [forall([i_], imp(all_(0 <= i_, i_ < upto, st(e, i_)), token(e, t, i_, j_)), [st(e, i_)]),
                forall([i_, j_], imp(all_(0 <= i_, i_ < upto, st(e, i_), 0 <= j_, j_ < t.len), t.arr[j_] == s.arr[i_ + j_]), [[st(e, i_), t.arr[j_]]]),
                forall([i_, j_], imp(all_(0 <= i_, i_ < upto, st(e, i_), i_ <= j_, j_ < i_ + t.len), z3.Not(dl(e, j_))), [[st(e, i_), dl(e, j_)]])]
    def post(c):
        v = c['tokens']
        T = tokens(c, v, S(c).len)
        return [('as many tokens as runs of non-delimiters', v.len == c.old('tokens').len + cn(c, S(c).len)),
                ('every token is a whole run', T[0]), ('token characters', T[1]), ('no delimiter in a token', T[2]),
                ('tokens that were there stay', forall(k_, imp(all_(0 <= k_, k_ < c.old('tokens').len), v.arr[k_] == c.old('tokens').arr[k_]), [v.arr[k_]]))]
    def P_(e): return z3.If(e['lastPos'] == NP, S(e.ctx).len, e['lastPos'])
    vs = ('lastPos', 'pos')
    def h(e):
        x, n, lp, p = e.ctx, S(e.ctx).len, e['lastPos'], e['pos']
        return all_(z3.Or(lp == NP, all_(lp >= 0, lp < n, z3.Not(dl(x, lp)), z3.Or(lp == 0, dl(x, lp - 1)))), imp(lp == NP, p == NP),
                    z3.Or(p == NP, all_(lp < p, p < n, dl(x, p))))
    def run(e):
        x = e.ctx
        return forall(k_, imp(all_(e['lastPos'] <= k_, k_ < e['pos'], k_ < S(x).len), z3.Not(dl(x, k_))), [dl(x, k_)])
    def both(f):
        """f(position) for the position reached, split by case"""
        return lambda e: all_(mk(S(e.ctx).len), mk(e['lastPos']), imp(e['lastPos'] == NP, f(e, S(e.ctx).len)), imp(e['lastPos'] != NP, f(e, e['lastPos'])))
    hints = [Measure('text ahead', lambda e: z3.If(e['lastPos'] == NP, z3.IntVal(0), S(e.ctx).len - e['lastPos']), vars=('lastPos',)), Hint('where it is', h, vars=vs), Hint('the run ahead', run, vars=vs),
             Hint('tokens so far', both(lambda e, p: e.root('tokens').len == e.ctx.old('tokens').len + cn(e.ctx, p)), vars=vs),
             Hint('whole runs', both(lambda e, p: tokens(e.ctx, e.root('tokens'), p)[0]), vars=vs),
             Hint('characters', both(lambda e, p: tokens(e.ctx, e.root('tokens'), p)[1]), vars=vs),
             Hint('no delimiter', both(lambda e, p: tokens(e.ctx, e.root('tokens'), p)[2]), vars=vs),
             Hint('earlier tokens', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e.ctx.old('tokens').len), e.root('tokens').arr[k_] == e.ctx.old('tokens').arr[k_]), [e.root('tokens').arr[k_]]), vars=())]
    contract(P, 'vroot::' + root, tu=TU, title=title, opts={'hfuncs': ['s_split']}, pre=lambda c: [c['str'].len < BIG],
        post=post, axioms=[dl_def(one), ST_DEF, MK_AX], lemmas=[L_ZERO, L_ONE, L_NN, L_STRICT], hints=hints)
split_con('s_split', 'split: the runs of non-delimiters, in order', False)
split_con('s_splitDefault', 'split with the default delimiter: the runs of non-spaces, in order', True)

# ---------------------------------------------------------------- replaceAll
MP = z3.Function('text_at', AI, AI, I, I, B)
MT = z3.Function('occurs_at', AI, I, AI, I, I, B)       # (text, its length, from, its length, position)
_g = z3.Int('ra_g')
_t, _m, _w, _f = z3.Const('ra_s', AI), z3.Int('ra_n'), z3.Const('ra_w', AI), z3.Int('ra_f')
MT_DEF = z3.ForAll([_t, _m, _w, _f, _k], MT(_t, _m, _w, _f, _k) == z3.And(_k + _f <= _m, MP(_t, _w, _f, _k)), patterns=[MT(_t, _m, _w, _f, _k)])
W_ = z3.Function('text_at_w', AI, AI, I, I, I)
MP_DEF = z3.And(z3.ForAll([_t, _w, _f, _k, j_], imp(all_(MP(_t, _w, _f, _k), j_ >= 0, j_ < _f), _t[_k + j_] == _w[j_]), patterns=[z3.MultiPattern(MP(_t, _w, _f, _k), _w[j_])]),
                z3.ForAll([_t, _w, _f, _k], z3.Or(MP(_t, _w, _f, _k), all_(W_(_t, _w, _f, _k) >= 0, W_(_t, _w, _f, _k) < _f, _t[_k + W_(_t, _w, _f, _k)] != _w[W_(_t, _w, _f, _k)])), patterns=[MP(_t, _w, _f, _k)]))
# characters of an occurrence already replaced that are still to skip
RM = SumFn('to_skip', [AI, I, AI, I], step=lambda t, n, w, f, x, r: z3.If(r > 0, r - 1, z3.If(MT(t, n, w, f, x), f - 1, z3.IntVal(0))), rng=I)
LN = SumFn('written', [AI, I, AI, I, I], step=lambda t, n, w, f, g, x, r: r + z3.If(RM(t, n, w, f, x) > 0, z3.IntVal(0), z3.If(MT(t, n, w, f, x), g, z3.IntVal(1))), rng=I)
A4 = (_t, _m, _w, _f)
RA_DEF = RM.axioms() + LN.axioms()
_i, _l, _q = z3.Int('ra_i'), z3.Int('ra_l'), z3.Int('ra_q')
def _order():
    return [*A4, _g, _q, _l], imp(all_(0 <= _q, _q < _l, RM(*A4, _q) == 0, _f > 0, _g >= 0), all_(LN(*A4, _g, _q) >= 0, LN(*A4, _g, _q) + z3.If(MT(*A4, _q), _g, z3.IntVal(1)) <= LN(*A4, _g, _l))), [[mk(_l), RM(*A4, _q), LN(*A4, _g, _l)]], _l, _q + 1
L_LNN = Lemma('lengths are not negative', lambda: ([*A4, _g, _l], imp(_g >= 0, LN(*A4, _g, _l) >= 0), [LN(*A4, _g, _l)], _l, z3.IntVal(0)), local=RA_DEF)
L_ORDER = Lemma('later positions are written further on', _order, local=RA_DEF, uses=[L_LNN])
L_START = Lemma('nothing written at the start', lambda: ([*A4, _g], all_(RM(*A4, z3.IntVal(0)) == 0, LN(*A4, _g, z3.IntVal(0)) == 0), [LN(*A4, _g, z3.IntVal(0))]), local=RA_DEF)
_gof = z3.Function('suffix_unchanged', AI, I, I, B)      # marks (current text, shift, length of the replacement)
GO_AX = z3.ForAll([_t, _k, _g], _gof(_t, _k, _g), patterns=[_gof(_t, _k, _g)])
_v, _dd, _i, _l = z3.Const('ra_v', AI), z3.Int('ra_d'), z3.Int('ra_i'), z3.Int('ra_l')
def _loc():
    return [*A4, _g, _v, _dd, _l], imp(forall(j_, imp(all_(_l + _dd <= j_, j_ < _l + _dd + _f, j_ < _m + _dd), _v[j_] == _t[j_ - _dd]), [_v[j_]]), MT(*A4, _l) == all_(_l + _f <= _m, MP(_v, _w, _f, _l + _dd))), [[_gof(_v, _dd, _g), MT(*A4, _l)]]
L_LOC = Lemma('an occurrence depends on the characters under it only', _loc, local=[MP_DEF, MT_DEF], only_prove=True)
def _free():
    return [*A4, _g, _v, _dd, _i, _l], imp(all_(0 <= _i, _i <= _l, _l <= _m, _f > 0, RM(*A4, _i) == 0,
        forall(j_, imp(all_(_i + _dd <= j_, j_ < _m + _dd), _v[j_] == _t[j_ - _dd]), [_v[j_]]),
        forall(j_, imp(all_(_i + _dd <= j_, j_ < _l + _dd, j_ + _f <= _m + _dd), z3.Not(MP(_v, _w, _f, j_))), [MP(_v, _w, _f, j_)])),
        all_(RM(*A4, _l) == 0, LN(*A4, _g, _l) == LN(*A4, _g, _i) + _l - _i)), [[_gof(_v, _dd, _g), mk(_i), RM(*A4, _l)]], _l, _i
L_FREE = Lemma('text without an occurrence is copied', _free, local=RA_DEF, here=[L_LOC.inst(None, None)], only_prove=True)
_q = z3.Int('ra_q')
def _skip():
    return [*A4, _g, _i, _q], imp(all_(0 <= _i, _f > 0, RM(*A4, _i) == 0, MT(*A4, _i), 1 <= _q, _q <= _f), all_(RM(*A4, _i + _q) == _f - _q, LN(*A4, _g, _i + _q) == LN(*A4, _g, _i) + _g)), None, _q, z3.IntVal(1)
L_SKIP0 = Lemma('an occurrence is skipped character by character', _skip, only_prove=True, local=RA_DEF)
_r = z3.Int('ra_r')
_a, _p = _r - _dd, z3.Int('ra_p')
STEP_V, STEP_P = [*A4, _g, _v, _dd, _i, _r], [[_gof(_v, _dd, _g), mk(_i), RM(*A4, _i), MP(_v, _w, _f, _r)]]
def upto(r):
    """the text from position i on is at i+d in v, without an occurrence before r"""
    return all_(0 <= _i, _f > 0, RM(*A4, _i) == 0, LN(*A4, _g, _i) == _i + _dd, forall(j_, imp(all_(_i + _dd <= j_, j_ < _m + _dd), _v[j_] == _t[j_ - _dd]), [_v[j_]]),
        forall(j_, imp(all_(_i + _dd <= j_, j_ < r, j_ + _f <= _m + _dd), z3.Not(MP(_v, _w, _f, j_))), [MP(_v, _w, _f, j_)]))
step_h = lambda: all_(upto(_r), _i + _dd <= _r, _r + _f <= _m + _dd, MP(_v, _w, _f, _r))
def step(name, concl, pats=None, vars=(), **kw):
    return Lemma(name, lambda: (STEP_V + list(vars), imp(step_h(), concl()), STEP_P), **kw)
free_l = L_FREE.inst(None, None, ra_l=_a)
L_S1 = step('the next occurrence', lambda: all_(RM(*A4, _a) == 0, LN(*A4, _g, _a) == _r, MT(*A4, _a)), here=[free_l, L_LOC.inst(None, None, ra_l=_a)])
L_S2 = step('what follows the next occurrence', lambda: all_(RM(*A4, _a + _f) == 0, LN(*A4, _g, _a + _f) == _r + _g), here=[L_S1.inst(None, None), L_SKIP0.inst(None, None, ra_i=_a, ra_q=_f)])
def quiet(p):
    return all_(RM(*A4, p) == 0, LN(*A4, _g, p) == p + _dd)
L_S3 = Lemma('positions up to the next occurrence', lambda: (STEP_V + [_p], imp(all_(step_h(), _i <= _p, _p < _a), all_(quiet(_p), z3.Not(MT(*A4, _p)))), [STEP_P[0] + [RM(*A4, _p)]]), here=[L_FREE.inst(None, None, ra_l=_p), L_LOC.inst(None, None, ra_l=_p)])
L_S4 = Lemma('positions inside the next occurrence', lambda: (STEP_V + [_p], imp(all_(step_h(), _a < _p, _p < _a + _f), RM(*A4, _p) > 0), [STEP_P[0] + [RM(*A4, _p)]]), here=[L_S1.inst(None, None), L_SKIP0.inst(None, None, ra_i=_a, ra_q=_p - _a)])
L_END = Lemma('the rest of the text', lambda: ([*A4, _g, _v, _dd, _i, _p], imp(all_(upto(_m + _dd), _i <= _p, _p <= _m), all_(quiet(_p), imp(_p < _m, z3.Not(MT(*A4, _p))))), [[_gof(_v, _dd, _g), mk(_i), RM(*A4, _i), RM(*A4, _p)]]), here=[L_FREE.inst(None, None, ra_l=_p), L_LOC.inst(None, None, ra_l=_p)])
def ra_args(e):
    s, w = e.old('str'), e.old('from')
    return s.arr, s.len, w.arr, w.len
def ra_rm(e, k): return RM(*ra_args(e), k)
def ra_mt(e, k): return MT(*ra_args(e), k)
def ra_ln(e, k): return LN(*ra_args(e), e.old('to').len, k)
def ra_copied(e, v, upto):
    """what became of every position before upto"""
    s, t = e.old('str'), e.old('to')
    here = lambda k: all_(0 <= k, k < upto, ra_rm(e, k) == 0)
    return [forall(i_, imp(all_(here(i_), z3.Not(ra_mt(e, i_))), v.arr[ra_ln(e, i_)] == s.arr[i_]), [ra_rm(e, i_)]),
            forall([i_, j_], imp(all_(here(i_), ra_mt(e, i_), 0 <= j_, j_ < t.len), v.arr[ra_ln(e, i_) + j_] == t.arr[j_]), [[ra_rm(e, i_), t.arr[j_]]])]
RA_N = ('characters outside occurrences', 'characters of the replacement')
def ra_post(c):
    s0, v, f = c.old('str'), c['str'], c.old('from').len
    out = [('nothing to look for: nothing changes', imp(f == 0, all_(v.len == s0.len, forall(k_, imp(all_(0 <= k_, k_ < v.len), v.arr[k_] == s0.arr[k_]), [v.arr[k_]])))),
           ('the text ends outside an occurrence', imp(f > 0, ra_rm(c, s0.len) == 0)), ('length', imp(all_(f > 0, ra_rm(c, s0.len) == 0), v.len == ra_ln(c, s0.len)))]
    return out + [(n, imp(f > 0, x)) for n, x in zip(RA_N, ra_copied(c, v, s0.len))]
def ra_i(e):
    return e.ctx.old('str').len - (e.root('str').len - e['start_pos'])
def ra_h(f):
    def g(e):
        s, sp = e.root('str'), e['start_pos']
        return all_(mk(ra_i(e)), _gof(s.arr, sp - ra_i(e), e.ctx.old('to').len), ra_rm(e.ctx, ra_i(e)) == 0, ra_ln(e.ctx, ra_i(e)) == sp, f(e, s, sp, ra_i(e)))
    return g
ra_hints = [Measure('text ahead', lambda e: e.root('str').len - e['start_pos'], vars=('start_pos',)), Hint('position', ra_h(lambda e, s, sp, i: all_(sp >= 0, sp <= s.len, i >= 0, ra_rm(e.ctx, i) == 0, ra_ln(e.ctx, i) == sp))),
            Hint('text ahead', ra_h(lambda e, s, sp, i: forall(j_, imp(all_(sp <= j_, j_ < s.len), s.arr[j_] == e.ctx.old('str').arr[j_ - (sp - i)]), [s.arr[j_]])))] + \
    [Hint(n, ra_h(lambda e, s, sp, i, q=q: ra_copied(e.ctx, s, i)[q])) for q, n in enumerate(RA_N)]
contract(P, 'vroot::s_replaceAll', tu=TU, title='replaceAll: the occurrences found from left to right without overlap are replaced, the rest is kept', opts={'hfuncs': ['s_replaceAll']},
    pre=lambda c: [c[x].len < BIG for x in ('str', 'from', 'to')], post=ra_post, axioms=[MK_AX, GO_AX], lemmas=[L_START, L_LNN, L_ORDER, L_LOC, L_SKIP0, L_FREE, L_S1, L_S2, L_S3, L_S4, L_END], hints=ra_hints)

# ---------------------------------------------------------------- names of files
def same(r, s, a, b):
    """r is s[a..b)"""
    return [('length', r.len == b - a), ('characters', forall(k_, imp(all_(0 <= k_, k_ < r.len), r.arr[k_] == s.arr[k_ + a]), [r.arr[k_]]))]
def lastpart(c):
    r, s = c.result, c.old('path')
    a = s.len - r.len
    return [('ends the path', all_(r.len >= 0, r.len <= s.len))] + same(r, s, a, s.len) + \
        [('starts after a slash or at the beginning', z3.Or(a == 0, s.arr[a - 1] == 47)), ('has no slash', forall(k_, imp(all_(a <= k_, k_ < s.len), s.arr[k_] != 47), [s.arr[k_]]))]
contract(P, 'vroot::s_basename', tu=TU, title='basename: what follows the last slash', opts={'hfuncs': ['s_basename']}, pre=lambda c: [c['path'].len < BIG], post=lastpart)
contract(P, 'vroot::s_sep', tu=TU, title='the path separator is the slash', opts={'hfuncs': ['s_basename']}, post=lambda c: [('slash', c.result == (c['c'] == 47))])
def stem(c):
    r, s = c.result, c.old('s')
    return [('starts the name', all_(r.len >= 0, r.len <= s.len))] + same(r, s, z3.IntVal(0), r.len) + \
        [('ends before a dot or at the end', z3.Or(r.len == s.len, s.arr[r.len] == 46)), ('no dot after that one', forall(k_, imp(all_(r.len < k_, k_ < s.len), s.arr[k_] != 46), [s.arr[k_]]))]
contract(P, 'vroot::s_basenameOf', tu=TU, title='basenameOf: what precedes the last dot', opts={'hfuncs': ['s_basenameOf']}, pre=lambda c: [c['s'].len < BIG], post=stem)

# ---------------------------------------------------------------- numbers
def dig(c): return all_(c >= 48, c <= 57)
def among(c, txt): return z3.Or(*[c == ord(x) for x in txt])
def every(s, f, n=None): return forall(k_, imp(all_(0 <= k_, k_ < (s.len if n is None else n)), f(s.arr[k_])), [s.arr[k_]])
ANY = SumFn('digits_before', [AI], term=lambda s, x: z3.If(dig(s[x]), z3.IntVal(1), z3.IntVal(0)), rng=I)
def isint(s): return all_(s.len > 0, every(s, dig))
def fl(c): return z3.Or(dig(c), among(c, '-+eE.'))
def isfloat(s): return all_(every(s, fl), ANY(s.arr, s.len) > 0)
def _nnd():
    s, a = z3.Const('an_s', AI), z3.Int('an_k')
    return [s, a], ANY(s, a) >= 0, [ANY(s, a)], a, z3.IntVal(0)
L_ANY = Lemma('counts of digits are not negative', _nnd)
hi = [Hint('digits so far', lambda e: every(e.ctx.old('s'), dig, e['i']), vars=('i',))]
hf = [Hint('letters so far', lambda e: every(e.ctx.old('s'), fl, e['i']), vars=('i',)), Hint('a digit so far', lambda e: e['hasDigit'] == (ANY(e.ctx.old('s').arr, e['i']) > 0), vars=('i', 'hasDigit'))]
contract(P, 'vroot::s_isAnInteger', tu=TU, title='isAnInteger: digits only, at least one', opts={'hfuncs': ['s_class']}, pre=lambda c: [c['s'].len < BIG], post=lambda c: [('answer', c.result == isint(c.old('s')))], hints=hi)
contract(P, 'vroot::s_isAfloat', tu=TU, title='isAfloat: digits, signs, points and exponents only, with at least one digit', opts={'hfuncs': ['s_class']}, pre=lambda c: [c['s'].len < BIG], post=lambda c: [('answer', c.result == isfloat(c.old('s')))], axioms=[ANY], lemmas=[L_ANY], hints=hf)
contract(P, 'vroot::s_div', tu=TU, title='integerDivision: exact quotient or an exception', opts={'hfuncs': ['s_int'], 'imul': True}, pre=lambda c: [c['b'] > 0],
    post=lambda c: [('quotient', c.result == Q(c['a'], c['b']))], throws=lambda c: M(c['a'], c['b']) != 0)
contract(P, 'vroot::s_bits', tu=TU, title='log2Integer: the number of binary digits', opts={'bv': True, 'hfuncs': ['s_int']},
    post=lambda c: [('all digits', z3.LShR(c['x'], c.result) == 0), ('no more', z3.Or(c.result == 0, z3.LShR(c['x'], c.result - 1) != 0)), ('at most 64', z3.ULE(c.result, 64))],
    hints=[Hint('shifted so far', lambda e: all_(z3.ULE(e['count'], 64), z3.LShR(e.ctx.old('x'), e['count']) == e['x'], z3.Or(e['count'] == 0, z3.LShR(e.ctx.old('x'), e['count'] - 1) != 0)))])

C_ATOI, C_ATOF = z3.Function('c_atoi', AI, I, I), z3.Function('c_atof', AI, I, R)
def num(c): return z3.Or(dig(c), among(c, '-+'))
hn = [Hint('letters so far', lambda e: every(e.ctx.old('s'), num, e['i']), vars=('i',))]
contract(P, 'vroot::s_atoi', tu=TU, title='atoi: digits and signs only, otherwise an exception; the C library gives the value', opts={'hfuncs': ['s_class']}, pre=lambda c: [c['s'].len < BIG],
    post=lambda c: [('accepted text', every(c.old('s'), num)), ('value', c.result == C_ATOI(c.old('s').arr, c.old('s').len))], throws=lambda c: z3.Not(every(c.old('s'), num)), hints=hn)
contract(P, 'vroot::s_atof', tu=TU, title='atof: text that isAfloat accepts only, otherwise an exception; the C library gives the value', opts={'hfuncs': ['s_class']}, pre=lambda c: [c['s'].len < BIG],
    post=lambda c: [('accepted text', isfloat(c.old('s'))), ('value', c.result == C_ATOF(c.old('s').arr, c.old('s').len))], throws=lambda c: z3.Not(isfloat(c.old('s'))), axioms=[ANY], lemmas=[L_ANY], hints=hf)
