from contracts.lib import *
from contracts.str import BIG, dig, every, C_ATOI, ANY
P = 'P16'
TU = 'pred.cpp'
NP = (1 << 64) - 1
def text(v, s, a, b):
    """v is s[a..b)"""
    return [('length', v.len == b - a), ('characters', forall(k_, imp(all_(0 <= k_, k_ < v.len), v.arr[k_] == s.arr[k_ + a]), [v.arr[k_]]))]
def named(p, l): return [(p + ': ' + n, f) for n, f in l]
def when(c, l): return [(n, imp(c, f)) for n, f in l]
def lit(v, t): return all_(v.len == len(t), *[v.arr[k] == ord(x) for k, x in enumerate(t)])

# ---------------------------------------------------------------- operator text
LAST = SumFn('last_place_of', [AI, I], base=z3.IntVal(-1), step=lambda s, c, x, r: z3.If(s[x] == c, x, r), rng=I)   # last place before k where the character is, or -1
def _lastrange():
    s, c, k = z3.Const('lp_s', AI), z3.Int('lp_c'), z3.Int('lp_k')
    return [s, c, k], all_(LAST(s, c, k) >= -1, LAST(s, c, k) < z3.If(k > 0, k, z3.IntVal(1)), imp(LAST(s, c, k) >= 0, all_(LAST(s, c, k) < k, s[LAST(s, c, k)] == c))), [LAST(s, c, k)], k, z3.IntVal(0)
L_LAST = Lemma('the last place is a place', _lastrange, local=LAST.axioms())
def brackets(c):
    s = c.old('name')
    return LAST(s.arr, c.old('cBegin'), s.len), LAST(s.arr, c.old('cEnd'), s.len)
def site_post(c):
    r, s = c.result, c.old('name')
    f, l = brackets(c)
    root, site = r['root'], r['siteString']
    return [('has a site', r['hasSiteString'] == (f >= 0))] + when(f < 0, named('label', text(root, s, z3.IntVal(0), s.len)) + [('no site', site.len == 0)]) + \
        when(f >= 0, named('site', text(site, s, f + 1, l)) + [('label length', root.len == s.len - (l + 1 - f)),
             ('label before the site', forall(k_, imp(all_(0 <= k_, k_ < f), root.arr[k_] == s.arr[k_]), [root.arr[k_]])),
             ('label after the site', forall(k_, imp(all_(f <= k_, k_ < root.len), root.arr[k_] == s.arr[k_ + (l + 1 - f)]), [root.arr[k_]]))])
def site_throws(c):
    f, l = brackets(c)
    return z3.Or((f < 0) != (l < 0), all_(f >= 0, l < f))
contract(P, 'vroot::p_site', tu=TU, title='the site is what lies between the last brackets; unmatched brackets are refused', opts={'hfuncs': ['p_site']},
    pre=lambda c: [c['name'].len < BIG, c['cBegin'] != c['cEnd']], post=site_post, throws=site_throws, axioms=[LAST], lemmas=[L_LAST],
    hints=[Hint('places so far', lambda e: all_(e['firstIndex'] == LAST(e.ctx.old('name').arr, e.ctx.old('cBegin'), e['i']), e['lastIndex'] == LAST(e.ctx.old('name').arr, e.ctx.old('cEnd'), e['i'])), vars=('i', 'firstIndex', 'lastIndex'))])
contract(P, 'vroot::p_nonneg', tu=TU, title='isNonNegativeInteger: digits only, at least one', opts={'hfuncs': ['p_number']}, pre=lambda c: [c['s'].len < BIG],
    post=lambda c: [('answer', c.result == all_(c.old('s').len > 0, every(c.old('s'), dig)))])
DEC = SumFn('decimal', [AI, I], step=lambda a, p, x, r: 10 * r + a[p + x] - 48, rng=I)        # value of the digits a[p..p+k)
def _dext():
    a, b, p, q, n, m = z3.Const('de_a', AI), z3.Const('de_b', AI), z3.Int('de_p'), z3.Int('de_q'), z3.Int('de_n'), z3.Int('de_m')
    return [a, b, p, q, n, m], imp(all_(n == m, forall(k_, imp(all_(0 <= k_, k_ < n), a[k_ + p] == b[k_ + q]))), DEC(a, p, n) == DEC(b, q, m)), [[DEC(a, p, n), DEC(b, q, m)]]
def _dext0():
    a, b, p, q, n = z3.Const('de_a', AI), z3.Const('de_b', AI), z3.Int('de_p'), z3.Int('de_q'), z3.Int('de_n')
    return [a, b, p, q, n], imp(forall(k_, imp(all_(0 <= k_, k_ < n), a[k_ + p] == b[k_ + q])), DEC(a, p, n) == DEC(b, q, n)), [[DEC(a, p, n), DEC(b, q, n)]], n, z3.IntVal(0)
L_DEC0 = Lemma('equal digits have the same value, digit by digit', _dext0, only_prove=True, only_local=True, local=DEC.axioms())
L_DEC = Lemma('equal digits have the same value', _dext, only_local=True, here=[L_DEC0.inst(None, None)])
def _dnn():
    a, p, n = z3.Const('de_a', AI), z3.Int('de_p'), z3.Int('de_n')
    return [a, p, n], imp(forall(k_, imp(all_(p <= k_, k_ < p + n), dig(a[k_])), [a[k_]]), DEC(a, p, n) >= 0), [DEC(a, p, n)], n, z3.IntVal(0)
L_DNN = Lemma('digits have a value that is not negative', _dnn, local=DEC.axioms())
_a, _n = z3.Const('at_a', AI), z3.Int('at_n')
# assumed of the C library: the decimal value of up to nine digits
ATOI_AX = z3.ForAll([_a, _n], imp(all_(1 <= _n, _n <= 9, z3.ForAll([k_], imp(all_(0 <= k_, k_ < _n), dig(_a[k_])), patterns=[_a[k_]])), C_ATOI(_a, _n) == DEC(_a, z3.IntVal(0), _n)), patterns=[C_ATOI(_a, _n)])
NUMAX, NUML = [DEC, ATOI_AX], [L_DEC0, L_DEC, L_DNN]
contract(P, 'vroot::p_number', tu=TU, title='strToNumberOrFail: the number written, digits only', opts={'hfuncs': ['p_number']}, pre=lambda c: [c['s'].len < BIG],
    post=lambda c: [('value', imp(c.old('s').len <= 9, c.result == DEC(c.old('s').arr, z3.IntVal(0), c.old('s').len)))], throws=lambda c: z3.Not(all_(c.old('s').len > 0, every(c.old('s'), dig))), axioms=NUMAX, lemmas=NUML)
FIRST = z3.Function('first_mark', AI, I, I)      # first place of '?' before n, or n
_s = z3.Const('fm_s', AI)
FIRST_DEF = z3.And(z3.ForAll([_s, _n], imp(_n >= 0, all_(FIRST(_s, _n) >= 0, FIRST(_s, _n) <= _n, z3.Or(FIRST(_s, _n) == _n, _s[FIRST(_s, _n)] == 63))), patterns=[FIRST(_s, _n)]),
                   z3.ForAll([_s, _n, k_], imp(all_(0 <= k_, k_ < FIRST(_s, _n)), _s[k_] != 63), patterns=[z3.MultiPattern(FIRST(_s, _n), _s[k_])]))
def spec_parts(c):
    s = c.old('s')
    tr = all_(s.len > 0, s.arr[s.len - 1] == 39)
    n = z3.If(tr, s.len - 1, s.len)
    return s, tr, n, FIRST(s.arr, n)
def spec_post(c):
    r = c.result
    s, tr, n, q = spec_parts(c)
    return [('transpose', r['transpose'] == tr)] + named('label', text(r['label'], s, z3.IntVal(0), q)) + [('no degree of freedom', imp(q == n, r['dof'] == 0)), ('degree of freedom', imp(all_(q < n, n - q - 1 <= 9), r['dof'] == DEC(s.arr, q + 1, n - q - 1)))]
def spec_throws(c):
    s, tr, n, q = spec_parts(c)
    return all_(q < n, z3.Or(q + 1 == n, z3.Not(forall(k_, imp(all_(q < k_, k_ < n), dig(s.arr[k_])), [s.arr[k_]]))))
contract(P, 'vroot::p_spec', tu=TU, title='an operator text is its label, its degree of freedom and whether it is transposed', opts={'hfuncs': ['p_spec']}, pre=lambda c: [c['s'].len < BIG],
    post=spec_post, throws=spec_throws, axioms=[FIRST_DEF] + NUMAX, lemmas=NUML,
    hints=[Hint('no mark so far', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), e.ctx.old('s').arr[k_] != 63), [e.ctx.old('s').arr[k_]]), vars=('i',)), Hint('digits so far', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), dig(e['str'].arr[k_])), [e['str'].arr[k_]]), vars=('i', 'str'))])

# ---------------------------------------------------------------- bra or ket
RE = z3.Function('end_of_digits', AI, I, I, I)       # (text, from, length): the first place from p on that is no digit, or the end
_p = z3.Int('re_p')
RE_DEF = z3.And(z3.ForAll([_a, _p, _n], all_(RE(_a, _p, _n) >= _p, z3.Or(RE(_a, _p, _n) >= _n, z3.Not(dig(_a[RE(_a, _p, _n)]))), z3.Or(RE(_a, _p, _n) == _p, RE(_a, _p, _n) <= _n)), patterns=[RE(_a, _p, _n)]),
                z3.ForAll([_a, _p, _n, k_], imp(all_(_p <= k_, k_ < RE(_a, _p, _n)), all_(k_ < _n, dig(_a[k_]))), patterns=[z3.MultiPattern(RE(_a, _p, _n), _a[k_])]))
def nf_post(c):
    s, t, p = c.old('str'), c['str'], c['start']
    e = RE(s.arr, p, s.len)
    return named('rest', text(t, s, e, s.len)) + [('value', imp(e - p <= 9, c.result == DEC(s.arr, p, e - p)))]
nf_hint = [Hint('digits so far', lambda e: all_(e['i'] <= e.ctx.old('str').len, e['number'].len == e['i'] - e.ctx.old('start'), forall(k_, imp(all_(0 <= k_, k_ < e['number'].len), all_(e['number'].arr[k_] == e.ctx.old('str').arr[k_ + e.ctx.old('start')], dig(e['number'].arr[k_]))), [e['number'].arr[k_]]),
    forall(k_, imp(all_(e.ctx.old('start') <= k_, k_ < e['i']), dig(e.ctx.old('str').arr[k_])), [e.ctx.old('str').arr[k_]])), vars=('i', 'number'))]
contract(P, 'vroot::p_numberFrom', tu=TU, title='getNumberFrom: the digits from a place on, and what follows them; no digit is refused', opts={'hfuncs': ['p_bra']}, pre=lambda c: [c['str'].len < BIG, c['start'] <= c['str'].len],
    post=nf_post, throws=lambda c: RE(c.old('str').arr, c.old('start'), c.old('str').len) == c.old('start'), axioms=[RE_DEF] + NUMAX, lemmas=NUML, hints=nf_hint)
from vc.engine import fresh_name
CHT = None
def spec_numberFrom(eng, e, st, obj, vs):
    """the contract proved for p_numberFrom"""
    s, p = eng.read(st, vs[0]), vs[1]
    p = eng.read(st, p) if not isinstance(p, z3.ExprRef) else p
    eng.oblige(st, all_(s.len < BIG, p <= s.len), 'text and place', 'callee precondition', e.get('loc', ''))
    end = RE(s.arr, p, s.len)
    bad = st.fork()
    bad.assume(end == p)
    if not eng._infeasible(bad):
        eng.thrown.append((bad, e.get('loc', '')))
    st.assume(end != p)
    arr, r = z3.Const(fresh_name('rest'), AI), z3.Const(fresh_name('number'), I)
    st.assume(end <= s.len, r >= 0, r < (1 << 64), forall(k_, imp(all_(0 <= k_, k_ < s.len - end), arr[k_] == s.arr[k_ + end]), [arr[k_]]), imp(end - p <= 9, r == DEC(s.arr, p, end - p)))
    eng.write(st, vs[0], s.with_(ln=s.len - end, arr=arr))
    return [(st, r)]
NF = {'PsimagLite::GetBraOrKet::getNumberFrom': spec_numberFrom}
def stripped(s):
    ket = all_(s.len > 2, s.arr[0] == 124, s.arr[s.len - 1] == 62)
    bra = all_(s.len > 2, s.arr[0] == 60, s.arr[s.len - 1] == 124)
    return ket, bra, z3.If(z3.Or(ket, bra), z3.IntVal(1), z3.IntVal(0)), z3.If(z3.Or(ket, bra), s.len - 1, s.len)
def at_is(s, a, b, t): return all_(b - a == len(t), *[s.arr[a + k] == ord(x) for k, x in enumerate(t)])
def vector_spec(s):
    """(refused, kind, first number, second number) of s[a..b) -- numbers as (place, end) or None"""
    ket, bra, a, b = stripped(s)
    c = s.arr[a]
    gs, time = at_is(s, a, b, 'gs'), at_is(s, a, b, 'time')
    word = z3.Or(gs, time)
    Pc, Qc, Rc = c == 80, all_(c == 81), all_(c == 82)
    e1 = RE(s.arr, a + 1, b)                         # end of the first number of P, Q, R
    e2 = RE(s.arr, e1 + 1, b)                        # end of the number after X that follows it
    more = e1 < b
    okX = all_(s.arr[e1] == 88, e2 > e1 + 1, e2 == b)
    refused = z3.Or(s.len < 2, b - a < 2, all_(z3.Not(word), z3.Or(
        all_(z3.Or(Pc, Qc, Rc), e1 == a + 1), all_(Rc, more), all_(z3.Or(Pc, Qc), e1 > a + 1, more, z3.Not(okX)),
        all_(c == 88, z3.Or(e1 == a + 1, e1 != b)), z3.Not(z3.Or(Pc, Qc, Rc, c == 88)))))
    return dict(ket=ket, bra=bra, a=a, b=b, word=word, gs=gs, time=time, c=c, e1=e1, e2=e2, more=more, refused=refused)
def bra_post(c):
    g, s = c.result, c.old('s')
    v = vector_spec(s)
    a, e1, e2, ch, word = v['a'], v['e1'], v['e2'], v['c'], v['word']
    first = all_(z3.Not(word), z3.Or(ch == 80, ch == 81, ch == 82))
    pair = g['pair_']
    return [('ket', g['isKet_'] == z3.Not(v['bra']))] + named('text', text(g['braOrKet_'], s, a, v['b'])) + \
        [('kind', g['kind_'] == z3.If(all_(z3.Not(v['gs']), z3.Or(v['time'], ch == 80)), z3.IntVal(1), z3.If(all_(z3.Not(word), ch == 82), z3.IntVal(2), z3.IntVal(0)))),
         ('first number', imp(all_(first, e1 - (a + 1) <= 9), pair['first'] == DEC(s.arr, a + 1, e1 - (a + 1)))), ('no first number', imp(z3.Not(first), pair['first'] == 0)),
         ('second number', imp(all_(first, v['more'], e2 - (e1 + 1) <= 9), pair['second'] == DEC(s.arr, e1 + 1, e2 - (e1 + 1)))),
         ('only a second number', imp(all_(z3.Not(word), ch == 88, e1 - (a + 1) <= 9), pair['second'] == DEC(s.arr, a + 1, e1 - (a + 1)))),
         ('no second number', imp(z3.Or(word, all_(first, z3.Not(v['more']))), pair['second'] == 0))]
def _re():
    a, b, p, q, m, n = z3.Const('rs_a', AI), z3.Const('rs_b', AI), z3.Int('rs_p'), z3.Int('rs_q'), z3.Int('rs_m'), z3.Int('rs_n')
    return [a, b, p, q, m, n], imp(all_(p <= m, m - p == n - q, forall(k_, imp(all_(p <= k_, k_ < m), a[k_] == b[k_ + q - p]), [a[k_]]), mk(a[RE(b, q, n) - q + p])), RE(a, p, m) - p == RE(b, q, n) - q), [[RE(a, p, m), RE(b, q, n)]]
L_RE = Lemma('equal texts have the same digits', _re, local=[RE_DEF, MK_AX])
contract(P, 'vroot::p_bra', tu=TU, title='a bra or ket is split into its kind and numbers; anything else is refused', opts={'hfuncs': ['p_bra']}, pre=lambda c: [c['s'].len < BIG], specs=NF,
    post=bra_post, throws=lambda c: vector_spec(c.old('s'))['refused'], axioms=[RE_DEF, DEC, MK_AX], lemmas=[L_DEC0, L_DEC, L_RE])
KIND = lambda g: z3.Or(g['kind_'] == 1, g['kind_'] == 2)
for root, field, p in [('p_level', 'second', False), ('p_sector', 'first', False), ('p_pIndex', 'first', True)]:
    contract(P, 'vroot::' + root, tu=TU, title='number of a vector spec, for its kind only', opts={'hfuncs': ['p_bra']}, post=lambda c, field=field: [('number', c.result == c.old('g')['pair_'][field])],
        throws=lambda c, p=p: z3.Not(KIND(c.old('g'))) if p else KIND(c.old('g')))
contract(P, 'vroot::p_isP', tu=TU, title='isPvector', opts={'hfuncs': ['p_bra']}, post=lambda c: [('kind', c.result == (c.old('g')['kind_'] == 1))])
contract(P, 'vroot::p_isR', tu=TU, title='isRvector', opts={'hfuncs': ['p_bra']}, post=lambda c: [('kind', c.result == (c.old('g')['kind_'] == 2))])

# ---------------------------------------------------------------- options
from vc.models import SAMETEXT
SAME, SAME_AX = SAMETEXT(AI)
def same(a, b): return SAME(a.arr, a.len, b.arr, b.len)
STRT = {'k': 'rec', 'n': 'std::basic_string', 'full': 'std::basic_string<char>', 'args': [{'k': 'int', 'w': 8, 's': True, 'ch': True}]}
def MEM(srt): return z3.Function('member_of', srt, I, AI, I, B), z3.Function('member_of_w', srt, I, AI, I, I)
def isin(v, s): return MEM(v.arr.sort())[0](v.arr, v.len, s.arr, s.len)
def mem_def(eng):
    """member_of(texts, how many, text): the text is one of them"""
    S = eng.T.sort(STRT)
    M, W = MEM(z3.ArraySort(I, S))
    v, n, s, m = z3.Const('me_v', z3.ArraySort(I, S)), z3.Int('me_n'), z3.Const('me_s', AI), z3.Int('me_m')
    ln, dat = S.accessor(0, 0), S.accessor(0, 1)
    w = W(v, n, s, m)
    eq = lambda k: SAME(dat(v[k]), ln(v[k]), s, m)
    return z3.And(z3.ForAll([v, n, s, m], imp(M(v, n, s, m), all_(w >= 0, w < n, eq(w))), patterns=[M(v, n, s, m)]),
                  z3.ForAll([v, n, s, m, k_], imp(all_(0 <= k_, k_ < n, eq(k_)), M(v, n, s, m)), patterns=[z3.MultiPattern(M(v, n, s, m), eq(k_))]))
def member(v, s): return z3.Exists([k_], all_(0 <= k_, k_ < v.len, same(v[k_], s)))
contract(P, 'vroot::p_isSet', tu=TU, title='an option is set exactly when it is one of the options given', opts={'hfuncs': ['p_opts']}, pre=lambda c: [c['r'].optsThatAreSet_.len < BIG, c['s'].len < BIG], axioms=[SAME_AX],
    post=lambda c: [('member', c.result == member(c.old('r').optsThatAreSet_, c.old('s')))])
def splitfn(v, d):
    """what split makes of (tokens so far, text) with the delimiters d -- proved under P11 (s_split)"""
    return z3.Function('split_%s' % d, v.arr.sort(), I, AI, I, v.arr.sort()), z3.Function('nsplit_%s' % d, v.arr.sort(), I, AI, I, I)
def spec_split(eng, e, st, obj, vs):
    v, s, d = eng.read(st, vs[0]), eng.models.tostr(st, vs[1]), eng.models.tostr(st, vs[2])
    d = eng.models.literal(d)
    if d is None:
        raise Unsupported('delimiters of split')
    eng.oblige(st, s.len < BIG, 'length of the text', 'callee precondition', e.get('loc', ''))
    A, N = splitfn(v, d)
    args = (v.arr, v.len, s.arr, s.len)
    st.assume(N(*args) >= v.len, N(*args) <= v.len + s.len)
    w = v.with_(ln=N(*args), arr=A(*args))
    eng.write(st, vs[0], w)
    return [(st, None)]
SPLIT = {'PsimagLite::split': spec_split}
def set_parts(c):
    v, s = c.old('set'), c.old('opts')
    A, N = splitfn(v, ',')
    args = (v.arr, v.len, s.arr, s.len)
    return v.with_(ln=N(*args), arr=A(*args))
def set_post(c):
    w, v, off = set_parts(c), c['set'], c.old('w')['mode_'] == 0
    return [('disabled: nothing is set', imp(off, all_(v.len == c.old('set').len, v.arr == c.old('set').arr))), ('the options in the text are set', imp(z3.Not(off), all_(v.len == w.len, v.arr == w.arr)))]
contract(P, 'vroot::p_set', tu=TU, title='option text: split at commas; an option that is not registered is refused in strict mode', opts={'hfuncs': ['p_opts']}, specs=SPLIT,
    pre=lambda c: [c['w'].registeredOptions_.len < BIG, c['opts'].len < BIG, c['set'].len < BIG], axioms=[SAME_AX, mem_def], post=set_post,
    throws=lambda c: all_(c.old('w')['mode_'] == 2, z3.Exists([i_], all_(0 <= i_, i_ < set_parts(c).len, z3.Not(isin(c.old('w')['registeredOptions_'], set_parts(c)[i_]))))),
    hints=[Hint('registered so far', lambda e: imp(e.ctx.old('w')['mode_'] == 2, forall(i_, imp(all_(0 <= i_, i_ < e['i']), isin(e.ctx.old('w')['registeredOptions_'], e.root('set')[i_])), [e.root('set').arr[i_]])), vars=('i',))])

# ---------------------------------------------------------------- comparisons
OPS = ['==', '!=', '<=', '>=', '>', '<', '%%']
CONST = {'constglobals': ['PsimagLite::PredicateSimple::ops_']}
def opat(s, p, t): return all_(p + len(t) <= s.len, *[s.arr[p + k] == ord(x) for k, x in enumerate(t)])
def isop(s): return z3.Or(*[lit(s, t) for t in OPS])
def hints_ops(nm):
    return [Hint('no operator so far', lambda e: all_(*[imp(k < e['i'], z3.Not(lit(e[nm], t))) for k, t in enumerate(OPS)]), vars=('i', nm)), Hint('seven', lambda e: e['n'] == 7, vars=('n',))]
contract(P, 'vroot::p_opLength', tu=TU, title='operatorLength: the length of one of the seven operators, else zero', opts=dict(CONST, hfuncs=['p_simple']), pre=lambda c: [c['op'].len < BIG],
    post=lambda c: [('length', c.result == z3.If(isop(c.old('op')), c.old('op').len, z3.IntVal(0)))], hints=hints_ops('op'))
def spec_opLength(eng, e, st, obj, vs):
    s = eng.models.tostr(st, vs[0])
    return [(st, z3.If(isop(s), s.len, z3.IntVal(0)))]
def two(a, k): return z3.Or(*[all_(a[k] == ord(t[0]), a[k + 1] == ord(t[1])) for t in OPS if len(t) == 2])
def one(a, k): return z3.Or(*[a[k] == ord(t) for t in OPS if len(t) == 1])
FO = z3.Function('first_operator', AI, I, I)       # first place before the last character where an operator starts, or that of the last character
OPAT = z3.Function('operator_at', AI, I, B)
FO_DEF = z3.And(z3.ForAll([_a, k_], OPAT(_a, k_) == z3.Or(two(_a, k_), one(_a, k_)), patterns=[OPAT(_a, k_)]),
    z3.ForAll([_a, _n], imp(_n >= 1, all_(FO(_a, _n) >= 0, FO(_a, _n) <= _n - 1, z3.Or(FO(_a, _n) == _n - 1, OPAT(_a, FO(_a, _n))))), patterns=[FO(_a, _n)]),
    z3.ForAll([_a, _n, k_], imp(all_(0 <= k_, k_ < FO(_a, _n)), z3.Not(OPAT(_a, k_))), patterns=[z3.MultiPattern(FO(_a, _n), OPAT(_a, k_)), z3.MultiPattern(FO(_a, _n), _a[k_])]))
def simple_parts(c):
    s = c.old('pred')
    p = FO(s.arr, s.len)
    return s, p, p + z3.If(two(s.arr, p), z3.IntVal(2), z3.IntVal(1))
def simple_post(c):
    r = c.result
    s, p, q = simple_parts(c)
    return named('left', text(r['lhs_'], s, z3.IntVal(0), p)) + named('operator', text(r['op_'], s, p, q)) + named('right', text(r['rhs_'], s, q, s.len)) + named('separator', text(r['separator_'], c.old('sep'), z3.IntVal(0), c.old('sep').len))
def simple_throws(c):
    s, p, q = simple_parts(c)
    return z3.Or(s.len < 3, p == s.len - 1, p == 0, q == s.len)
contract(P, 'vroot::p_simple', tu=TU, title='a comparison is split at its first operator; without operator or operand it is refused', opts=dict(CONST, hfuncs=['p_simple']), pre=lambda c: [c['pred'].len < BIG, c['sep'].len < BIG],
    specs={'PsimagLite::PredicateSimple::operatorLength': spec_opLength}, post=simple_post, throws=simple_throws, axioms=[FO_DEF],
    hints=[Hint('no operator so far', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), z3.Not(OPAT(e.ctx.old('pred').arr, k_))), [OPAT(e.ctx.old('pred').arr, k_)]), vars=('i',)), Hint('none found yet', lambda e: e['length'] == 0, vars=('length',))])
def holds(c, a, b, div):
    s = c.old('op')
    return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}
IMODF = z3.Function('imod', I, I, I)
def cmp_con(root, title, div):
    def post(c):
        a, b, s = c['a'], c['b'], c.old('op')
        return [(t, imp(lit(s, t), c.result == f)) for t, f in holds(c, a, b, div).items()] + ([('%%', imp(lit(s, '%%'), c.result == div(a, b)))] if div else [])
    contract(P, 'vroot::' + root, tu=TU, title=title, opts=dict(hfuncs=['p_simple'], imul=True), pre=lambda c: [c['op'].len < BIG] + ([] if div else [z3.Not(lit(c['op'], '%%'))]), post=post,
        throws=lambda c: z3.Or(z3.Not(isop(c.old('op'))), all_(lit(c.old('op'), '%%'), c['b'] == 0)) if div else z3.Not(isop(c.old('op'))))
cmp_con('p_compare', 'each operator has its meaning; dividing by zero and unknown operators are refused', lambda a, b: IMODF(a, b) == 0)
cmp_con('p_compareReal', 'each operator has its meaning for real numbers', None)

# ---------------------------------------------------------------- values put into an expression, and its value
def pk(eng, v): return eng.T.pack(v, STRT)
def rafn(eng):
    S = eng.T.sort(STRT)
    return z3.Function('all_replaced', S, S, S, S)       # proved under P11 (s_replaceAll)
def ttosfn(eng): return z3.Function('text_of_number', I, eng.T.sort(STRT))
def spec_replaceAll(eng, e, st, obj, vs):
    s, f, t = [eng.models.tostr(st, v) for v in vs]
    r = rafn(eng)(pk(eng, s), pk(eng, f), pk(eng, t))
    w = eng.T.unpack(r, STRT)
    st.assume(w.len >= 0, w.len < (1 << 60))
    eng.write(st, vs[0], s.with_(ln=w.len, arr=w.arr))
    return [(st, None)]
def spec_ttos(eng, e, st, obj, vs):
    w = eng.T.unpack(ttosfn(eng)(eng.models.val(st, vs[0])), STRT)
    st.assume(w.len >= 0, w.len < (1 << 60))
    return [(st, w)]
RSPEC = {'PsimagLite::replaceAll': spec_replaceAll, 'PsimagLite::typeToString<unsigned long>': spec_ttos}
def sameS(eng, v, term):
    w = eng.T.unpack(term, STRT)
    return all_(v.len == w.len, v.arr == w.arr)
contract(P, 'vroot::p_value', tu=TU, title='replaceVariable: every occurrence of the name becomes the value', opts={'hfuncs': ['p_simple']}, specs=RSPEC, pre=lambda c: [c[x].len < BIG for x in ('hs', 'name')],
    post=lambda c: [('replaced', sameS(c.eng, c.result, rafn(c.eng)(pk(c.eng, c.old('hs')), pk(c.eng, c.old('name')), ttosfn(c.eng)(c['val']))))])
_rep = {}
def REP(eng):
    """the text after the first k names got their values"""
    S = eng.T.sort(STRT)
    if S not in _rep:
        _rep[S] = SumFn('values_put_in%d' % len(_rep), [S, z3.ArraySort(I, S), AI], base=lambda s, a, v: s, step=lambda s, a, v, x, r: rafn(eng)(r, a[x], ttosfn(eng)(v[x])), rng=S)
    return _rep[S]
def valfn(eng):
    """value of an expression text with a separator; whether it has one (proved for p_getValue; ExpressionForAST itself: bounded, p_expr)"""
    V, X = exprfn(eng)
    return (lambda t, sep: V(*tok(eng, t, sep))), (lambda t, sep: X(*tok(eng, t, sep)))
def spec_getValue(eng, e, st, obj, vs):
    """proved for p_getValue"""
    hs, nm, va = eng.models.tostr(st, vs[0]), eng.models.val(st, vs[1]), eng.models.val(st, vs[2])
    o = eng.models.val(st, obj)
    return value_of(eng, e, st, REP(eng)(pk(eng, hs), nm.arr, va.arr, nm.len), pk(eng, o.separator_))
def value_of(eng, e, st, t, sep):
    V, X = valfn(eng)
    bad = st.fork()
    bad.assume(X(t, sep))
    if not eng._infeasible(bad):
        eng.thrown.append((bad, e.get('loc', '')))
    st.assume(z3.Not(X(t, sep)), V(t, sep) >= 0, V(t, sep) < (1 << 64))
    return [(st, V(t, sep))]
def truth(c):
    g, nm, va = c.old('p'), c.old('names'), c.old('vals')
    V, X = valfn(c.eng)
    t = lambda h: (REP(c.eng)(pk(c.eng, g[h]), nm.arr, va.arr, nm.len), pk(c.eng, g['separator_']))
    l, r = t('lhs_'), t('rhs_')
    return g['op_'], V(*l), V(*r), z3.Or(X(*l), X(*r))
def st_post(c):
    op, a, b, bad = truth(c)
    fs = {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '%%': IMODF(a, b) == 0}
    return [(t, imp(lit(op, t), c.result == f)) for t, f in fs.items()]
def st_throws(c):
    op, a, b, bad = truth(c)
    return z3.Or(bad, z3.Not(isop(op)), all_(lit(op, '%%'), b == 0))
GV = 'PsimagLite::PredicateSimple::getValue<std::vector<unsigned long, std::allocator<unsigned long>>>'
contract(P, 'vroot::p_simpleTrue', tu=TU, title='a comparison compares the values of its two sides', opts=dict(hfuncs=['p_simple'], imul=True), specs={GV: spec_getValue}, axioms=[lambda eng: REP(eng)],
    pre=lambda c: [c['names'].len == c['vals'].len, c['names'].len < BIG, c['p'].op_.len < BIG], post=st_post, throws=st_throws)
RV = 'PsimagLite::PredicateSimple::replaceVariable<unsigned long>'
def spec_rv(eng, e, st, obj, vs):
    """proved for p_value"""
    s, f = [eng.models.tostr(st, v) for v in vs[:2]]
    return [(st, eng.T.unpack(rafn(eng)(pk(eng, s), pk(eng, f), ttosfn(eng)(eng.models.val(st, vs[2]))), STRT))]
def rep_is(e, b, k): return sameS(e.eng, b, REP(e.eng)(pk(e.eng, e.old('hs')), e.old('names').arr, e.old('vals').arr, k))
contract(P, 'vroot::p_values', tu=TU, title='replaceVariables: the names get their values one after the other', opts={'hfuncs': ['p_simple']}, specs={RV: spec_rv}, axioms=[lambda eng: REP(eng)],
    pre=lambda c: [c['names'].len == c['vals'].len, c['names'].len < BIG], post=lambda c: [('all of them', rep_is(c, c.result, c.old('names').len))],
    hints=[Hint('so far', lambda e: rep_is(e.ctx, e['buffer'], e['i']), vars=('i', 'buffer'))])

# ---------------------------------------------------------------- and, or
def rectype(eng, want):
    """the type of a class that the roots of this unit name"""
    def look(t):
        if t['k'] in ('ref', 'ptr') or 'to' in t:
            return look(t['to'])
        return t
    for f in eng.funcs.values():
        if f['q'].startswith('vroot::'):
            for p in f['params']:
                t = look(p['t'])
                if t['k'] == 'rec' and (t['full'] == want or t['full'].startswith(want + '<')):
                    return t
    raise Unsupported('no root names ' + want)
def pstype(eng): return rectype(eng, 'PsimagLite::PredicateSimple')
def patype(eng): return rectype(eng, 'PsimagLite::PredicateAnd')
def holdsfn(eng, k):
    """whether a comparison holds for k names and values, whether it is refused: functions of the comparison, the names and the values (proved for p_simpleTrue)"""
    P_, S = eng.T.sort(pstype(eng)), eng.T.sort(STRT)
    return z3.Function('comparison_holds%d' % k, P_, *([S, I] * k), B), z3.Function('comparison_refused%d' % k, P_, *([S, I] * k), B)
_folds = {}
def ANDF(eng, k):
    """all of the first comparisons: 0 while they hold, 1 once one does not, 2 once one is refused before that"""
    P_, S = eng.T.sort(pstype(eng)), eng.T.sort(STRT)
    if ('and', P_, k) not in _folds:
        H, X = holdsfn(eng, k)
        _folds['and', P_, k] = SumFn('all_hold%d_%d' % (k, len(_folds)), [z3.ArraySort(I, P_)] + [S, I] * k, base=z3.IntVal(0), rng=I,
            step=lambda a, *r: z3.If(r[-1] != 0, r[-1], z3.If(X(a[r[-2]], *r[:-2]), z3.IntVal(2), z3.If(H(a[r[-2]], *r[:-2]), z3.IntVal(0), z3.IntVal(1)))))
    return _folds['and', P_, k]
def ORF(eng, k):
    """one of the first conjunctions: 0 while none holds, 1 once one does, 2 once one is refused before that"""
    A_, S = eng.T.sort(patype(eng)), eng.T.sort(STRT)
    if ('or', A_, k) not in _folds:
        F = ANDF(eng, k)
        def step(a, *r):
            v = eng.T.unpack(a[r[-2]], patype(eng)).vPredicateSimple_
            w = F(v.arr, *r[:-2], v.len)
            return z3.If(r[-1] != 0, r[-1], z3.If(w == 2, z3.IntVal(2), z3.If(w == 0, z3.IntVal(1), z3.IntVal(0))))
        _folds['or', A_, k] = SumFn('one_holds%d_%d' % (k, len(_folds)), [z3.ArraySort(I, A_)] + [S, I] * k, base=z3.IntVal(0), rng=I, step=step)
    return _folds['or', A_, k]
def stays(F, k):
    def f(fn):
        xs = [z3.Const('sy_%d' % i, s) for i, s in enumerate(fn.sorts)]
        m, n = z3.Ints('sy_m sy_n')
        return xs + [m, n], imp(all_(0 <= m, m <= n, fn(*xs, m) != 0), fn(*xs, n) == fn(*xs, m)), [[fn(*xs, m), fn(*xs, n)]], n, m
    return lambda eng: Lemma('what ended the search stays', lambda: f(F(eng, k)))
def spec_simpleTrue(eng, e, st, obj, vs):
    """the contract proved for p_simpleTrue, as functions of the comparison, the names and the values"""
    names, vals = eng.models.val(st, vs[0]), eng.models.val(st, vs[1])
    k = z3.simplify(names.len)
    if not z3.is_int_value(k):
        raise Unsupported('how many names')
    k = k.as_long()
    eng.oblige(st, all_(names.len == vals.len), 'as many names as values', 'callee precondition', e.get('loc', ''))
    g = eng.T.pack(eng.models.val(st, obj), pstype(eng))
    args = [x for i in range(k) for x in (names.arr[i], vals.arr[i])]
    H, X = holdsfn(eng, k)
    bad = st.fork()
    bad.assume(X(g, *args))
    if not eng._infeasible(bad):
        eng.thrown.append((bad, e.get('loc', '')))
    st.assume(z3.Not(X(g, *args)))
    return [(st, H(g, *args))]
def nv(c, k):
    n, v = (['n'], ['v']) if k == 1 else (['n%d' % (i + 1) for i in range(k)], ['v%d' % (i + 1) for i in range(k)])
    return [x for i in range(k) for x in (pk(c.eng, c.old(n[i])), c.old(v[i]))]
def and_con(k):
    F = lambda c, n: ANDF(c.eng, k)(c.old('p')['vPredicateSimple_'].arr, *nv(c, k), n)
    whole = lambda c: F(c, c.old('p')['vPredicateSimple_'].len)
    contract(P, 'vroot::p_and%d' % k, tu=TU, title='a conjunction holds exactly when all its comparisons do (%d names)' % k, opts=dict(hfuncs=['p_awesome']), pre=lambda c: [c['p'].vPredicateSimple_.len < BIG],
        specs={'PsimagLite::PredicateSimple::isTrue': spec_simpleTrue}, axioms=[MK_AX, lambda eng: ANDF(eng, k)], lemmas=[stays(ANDF, k)],
        post=lambda c: [('all hold', c.result == (whole(c) == 0)), ('the comparisons stay as they are', all_(c['p'].vPredicateSimple_.len == c.old('p').vPredicateSimple_.len, c['p'].vPredicateSimple_.arr == c.old('p').vPredicateSimple_.arr))],
        throws=lambda c: whole(c) == 2, hints=[Hint('all hold so far', lambda e: all_(F(e.ctx, e['i']) == 0, mk(F(e.ctx, e['i'] + 1))), vars=('i',)), Hint('the comparisons', lambda e: all_(e['n'] == e.ctx.old('p').vPredicateSimple_.len), vars=('n',))])
for k in (1, 2, 3, 4):
    and_con(k)
def spec_and(k):
    def spec(eng, e, st, obj, vs):
        """the contract proved for p_and1..4"""
        args = [pk(eng, eng.models.tostr(st, v)) if i % 2 == 0 else eng.models.val(st, v) for i, v in enumerate(vs)]
        v = eng.models.val(st, obj).vPredicateSimple_
        w = ANDF(eng, k)(v.arr, *args, v.len)
        bad = st.fork()
        bad.assume(w == 2)
        if not eng._infeasible(bad):
            eng.thrown.append((bad, e.get('loc', '')))
        st.assume(w != 2)
        return [(st, w == 0)]
    return spec
def or_con(k):
    F = lambda c, n: ORF(c.eng, k)(c.old('p')['predicateAnd_'].arr, *nv(c, k), n)
    whole = lambda c: F(c, c.old('p')['predicateAnd_'].len)
    empty = lambda c: c.old('p')['pred_'].len == 0
    contract(P, 'vroot::p_or%d' % k, tu=TU, title='a predicate holds exactly when one of its conjunctions does; the empty one never (%d names)' % k, opts=dict(hfuncs=['p_awesome']), pre=lambda c: [c['p'].predicateAnd_.len < BIG, c['p'].pred_.len < BIG],
        specs={'PsimagLite::PredicateAnd::isTrue': spec_and(k)}, axioms=[MK_AX, lambda eng: ANDF(eng, k), lambda eng: ORF(eng, k)], lemmas=[stays(ORF, k)],
        post=lambda c: [('one holds', c.result == all_(z3.Not(empty(c)), whole(c) == 1))],
        throws=lambda c: all_(z3.Not(empty(c)), whole(c) == 2), hints=[Hint('none holds so far', lambda e: all_(F(e.ctx, e['i']) == 0, mk(F(e.ctx, e['i'] + 1))), vars=('i',)), Hint('the conjunctions', lambda e: all_(e['n'] == e.ctx.old('p').predicateAnd_.len), vars=('n',))])
for k in (1, 2, 3, 4):
    or_con(k)

# ---------------------------------------------------------------- numbers in a quasi-canonical expression
def scal(x): return z3.Or(dig(x), x == 46, x == 45, x == 43)
def allscal(s, n): return forall(k_, imp(all_(0 <= k_, k_ < n), scal(s.arr[k_])), [s.arr[k_]])
contract(P, 'vroot::p_real', tu=TU, title='isRealScalar: digits, point and signs only; the empty text is refused', opts={'hfuncs': ['p_quasi']}, pre=lambda c: [c['s'].len < BIG],
    post=lambda c: [('answer', c.result == allscal(c.old('s'), c.old('s').len))], throws=lambda c: c.old('s').len == 0,
    hints=[Hint('so far', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), scal(e['termStr'].arr[k_])), [e['termStr'].arr[k_]]), vars=('i',)), Hint('length', lambda e: e['n'] == e.ctx.old('s').len, vars=('n',)), Hint('the text', lambda e: sametxt(e['termStr'], e.ctx.old('s')), vars=('termStr',))])
def sametxt(a, b): return all_(a.len == b.len, a.arr == b.arr)
def spec_isReal(eng, e, st, obj, vs):
    """the contract proved for p_real"""
    s = eng.models.tostr(st, vs[0])
    eng.oblige(st, s.len < BIG, 'length of the text', 'callee precondition', e.get('loc', ''))
    bad = st.fork()
    bad.assume(s.len == 0)
    if not eng._infeasible(bad):
        eng.thrown.append((bad, e.get('loc', '')))
    st.assume(s.len > 0)
    return [(st, allscal(s, s.len))]
contract(P, 'vroot::p_imag', tu=TU, title='isPureComplex: i, or a real scalar followed by i', opts={'hfuncs': ['p_quasi']}, pre=lambda c: [c['s'].len < BIG], specs={'PsimagLite::QuasiCanonical<double>::isRealScalar': spec_isReal},
    post=lambda c: [('answer', c.result == z3.Or(lit(c.old('s'), 'i'), all_(c.old('s').len >= 2, c.old('s').arr[c.old('s').len - 1] == 105, allscal(c.old('s'), c.old('s').len - 1))))])
contract(P, 'vroot::p_scalar', tu=TU, title='scalarIndex: the number between the marks when there is such a scalar, else -1', opts={'hfuncs': ['p_quasi']}, axioms=NUMAX, lemmas=NUML,
    pre=lambda c: [c['s'].len < BIG, c['q'].ats_.len < 1000000000], post=lambda c: scalar_post(c),
    throws=lambda c: all_(scalar_form(c.old('s')), z3.Not(forall(k_, imp(all_(1 <= k_, k_ < c.old('s').len - 1), z3.Or(dig(c.old('s').arr[k_]), c.old('s').arr[k_] == 45, c.old('s').arr[k_] == 43)), [c.old('s').arr[k_]]))))
def scalar_form(s): return all_(s.len >= 3, s.arr[0] == 64, s.arr[s.len - 1] == 64)
def scalar_post(c):
    s, q = c.old('s'), c.old('q')
    form = scalar_form(s)
    nums = forall(k_, imp(all_(1 <= k_, k_ < s.len - 1), dig(s.arr[k_])), [s.arr[k_]])
    v = DEC(s.arr, z3.IntVal(1), s.len - 2)
    return [('not marked', imp(z3.Not(form), c.result == -1)), ('in range', z3.Or(c.result == -1, all_(0 <= c.result, c.result < q.ats_.len))),
            ('the number', imp(all_(form, nums, s.len <= 11), c.result == z3.If(v < q.ats_.len, v, z3.IntVal(-1))))]

# ---------------------------------------------------------------- the primitives of expressions
def prim(root, n, f, title, pre=None, **opts):
    contract(P, 'vroot::' + root, tu=TU, title=title, opts=dict(opts, hfuncs=['p_expr'], real_mul='nra'), pre=lambda c: [c['v'].len == n] + ([pre(c['v'].arr)] if pre else []), post=lambda c: [('value', c.result == f(*[c.old('v').arr[k] for k in range(n)]))])
prim('p_plus', 2, lambda a, b: a + b, 'plus')
prim('p_minus', 2, lambda a, b: a - b, 'minus')
prim('p_times', 2, lambda a, b: a * b, 'times')
prim('p_divided', 2, lambda a, b: z3.If(b * b < z3.Q(1, 1000000), a, a / b), 'divided by, protected from small divisors')
prim('p_ternary', 3, lambda a, b, c: z3.If(z3.Or(a >= 1, a <= -1), b, c), 'the second operand if the first is at least one in size, else the third', pre=lambda a: all_(a[0] < (1 << 63), a[0] > -(1 << 63)))
def whole(x): return z3.ToInt(z3.If(x >= 0, x, -x))
prim('p_modulus', 2, lambda a, b: z3.ToReal(z3.If(whole(b) == 0, whole(a), IMODF(whole(a), whole(b)))), 'remainder of the whole parts', pre=lambda a: all_(*[all_(a[k] < (1 << 31), a[k] > -(1 << 31)) for k in (0, 1)]), imul=True)

# ---------------------------------------------------------------- predicates from text
def mkfn(eng, sep):
    """the comparison in a text whose expressions have the given separator, and whether it is refused: functions of the text (proved for p_simple)"""
    P_, S = eng.T.sort(pstype(eng)), eng.T.sort(STRT)
    return z3.Function('comparison_of_' + sep, S, P_), z3.Function('comparison_not_parsed_' + sep, S, B)
def refused(eng, e, st, f):
    bad = st.fork()
    bad.assume(f)
    if not eng._infeasible(bad):
        eng.thrown.append((bad, e.get('loc', '')))
    st.assume(z3.Not(f))
def spec_mkSimple(eng, e, st, obj, vs):
    s, sep = eng.models.tostr(st, vs[0]), eng.models.literal(eng.models.tostr(st, vs[1]))
    if sep is None:
        raise Unsupported('separator of a comparison')
    eng.oblige(st, s.len < BIG, 'length of the text', 'callee precondition', e.get('loc', ''))
    M, X = mkfn(eng, sep)
    refused(eng, e, st, X(pk(eng, s)))
    eng.write(st, obj, eng.T.unpack(M(pk(eng, s)), pstype(eng)))
    return [(st, None)]
def tokens(eng):
    """the texts between delimiters -- what split appends to no texts at all (proved under P11: s_split)"""
    S = eng.T.sort(STRT)
    return z3.Function('tokens', S, S, z3.ArraySort(I, S)), z3.Function('ntokens', S, S, I)
def spec_split0(eng, e, st, obj, vs):
    v, s, d = eng.read(st, vs[0]), eng.models.tostr(st, vs[1]), eng.models.tostr(st, vs[2])
    eng.oblige(st, all_(s.len < BIG, v.len == 0), 'no texts so far', 'callee precondition', e.get('loc', ''))
    A, N = tokens(eng)
    a = (pk(eng, s), pk(eng, d))
    k = z3.Int('tk')
    w = v.with_(ln=N(*a), arr=A(*a))
    st.assume(N(*a) >= 0, N(*a) <= s.len, forall(k, imp(all_(0 <= k, k < w.len), all_(w[k].len >= 0, w[k].len <= s.len)), [w.arr[k]]))
    eng.write(st, vs[0], w)
    return [(st, None)]
def tok(eng, s, d): return [f(s, d) for f in tokens(eng)]
def and_text(eng):
    """all comparisons of a conjunction can be read: 0 so far, 1 once one is refused"""
    S = eng.T.sort(STRT)
    X = mkfn(eng, ':')[1]
    if ('txt', S) not in _folds:
        _folds['txt', S] = SumFn('one_refused%d' % len(_folds), [z3.ArraySort(I, S)], base=z3.IntVal(0), rng=I, step=lambda a, x, r: z3.If(z3.Or(r != 0, X(a[x])), z3.IntVal(1), z3.IntVal(0)))
    return _folds['txt', S]
def stays_txt(eng):
    fn = and_text(eng)
    def f():
        a, m, n = z3.Const('sx_a', fn.sorts[0]), z3.Int('sx_m'), z3.Int('sx_n')
        return [a, m, n], imp(all_(0 <= m, m <= n, fn(a, m) != 0), fn(a, n) == fn(a, m)), [[fn(a, m), fn(a, n)]], n, m
    return Lemma('what is refused stays refused', f)
def mkAnd_term(c): return tok(c.eng, pk(c.eng, c.old('pred')), pk(c.eng, c.old('sep')))
def comparisons(eng, v, t, n):
    M = mkfn(eng, ':')[0]
    return forall(k_, imp(all_(0 <= k_, k_ < n), v.arr[k_] == M(t[k_])), [v.arr[k_]])
contract(P, 'vroot::p_mkAnd', tu=TU, title='a conjunction has one comparison for each text between separators', opts={'hfuncs': ['p_awesome']}, pre=lambda c: [c['pred'].len < BIG, c['sep'].len < BIG],
    specs={'PsimagLite::split': spec_split0, 'PsimagLite::PredicateSimple::PredicateSimple': spec_mkSimple}, axioms=[MK_AX, and_text], lemmas=[stays_txt],
    post=lambda c: [('as many', c.result.vPredicateSimple_.len == mkAnd_term(c)[1]), ('each of them', comparisons(c.eng, c.result.vPredicateSimple_, mkAnd_term(c)[0], mkAnd_term(c)[1]))],
    throws=lambda c: and_text(c.eng)(*mkAnd_term(c)) != 0,
    hints=[Hint('so far', lambda e: all_(and_text(e.ctx.eng)(mkAnd_term(e.ctx)[0], e['i']) == 0, mk(and_text(e.ctx.eng)(mkAnd_term(e.ctx)[0], e['i'] + 1)), e['this'].vPredicateSimple_.len == e['i'], comparisons(e.ctx.eng, e['this'].vPredicateSimple_, mkAnd_term(e.ctx)[0], e['i'])), vars=('i', 'this')),
        Hint('texts', lambda e: all_(e['n'] == mkAnd_term(e.ctx)[1], e['tokens'].len == e['n'], e['tokens'].arr == mkAnd_term(e.ctx)[0]), vars=('n', 'tokens'))])
def mkandfn(eng):
    """the conjunction in a text with a separator, and whether it is refused: functions of the two (proved for p_mkAnd)"""
    A_, S = eng.T.sort(patype(eng)), eng.T.sort(STRT)
    return z3.Function('conjunction_of', S, S, A_), z3.Function('conjunction_not_parsed', S, S, B)
def spec_mkAnd(eng, e, st, obj, vs):
    s, d = [eng.models.tostr(st, v) for v in vs]
    eng.oblige(st, all_(s.len < BIG, d.len < BIG), 'length of the text', 'callee precondition', e.get('loc', ''))
    M, X = mkandfn(eng)
    a = (pk(eng, s), pk(eng, d))
    refused(eng, e, st, X(*a))
    eng.write(st, obj, eng.T.unpack(M(*a), patype(eng)))
    return [(st, None)]
def or_text(eng):
    """whether one of the first items is special (starts with @) or cannot be read"""
    S = eng.T.sort(STRT)
    X = mkandfn(eng)[1]
    ln, dat = S.accessor(0, 0), S.accessor(0, 1)
    if ('ort', S) not in _folds:
        _folds['ort', S] = SumFn('one_item_refused%d' % len(_folds), [z3.ArraySort(I, S), S], base=z3.IntVal(0), rng=I,
            step=lambda a, d, x, r: z3.If(z3.Or(r != 0, all_(ln(a[x]) > 0, dat(a[x])[0] == 64), X(a[x], d)), z3.IntVal(1), z3.IntVal(0)))
    return _folds['ort', S]
def stays_or(eng):
    fn = or_text(eng)
    def f():
        a, d, m, n = z3.Const('so_a', fn.sorts[0]), z3.Const('so_d', fn.sorts[1]), z3.Int('so_m'), z3.Int('so_n')
        return [a, d, m, n], imp(all_(0 <= m, m <= n, fn(a, d, m) != 0), fn(a, d, n) == fn(a, d, m)), [[fn(a, d, m), fn(a, d, n)]], n, m
    return Lemma('what is refused stays refused', f)
def mkOr_term(c): return tok(c.eng, pk(c.eng, c.old('pred')), pk(c.eng, c.old('orSep')))
def conjunctions(c, v, t, n):
    M, d = mkandfn(c.eng)[0], pk(c.eng, c.old('andSep'))
    return forall(k_, imp(all_(0 <= k_, k_ < n), v.arr[k_] == M(t[k_], d)), [v.arr[k_]])
def or_fold(c, n): return or_text(c.eng)(mkOr_term(c)[0], pk(c.eng, c.old('andSep')), n)
contract(P, 'vroot::p_mkOr', tu=TU, title='a predicate has one conjunction for each item; special items need a reader of their own', opts={'hfuncs': ['p_awesome']}, pre=lambda c: [c[x].len < BIG for x in ('pred', 'orSep', 'andSep')],
    specs={'PsimagLite::split': spec_split0, 'PsimagLite::PredicateAnd::PredicateAnd': spec_mkAnd}, axioms=[MK_AX, or_text], lemmas=[stays_or],
    post=lambda c: [('the text', all_(c.result.pred_.len == c.old('pred').len, c.result.pred_.arr == c.old('pred').arr)), ('none', imp(c.old('pred').len == 0, c.result.predicateAnd_.len == 0)),
        ('as many', imp(c.old('pred').len > 0, c.result.predicateAnd_.len == mkOr_term(c)[1])), ('each of them', imp(c.old('pred').len > 0, conjunctions(c, c.result.predicateAnd_, *mkOr_term(c))))],
    throws=lambda c: all_(c.old('pred').len > 0, or_fold(c, mkOr_term(c)[1]) != 0),
    hints=[Hint('so far', lambda e: all_(or_fold(e.ctx, e['i']) == 0, mk(or_fold(e.ctx, e['i'] + 1)), e['this'].predicateAnd_.len == e['i'], conjunctions(e.ctx, e['this'].predicateAnd_, mkOr_term(e.ctx)[0], e['i'])), vars=('i', 'this')),
        Hint('texts', lambda e: all_(e['n'] == mkOr_term(e.ctx)[1], e['tokens'].len == e['n'], e['tokens'].arr == mkOr_term(e.ctx)[0]), vars=('n', 'tokens'))])

# ---------------------------------------------------------------- the value of one side of a comparison
def exprfn(eng):
    """value of the expression in a list of words; whether it is refused (ExpressionForAST: bounded, p_expr)"""
    S = eng.T.sort(STRT)
    return z3.Function('value_of_words', z3.ArraySort(I, S), I, I), z3.Function('words_refused', z3.ArraySort(I, S), I, B)
def spec_primitives(eng, e, st, obj, vs): return [(st, None)]
def spec_expr(eng, e, st, obj, vs):
    v = eng.models.val(st, vs[0])
    V, X = exprfn(eng)
    refused(eng, e, st, X(v.arr, v.len))
    eng.expr_words = v
    return [(st, None)]
def spec_exec(eng, e, st, obj, vs):
    v = eng.expr_words
    V, X = exprfn(eng)
    r = V(v.arr, v.len)
    st.assume(r >= 0, r < (1 << 64))
    return [(st, r)]
def spec_values(eng, e, st, obj, vs):
    """the contract proved for p_values"""
    hs, nm, va = eng.models.tostr(st, vs[0]), eng.models.val(st, vs[1]), eng.models.val(st, vs[2])
    w = eng.T.unpack(REP(eng)(pk(eng, hs), nm.arr, va.arr, nm.len), STRT)
    st.assume(w.len >= 0, w.len < BIG)
    return [(st, w)]
def gv_words(c):
    w = REP(c.eng)(pk(c.eng, c.old('hs')), c.old('names').arr, c.old('vals').arr, c.old('names').len)
    return tok(c.eng, w, pk(c.eng, c.old('p').separator_))
PMMD = 'PsimagLite::PlusMinusMultiplyDivide<unsigned long>::'
contract(P, 'vroot::p_getValue', tu=TU, title='one side of a comparison: names replaced, split at the separator, evaluated', opts={'hfuncs': ['p_simple']}, axioms=[lambda eng: REP(eng)],
    specs={'PsimagLite::split': spec_split0, 'PsimagLite::PredicateSimple::replaceVariables': spec_values, PMMD + 'PlusMinusMultiplyDivide': spec_primitives, PMMD + '~PlusMinusMultiplyDivide': spec_primitives,
        'PsimagLite::ExpressionForAST<PsimagLite::PlusMinusMultiplyDivide<unsigned long>>::ExpressionForAST': spec_expr, 'PsimagLite::ExpressionForAST<PsimagLite::PlusMinusMultiplyDivide<unsigned long>>::exec': spec_exec,
        'PsimagLite::ExpressionForAST<PsimagLite::PlusMinusMultiplyDivide<unsigned long>>::~ExpressionForAST': spec_primitives},
    pre=lambda c: [c['names'].len == c['vals'].len, c['names'].len < BIG, c['hs'].len < BIG, c['p'].separator_.len < BIG],
    post=lambda c: [('value', c.result == exprfn(c.eng)[0](*gv_words(c)))], throws=lambda c: exprfn(c.eng)[1](*gv_words(c)))
