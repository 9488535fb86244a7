from contracts.lib import *
P = 'P17'
TU = 'rnd.cpp'
N = 624
W = 1 << 32
xor = z3.Function('bxor', I, I, I)
def seedrule(a, k):
    p = a[k - 1]
    return (1812433253 * ((xor(p, p / (1 << 30)) + k) % W)) % W
def mix(hi, lo, far):
    y = ((hi / (1 << 31)) % 2) * (1 << 31) + lo % (1 << 31)
    v = xor(far, y / 2)
    return z3.If(y % 2 == 1, xor(v, z3.IntVal(0x9908b0df)), v)
def genrule(new, old, k):
    return mix(old[k], z3.If(k == N - 1, new[0], old[k + 1]), z3.If(k < N - 397, old[k + 397], new[k - (N - 397)]))
def S(m): return m.state_.arr
def fa(lo, hi, body, pat): return forall(k_, imp(all_(lo <= k_, k_ < hi), body), [pat])
contract(P, 'vroot::mt_seed', tu=TU, title='MersenneTwister::seed fills the state by its recurrence', opts={'hfuncs': ['mt']},
    post=lambda c: [('starts from the seed', S(c['m'])[0] == c['s']), ('position', c['m'].index_ == 0),
        ('seeding recurrence', fa(1, N, S(c['m'])[k_] == seedrule(S(c['m']), k_), S(c['m'])[k_]))],
    hints=[Hint('counter', lambda e: all_(e['i'] >= 1, e['i'] <= N), vars=('i',)),
           Hint('start', lambda e: all_(S(e.root('m'))[0] == e.root('s'), e.root('m').index_ == 0), vars=()),
           Hint('so far', lambda e: fa(1, e['i'], S(e.root('m'))[k_] == seedrule(S(e.root('m')), k_), S(e.root('m'))[k_]), vars=('i',))])
contract(P, 'vroot::mt_generate', tu=TU, title='MersenneTwister::generate: the published state recurrence', opts={'hfuncs': ['mt']},
    post=lambda c: [('every word', fa(0, N, S(c['m'])[k_] == genrule(S(c['m']), S(c.old('m')), k_), S(c['m'])[k_])), ('position kept', c['m'].index_ == c.old('m').index_)],
    hints=[Hint('counter', lambda e: all_(e['i'] >= 0, e['i'] <= N), vars=('i',)),
           Hint('renewed', lambda e: fa(0, e['i'], S(e.root('m'))[k_] == genrule(S(e.root('m')), S(e.old('m')), k_), S(e.root('m'))[k_]), vars=('i',)),
           Hint('not yet renewed', lambda e: fa(e['i'], N, S(e.root('m'))[k_] == S(e.old('m'))[k_], S(e.root('m'))[k_]), vars=('i',))])
bv = lambda x, w=32: z3.BitVecVal(x, w)
AW = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(32))
GEN = z3.Function('renewed_by_generate', AW, AW, B)
def temper(y):
    y = y ^ z3.LShR(y, 11)
    y = y ^ ((y << 7) & bv(0x9d2c5680))
    y = y ^ ((y << 15) & bv(0xefc60000))
    return y ^ z3.LShR(y, 18)
def spec_generate(eng, e, st, obj, vs):
    """generate(), proved as mt_generate: here a relation between the old and the new state"""
    m0 = eng.read(st, obj)
    facts = []
    m1 = eng.fresh(m0.cls, 'mt', facts)
    st.assume(*facts)
    st.assume(GEN(S(m0), S(m1)), m1.index_ == m0.index_)
    eng.write(st, obj, m1)
    return [(st, None)]
contract(P, 'vroot::mt_random', tu=TU, title='MersenneTwister::random: tempered words in order, renewed every 624 draws', opts={'bv': True, 'hfuncs': ['mt']},
    specs={'PsimagLite::MersenneTwister::generate': spec_generate}, pre=lambda c: [z3.ULT(c['m'].index_, bv(N))],
    post=lambda c: [('tempering', c.result == temper(S(c['m'])[z3.ZeroExt(32, c.old('m').index_)])), ('next position', c['m'].index_ == z3.If(c.old('m').index_ == N - 1, bv(0), c.old('m').index_ + 1)),
        ('state renewed exactly at the start of a round', z3.If(c.old('m').index_ == 0, GEN(S(c.old('m')), S(c['m'])), S(c['m']) == S(c.old('m'))))])
def spec_random(eng, e, st, obj, vs):
    """random() proved as mt_random: here only that it is a 32-bit word"""
    facts = []
    r = eng.fresh(U32, 'word', facts)
    st.assume(*facts)
    return [(st, r)]
contract(P, 'vroot::mt_real', tu=TU, title='MersenneTwister draws lie in [0, 1]', opts={'hfuncs': ['mt']}, specs={'PsimagLite::MersenneTwister::random': spec_random},
    post=lambda c: [('between 0 and 1', all_(c.result >= 0, c.result <= 1))])
M31 = 2147483647
contract(P, 'vroot::rft_next', tu=TU, title='RandomForTests: the minimal standard generator, draws inside (0, 1)', opts={'hfuncs': ['rft']},
    post=lambda c: [('recurrence', imp(all_(c.old('r').next_ > 0, c.old('r').next_ < M31), c['r'].next_ == (16807 * c.old('r').next_) % M31)),
        ('state in range from any seed', all_(c['r'].next_ > 0, c['r'].next_ < M31)), ('draw', c.result * M31 == z3.ToReal(c['r'].next_)), ('inside (0,1)', all_(c.result > 0, c.result < 1))])
