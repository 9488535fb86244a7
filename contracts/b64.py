from contracts.lib import *
P = 'P10'
TU = 'b64.cpp'
ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
BIG = 1 << 29
chr_ = z3.Function('b64chr', I, I)
val_ = z3.Function('b64val', I, I)
TAB = z3.And(*[z3.And(chr_(k) == ALPHA[k], val_(ALPHA[k]) == k) for k in range(64)])
def _tab():
    v = z3.Int('tv')
    return [v], imp(all_(0 <= v, v < 64), all_(val_(chr_(v)) == v, z3.Or(*[all_(chr_(v) >= a, chr_(v) <= b) for a, b in ((43, 43), (47, 57), (65, 90), (97, 122))]))), [chr_(v)]
L_TAB = Lemma('the alphabet is 64 distinct letters, digits, + and /', _tab, local=[TAB])
def by(s, k):
    """byte k as a number 0..255 (characters are signed)"""
    return s.arr[k] % 256
def sx(s, n, g):
    """the four 6-bit digits of the g-th group of three bytes, padded with zeros"""
    a = by(s, 3 * g)
    b = z3.If(3 * g + 1 < n, by(s, 3 * g + 1), 0)
    c = z3.If(3 * g + 2 < n, by(s, 3 * g + 2), 0)
    return a / 4, (a % 4) * 16 + b / 16, (b % 16) * 4 + c / 64, c % 64
def ech(s, n, k):
    """character k of the base64 text of s[0..n)"""
    g = k / 4
    d = sx(s, n, g)
    q = k % 4
    return z3.If(q == 0, chr_(d[0]), z3.If(q == 1, chr_(d[1]), z3.If(q == 2, z3.If(3 * g + 1 < n, chr_(d[2]), 61), z3.If(3 * g + 2 < n, chr_(d[3]), 61))))
ECH = z3.Function('b64text', AI, I, I, I)
class _V:
    def __init__(s, arr): s.arr = arr
_sa, _n, _k = z3.Const('es', AI), z3.Int('en'), z3.Int('ek')
DEF = z3.ForAll([_sa, _n, _k], ECH(_sa, _n, _k) == ech(_V(_sa), _n, _k), patterns=[ECH(_sa, _n, _k)])
def enc(s, n, t, upto):
    """the first upto groups of four characters of t"""
    return [forall(k_, imp(all_(0 <= k_, k_ < 4 * upto), t.arr[k_] == ECH(s.arr, n, k_)), [t.arr[k_]])]
def groups(n): return (n + 2) / 3
def epost(c):
    s = c['s']
    n = c['n'] if 'n' in c.locs else s.len
    return [('four characters per started group of three bytes', c['t'].len == 4 * groups(n))] + [('every character', f) for f in enc(s, n, c['t'], groups(n))]
def nn(e): return e.ctx['n'] if 'n' in e.ctx.locs else e.ctx.old('s').len
def done(e): return (nn(e) - e['inLen'])
ehints = [
    Hint('position', lambda e: all_(e['i'] >= 0, e['i'] < 3, e['i'] == done(e) % 3, e['inLen'] <= nn(e))),
    Hint('read pointer', lambda e: e['bytesToEncode'].loc.path[-1][1] == done(e)),
    Hint('length', lambda e: e['this'].buffer_.len == 4 * (done(e) / 3)),
] + [Hint('pending %d' % q, lambda e, q=q: imp(e['i'] > q, e['charArray3'].arr[q] == by(e.ctx.old('s'), 3 * (done(e) / 3) + q))) for q in range(2)] + \
    [Hint('groups %d' % q, lambda e, q=q: enc(e.ctx.old('s'), nn(e), e['this'].buffer_, done(e) / 3)[q]) for q in range(1)]
def ca(e): return e['charArray3'].arr
def G_(e): return nn(e) / 3
def tail(e, q, pos):
    return imp(pos > q, e['this'].buffer_.arr[4 * G_(e) + q] == ECH(e.ctx.old('s').arr, nn(e), 4 * G_(e) + q))
ehints += [Hint('pad bytes', lambda e: forall(k_, imp(all_(e['i'] <= k_, k_ < e['j']), ca(e)[k_] == 0), [ca(e)[k_]]), mod=('j',), fix=('i',))] + \
    [Hint('last bytes %d' % q, lambda e, q=q: imp(e['i'] > q, ca(e)[q] == by(e.ctx.old('s'), 3 * G_(e) + q)), mod=('j',), fix=('i',)) for q in range(2)] + \
    [Hint('tail length', lambda e: e['this'].buffer_.len == 4 * G_(e) + e['j'], mod=('j',), fix=('i',))] + \
    [Hint('tail length =', lambda e: e['this'].buffer_.len == 4 * G_(e) + e['i'] + 1, mod=('i',), fix=('j',))] + \
    [Hint('tail %d' % q, lambda e, q=q: tail(e, q, e['j']), mod=('j',), fix=('i',)) for q in range(4)] + \
    [Hint('tail = %d' % q, lambda e, q=q: tail(e, q, e['i'] + 1), mod=('i',), fix=('j',)) for q in range(4)] + \
    [Hint('old groups %d' % q, lambda e, q=q: enc(e.ctx.old('s'), nn(e), e['this'].buffer_, G_(e))[q]) for q in range(1)]
for r in ('b64_encode',):
    contract(P, 'vroot::' + r, tu=TU, title='PsiBase64::Encode: the standard base64 text (%s)' % r, opts={'hfuncs': ['b64_roundtrip']},
        pre=lambda c: [c['s'].len < BIG] + ([c['n'] == c['s'].len] if 'n' in c.locs else []), post=epost, axioms=[TAB, DEF], lemmas=[L_TAB], hints=ehints)

GN = z3.Int('ghost_n')
GA = z3.Const('ghost_s', AI)
class _G:
    arr = GA
    len = GN
def gby(k): return GA[k] % 256
def LIT():
    a = z3.K(I, z3.IntVal(0))
    for k, b in enumerate(ALPHA):
        a = z3.Store(a, z3.IntVal(k), z3.IntVal(b))
    return a
find_ = z3.Function('find_in_' + ALPHA.decode(), I, I)
FIND = z3.And(*[find_(ALPHA[k]) == k for k in range(64)])
def _lit():
    v = z3.Int('lv')
    return [v], imp(z3.And(FIND, 0 <= v, v < 64), find_(chr_(v)) == v), [chr_(v)]
# the digits of the text, by position in the text
DK = z3.Function('b64digit', I, I)
def _dk(k):
    d = sx(_G, GN, k / 4)
    q = k % 4
    return z3.If(q == 0, d[0], z3.If(q == 1, d[1], z3.If(q == 2, d[2], d[3])))
DKDEF = z3.ForAll([_k], imp(_k >= 0, DK(_k) == _dk(_k)), patterns=[DK(_k)])
def _dec():
    k = z3.Int('gk')
    a, b, c_, d = [DK(k + q) for q in range(4)]
    g = 3 * (k / 4)
    return [k], imp(z3.And(k >= 0, k % 4 == 0, forall(k_, all_(GA[k_] >= -128, GA[k_] <= 127), [GA[k_]])), z3.And(
        *[z3.And(DK(k + q) >= 0, DK(k + q) < 64) for q in range(4)],
        4 * a + (b / 16) % 4 == gby(g),
        imp(g + 1 < GN, 16 * (b % 16) + (c_ / 4) % 16 == gby(g + 1)),
        imp(g + 2 < GN, 64 * (c_ % 4) + d == gby(g + 2)))), [DK(k)]
def pad(k):
    g = 3 * (k / 4)
    return z3.Or(z3.And(k % 4 == 2, g + 1 >= GN), z3.And(k % 4 == 3, g + 2 >= GN))
def dpre(c):
    return [GN >= 0, GN < BIG, c['t'].len == 4 * groups(GN), forall(k_, all_(GA[k_] >= -128, GA[k_] <= 127), [GA[k_]]),
            forall(k_, imp(all_(0 <= k_, k_ < 4 * groups(GN)), c['t'].arr[k_] == z3.If(pad(k_), z3.IntVal(61), chr_(DK(k_)))), [c['t'].arr[k_]])]
def ch4(e, q): return e['charArray4'].arr[q]
def out(e): return e['this'].buffer_
def din(e): return e['in_']
def T_(e): return e.root('t')
dh = [Hint('consumed', lambda e: all_(din(e) >= 0, din(e) <= T_(e).len, e['i'] >= 0, e['i'] < 4, e['i'] == din(e) % 4, e['inLen'] == T_(e).len - din(e))),
      Hint('no padding so far', lambda e: forall(k_, imp(all_(0 <= k_, k_ < din(e)), T_(e).arr[k_] != 61), [T_(e).arr[k_]])),
      Hint('bytes so far', lambda e: 4 * out(e).len == 3 * (din(e) - e['i'])),
      Hint('position in the group', lambda e: all_(e['i'] >= 0, e['i'] < 4, e['i'] == din(e) % 4, din(e) >= 0, din(e) <= T_(e).len)),
      Hint('where it stopped', lambda e: z3.Or(din(e) == T_(e).len, pad(din(e))), vars=('j', 'in_'), mod=('j',)),
      Hint('bytes of whole groups', lambda e: forall(k_, imp(all_(0 <= k_, 4 * k_ < 3 * (din(e) - e['i'])), out(e).arr[k_] == GA[k_]), [out(e).arr[k_]])),
      Hint('bytes with the tail', lambda e: all_(4 * out(e).len == 3 * (din(e) - e['i']) + 4 * e['j'],
            forall(k_, imp(all_(0 <= k_, k_ < out(e).len), out(e).arr[k_] == GA[k_]), [out(e).arr[k_]])), mod=('j',), fix=('i',))]
dh += [Hint('pending %d' % q, lambda e, q=q: imp(e['i'] > q, ch4(e, q) == T_(e).arr[din(e) - e['i'] + q])) for q in range(3)]
contract(P, 'vroot::b64_decode', tu=TU, title='PsiBase64::Decode gives back the bytes whose base64 text it reads', opts={'hfuncs': ['b64_roundtrip']},
    pre=dpre, post=lambda c: [('length', c['d'].len == GN), ('bytes', forall(k_, imp(all_(0 <= k_, k_ < GN), c['d'].arr[k_] == GA[k_]), [c['d'].arr[k_]]))],
    lemmas=[L_TAB, Lemma('a digit is found again from its character', _lit, local=[TAB]), Lemma('three bytes from four digits', _dec, local=[DKDEF])], hints=dh)

def pop(w):
    """the number of set bits, as a 7-bit number"""
    xs = [z3.ZeroExt(6, z3.Extract(i, i, w)) for i in range(64)]
    while len(xs) > 1:
        xs = [xs[i] + xs[i + 1] for i in range(0, len(xs), 2)]
    return xs[0]
contract(P, 'vroot::bit_count', tu=TU, title='BitManip::count: the number of set bits', opts={'bv': True, 'hfuncs': ['bits']},
    post=lambda c: [('number of set bits', c.result == z3.ZeroExt(25, pop(c['w'])))])
contract(P, 'vroot::bit_countKernighan', tu=TU, title='BitManip::countKernighan: the number of set bits', opts={'bv': True, 'hfuncs': ['bits']},
    post=lambda c: [('number of set bits', c.result == z3.ZeroExt(57, pop(c['w'])))],
    hints=[Hint('bits left and counted', lambda e: e['c'] + z3.ZeroExt(57, pop(e['v'])) == z3.ZeroExt(57, pop(e.root('w'))))])
