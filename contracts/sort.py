from contracts.lib import *
P = 'P06'
TU = 'sort.cpp'
def sort_post(x, x0, ip, n):
    return [('ordered', forall([k_, l_], imp(all_(0 <= k_, k_ < l_, l_ < n), x.arr[k_] <= x.arr[l_]), [[x.arr[k_], x.arr[l_]]])),
        ('index entries in range', forall(k_, imp(all_(0 <= k_, k_ < n), all_(ip.arr[k_] >= 0, ip.arr[k_] < n)), [ip.arr[k_]])),
        ('index is injective', forall([k_, l_], imp(all_(0 <= k_, k_ < l_, l_ < n), ip.arr[k_] != ip.arr[l_]), [[ip.arr[k_], ip.arr[l_]]])),
        ('index maps sorted positions to original ones', forall(k_, imp(all_(0 <= k_, k_ < n), x.arr[k_] == x0.arr[ip.arr[k_]]), [x.arr[k_]])),
        ('lengths kept', x.len == x0.len)]
ISPERM = z3.Function('is_permutation', AI, I, B)     # its entries in [0,n) are an injective map of [0,n) into itself
INVERSE = z3.Function('inverse_of', AI, AI)
_p, _n = z3.Const('ip_p', AI), z3.Int('ip_n')
# such a map is onto (pigeonhole principle, assumed): it has an inverse
ISPERM_AX = z3.ForAll([_p, _n], imp(ISPERM(_p, _n), forall(k_, imp(all_(0 <= k_, k_ < _n), all_(_p[k_] >= 0, _p[k_] < _n, INVERSE(_p)[k_] >= 0, INVERSE(_p)[k_] < _n, _p[INVERSE(_p)[k_]] == k_, INVERSE(_p)[_p[k_]] == k_)), [INVERSE(_p)[k_], _p[k_]])), patterns=[ISPERM(_p, _n)])
def spec_sort(eng, e, st, obj, vs):
    """contract of Sort<std::vector<SizeType>>::sort(x, iperm), proved as sort_size"""
    xl, il = vs[0], vs[1]
    small = z3.simplify(vs[2])
    x0, ip0 = eng.read(st, xl), eng.read(st, il)
    if z3.is_int_value(small) and small.as_long() == 0:
        n = x0.len
        eng.oblige(st, n == ip0.len, 'Sort::sort: the index array has the length of the sequence', 'callee precondition', e.get('loc', ''))
    else:
        n = small
        eng.oblige(st, all_(n > 0, n == ip0.len, n <= x0.len), 'Sort::sort: the index array has the length of the part to be sorted', 'callee precondition', e.get('loc', ''))
    facts = []
    x1, ip1 = eng.fresh(vec_t(x0.ety), 'sorted', facts), eng.fresh(vec_t(SZ), 'iperm', facts)
    st.assume(*facts)
    st.assume(x1.len == x0.len, ip1.len == ip0.len, *[f for _, f in sort_post(x1, x0, ip1, n)[:4]])
    st.assume(forall(k_, imp(all_(n <= k_, k_ < x0.len), x1.arr[k_] == x0.arr[k_]), [x1.arr[k_]]))
    st.assume(ISPERM(ip1.arr, n))
    eng.write(st, xl, x1)
    eng.write(st, il, ip1)
    return [(st, None)]
H = [Hint('pairs filled', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), all_(e['p'][k_].fields['first'] == e.root('x').arr[k_], e['p'][k_].fields['second'] == k_)), [e['p'].arr[k_]])),
     Hint('values copied', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), e.root('x').arr[k_] == e['p'][k_].fields['first']), [e.root('x').arr[k_]])),
     Hint('indices copied', lambda e: forall(k_, imp(all_(0 <= k_, k_ < e['i']), e.root('iperm').arr[k_] == e['p'][k_].fields['second']), [e.root('iperm').arr[k_]])),
     Hint('beyond', lambda e: forall(k_, imp(k_ >= e['n'], e.root('x').arr[k_] == e.old('x').arr[k_]), [e.root('x').arr[k_]]))]
for r in ('sort_size', 'sort_int', 'sort_double'):
    contract(P, 'vroot::' + r, tu=TU, title='Sort::sort: ordered, valid index permutation (%s)' % r, opts={'hfuncs': ['sort']},
        pre=lambda c: [c['x'].len == c['iperm'].len],
        post=lambda c: sort_post(c['x'], c.old('x'), c['iperm'], c.old('x').len) + [('index length', c['iperm'].len == c.old('x').len)], hints=H)
contract(P, 'vroot::sort_small', tu=TU, title='Sort::sort of the first smallSize elements', opts={'hfuncs': ['sort']},
        pre=lambda c: [c['n'] == c['iperm'].len, c['n'] <= c['x'].len, c['n'] > 0],
        post=lambda c: sort_post(c['x'], c.old('x'), c['iperm'], c['n']) + [
            ('elements beyond smallSize stay', forall(k_, imp(all_(c['n'] <= k_, k_ < c['x'].len), c['x'].arr[k_] == c.old('x').arr[k_]), [c['x'].arr[k_]]))], hints=H)
