"""Contracts of time_utils.cpp and gid_utils.cpp (C04, C05, C06)."""
from ..job import *  # noqa

NS = 'rmw_dds_common::'
B = 10 ** 9
IMAX = 2 ** 31 - 1


def c04(J):
    E = J.eng('time_utils')
    fid = J.find(E, NS + 'clamp_rmw_time_to_dds_time')
    st = St()
    t = E.p.funcs[fid]['params'][0]['t']
    v = E.fresh_val(E.p.deref(t), 'time')
    l = E.temp(v, st)
    if E.p.is_ref(t):
        r = E.inline(fid, l, [l], st)
        after = st.store[l.alts[0][1]]
        E.oblige(st, And(after.f['sec'] == v.f['sec'], after.f['nsec'] == v.f['nsec']),
                 'input unchanged', kind='post')
    else:
        r = E.inline(fid, None, [l], st)
    if isinstance(r, LV):
        r = E.load(r, st)
    tot = v.f['sec'] * B + v.f['nsec']
    mx = IMAX * B + B - 1
    s, n = r.f['sec'], r.f['nsec']
    E.oblige(st, And(s >= 0, s <= IMAX), 'seconds within INT32_MAX', kind='post')
    E.oblige(st, And(n >= 0, n < B), 'nanoseconds below one second', kind='post')
    E.oblige(st, Implies(tot <= mx, s * B + n == tot), 'representable total is preserved exactly',
             kind='post')
    E.oblige(st, Implies(tot > mx, s * B + n == mx), 'larger total saturates to the maximum',
             kind='post')
    for nm, c in (('saturating', tot > mx), ('normalising', And(tot <= mx, v.f['nsec'] >= B)),
                  ('exact', v.f['nsec'] < B), ('wrapping seconds', v.f['sec'] > 2 ** 64 - 10)):
        J.cover(E, st, c, nm + ' input possible')


def gid(E, name):
    t = E.p.rec_t['rmw_gid_s']
    v = E.fresh_val(t, name)
    E.arr_items(v.f['data'])
    return v


def items(E, v):
    return E.arr_items(v.f['data'])


def lex(xs, ys):
    r = FALSE
    for x, y in reversed(list(zip(xs, ys))):
        r = Or(x < y, And(x == y, r))
    return r


def call(J, E, fid, st, lvs, this=None):
    """call with the given lvalues, passed by reference, pointer or value as the callee declares"""
    acts = []
    for p, l in zip(E.p.funcs[fid]['params'], lvs):
        acts.append(lvptr(l) if E.p.T(p['t'])['k'] == 'ptr' else l)
    return E.inline(fid, this, acts, st)


def cmp_fid(J, E):
    return J.find(E, NS + 'Compare_rmw_gid_t::operator()')


def eq_fid(J, E):
    return J.find(E, NS + 'operator==', lambda ps: ps == ['rmw_gid_s', 'rmw_gid_s'] or
                  all('gid' in p for p in ps))


def truth(E, v, st):
    if isinstance(v, LV):
        v = E.load(v, st)
    return v


def c05(J):
    for what in ('cmp', 'eq', 'order'):
        E = J.eng('gid_utils', 'gid_utils/' + what, opaque_bytes=False)
        st = St()
        vs = [gid(E, n) for n in 'abc']
        ls = [E.temp(v, st, n) for v, n in zip(vs, 'abc')]
        a, b, c = [items(E, v) for v in vs]
        before = dict(st.store)
        this = E.temp(SV('cmp', None, {}), st)
        fc, fe = cmp_fid(J, E), eq_fid(J, E)

        def C(i, j):
            return truth(E, call(J, E, fc, st, [ls[i], ls[j]], this), st)

        def Q(i, j):
            return truth(E, call(J, E, fe, st, [ls[i], ls[j]]), st)
        if what == 'cmp':
            r = C(0, 1)
            E.oblige(st, r == lex(a, b), 'comparison is the lexicographic order of the bytes',
                     kind='post')
            J.cover(E, st, r, 'less is possible')
            J.cover(E, st, Not(r), 'not less is possible')
        elif what == 'eq':
            r = Q(0, 1)
            E.oblige(st, r == And(*[x == y for x, y in zip(a, b)]),
                     'equality is equality of all bytes', kind='post')
            J.cover(E, st, r, 'equal is possible')
            J.cover(E, st, Not(r), 'different is possible')
        else:
            ab, ba, bc, ac, aa = C(0, 1), C(1, 0), C(1, 2), C(0, 2), C(0, 0)
            e = Q(0, 1)
            E.oblige(st, Not(aa), 'irreflexive', kind='lemma')
            E.oblige(st, Implies(And(ab, bc), ac), 'transitive', kind='lemma')
            E.oblige(st, Or(And(ab, Not(ba), Not(e)), And(Not(ab), ba, Not(e)),
                            And(Not(ab), Not(ba), e)), 'trichotomy with ==', kind='lemma')
            J.cover(E, st, And(ab, bc), 'chains are possible')
        for l, v in zip(ls, vs):
            E.oblige(st, unchanged(E, st.store[l.alts[0][1]], v), 'operands unchanged',
                     kind='frame')
        # independence of the implementation identifier: same bytes, other identifier
        v2 = gid(E, 'a2')
        v2 = v2.with_('data', vs[0].f['data'])
        l2 = E.temp(v2, st, 'a2')
        if what == 'cmp':
            r2 = truth(E, call(J, E, fc, st, [l2, ls[1]], this), st)
            E.oblige(st, r == r2, 'identifier does not matter', kind='post')
            r3 = truth(E, call(J, E, fc, st, [ls[1], l2], this), st)
            E.oblige(st, r3 == lex(b, a), 'identifier does not matter (right)', kind='post')
        elif what == 'eq':
            r2 = truth(E, call(J, E, fe, st, [l2, ls[0]]), st)
            E.oblige(st, r2, 'identifier does not matter', kind='post')


def unchanged(E, v, w):
    return And(same(E, v.f['implementation_identifier'], w.f['implementation_identifier']),
               *[x == y for x, y in zip(items(E, v), items(E, w))])


def same(E, x, y):
    if x is y:
        return TRUE
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return E.ptr_eq(x, y)
    if isinstance(x, ExprRef) and isinstance(y, ExprRef):
        return x == y
    return FALSE


def c06(J):
    mt = None
    for what in ('to', 'from', 'roundtrip', 'roundtrip2'):
        E = J.eng('gid_utils', 'gid_utils/' + what, opaque_bytes=False)
        st = St()
        f1 = J.find(E, NS + 'convert_gid_to_msg')
        f2 = J.find(E, NS + 'convert_msg_to_gid')
        mt = [t for n, t in E.p.rec_t.items() if n.endswith('msg::Gid')]
        if len(mt) != 1:
            raise Unsupported('message type of GIDs')
        g = gid(E, 'g')
        m = E.fresh_val(mt[0], 'm')
        E.arr_items(m.f['data'])
        h = gid(E, 'h')
        m2 = E.fresh_val(mt[0], 'm2')
        lg, lm, lh, lm2 = [E.temp(v, st) for v in (g, m, h, m2)]

        def now(l):
            return st.store[l.alts[0][1]]
        G, M, HH, M2 = items(E, g), E.arr_items(m.f['data']), items(E, h), \
            E.arr_items(m2.f['data'])

        def eqs(xs, ys):
            return And(BoolVal(len(xs) == len(ys)), *[x == y for x, y in zip(xs, ys)])

        def same_id(l, v):
            return same(E, now(l).f['implementation_identifier'],
                        v.f['implementation_identifier'])
        if what == 'to':
            call(J, E, f1, st, [lg, lm])
            E.oblige(st, eqs(E.arr_items(now(lm).f['data']), G), 'message holds the 16 bytes',
                     kind='post')
            E.oblige(st, And(eqs(items(E, now(lg)), G), same_id(lg, g)), 'source unchanged',
                     kind='frame')
            E.oblige(st, BoolVal(set(now(lm).f) == {'data'}), 'message has no other content',
                     kind='frame')
        elif what == 'from':
            call(J, E, f2, st, [lm, lh])
            E.oblige(st, eqs(items(E, now(lh)), M), 'GID holds the 16 bytes', kind='post')
            E.oblige(st, same_id(lh, h), 'implementation identifier unchanged', kind='frame')
            E.oblige(st, eqs(E.arr_items(now(lm).f['data']), M), 'source unchanged', kind='frame')
        elif what == 'roundtrip':
            call(J, E, f1, st, [lg, lm])
            call(J, E, f2, st, [lm, lh])
            E.oblige(st, eqs(items(E, now(lh)), G), 'GID round trip', kind='lemma')
        else:
            call(J, E, f2, st, [lm, lh])
            call(J, E, f1, st, [lh, lm2])
            E.oblige(st, eqs(E.arr_items(now(lm2).f['data']), M), 'message round trip',
                     kind='lemma')
        J.cover(E, st, G[0] != M[0], 'source and destination may differ')


SPECS = {'C04': c04, 'C05': c05, 'C06': c06}
