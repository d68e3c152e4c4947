"""Contracts of qos.cpp (C07-C13)."""
from ..job import *  # noqa
from .. import stdlib, roslib, loops
from ..loops import Fold, Cand
from ..stdlib import str_len, concat

NS = 'rmw_dds_common::'


def enumv(E, name):
    """value of an enumerator used by the contracts (rmw/types.h)"""
    return IntVal(ENUM[name])


# rmw/types.h, rmw/qos_profiles.h
ENUM = dict(REL_DEF=0, RELIABLE=1, BEST_EFFORT=2, REL_UNK=3, REL_BA=4,
            DUR_DEF=0, TRANSIENT=1, VOLATILE=2, DUR_UNK=3, DUR_BA=4,
            LIV_DEF=0, AUTO=1, MANUAL=3, LIV_UNK=4, LIV_BA=5)
SEC_INF, NS_INF, NS_BA = 9223372036, 854775807, 854775806
B = 10 ** 9


def R(n):
    return IntVal(ENUM[n])


class Q:
    """fields of a QoS profile value"""

    def __init__(self, v):
        self.v = v
        f = v.f
        self.rel, self.dur, self.liv = f['reliability'], f['durability'], f['liveliness']
        self.dl = (f['deadline'].f['sec'], f['deadline'].f['nsec'])
        self.lease = (f['liveliness_lease_duration'].f['sec'],
                      f['liveliness_lease_duration'].f['nsec'])


def normal(q):
    """durations are normalised (nanoseconds below one second)"""
    return And(q.dl[1] < B, q.lease[1] < B)


def isdef(t):
    return And(t[0] == 0, t[1] == 0)


def less(a, b):
    return Or(a[0] < b[0], And(a[0] == b[0], a[1] < b[1]))


def teqv(a, b):
    return And(a[0] == b[0], a[1] == b[1])


def errors(p, s):
    """(name, condition) of every incompatibility"""
    def dur(a, b):
        return And(Not(isdef(b)), Or(isdef(a), less(b, a)))
    return [('reliability', And(p.rel == R('BEST_EFFORT'), s.rel == R('RELIABLE'))),
            ('durability', And(p.dur == R('VOLATILE'), s.dur == R('TRANSIENT'))),
            ('liveliness', And(p.liv == R('AUTO'), s.liv == R('MANUAL'))),
            ('deadline', dur(p.dl, s.dl)),
            ('lease', dur(p.lease, s.lease))]


def warnings(p, s):
    def w(a, b, unk, bad_a, bad_b):
        ua, ub = Or(a == 0, a == R(unk)), Or(b == 0, b == R(unk))
        return Or(And(ua, ub), And(ua, b == R(bad_b)), And(a == R(bad_a), ub))
    return [('reliability', w(p.rel, s.rel, 'REL_UNK', 'BEST_EFFORT', 'RELIABLE')),
            ('durability', w(p.dur, s.dur, 'DUR_UNK', 'VOLATILE', 'TRANSIENT')),
            ('liveliness', w(p.liv, s.liv, 'LIV_UNK', 'AUTO', 'MANUAL'))]


def total(cs):
    return Sum([If(c, IntVal(1), IntVal(0)) for _, c in cs])


def setup_check(J, name, can_fail):
    E = J.eng('qos', name)
    E.fmt_can_fail = can_fail
    fid = J.find(E, NS + 'qos_profile_check_compatible')
    ps = E.p.funcs[fid]['params']
    st = St()
    st.store['$fmtfail'] = FALSE
    qs = []
    acts = []
    for i, nm in enumerate(('pub', 'sub')):
        v = E.fresh_val(E.p.deref(ps[i]['t']), nm)
        l = E.temp(v, st, '$' + nm)
        acts.append(l)
        qs.append(Q(v))
        E.fact(normal(qs[-1]))
    verdict0 = E.fresh_int('verdict0', 0, 2 ** 32 - 1)
    lc = E.temp(verdict0, st, '$verdict')
    cnull = E.fresh('compat_null', BoolSort())
    acts.append(Ptr([(cnull, None), (Not(cnull), ('lv', lc.alts[0][1], ()))]))
    size = E.fresh_int('size', 0, 2 ** 40)
    rnull = E.fresh('reason_null', BoolSort())
    b = roslib.cbuf(E, st, '$reason', size)
    b0 = st.store[b]
    acts.append(Ptr([(rnull, None), (Not(rnull), ('lv', b, (('i', IntVal(0)),)))]))
    acts.append(size)
    bad = Or(cnull, And(rnull, size != 0))
    writes = []

    def hook(E, st, g, root, path, how, line):
        if how == 'write' and root in ('$reason', lc.alts[0][1]):
            E.oblige(st, bimp(g, Not(bad)), 'nothing is written when an argument is invalid', line,
                     'frame')
    E.access_hook = hook
    r = E.inline(fid, None, acts, st)
    E.access_hook = None
    for nm, q in zip(('pub', 'sub'), qs):
        pass
    return E, st, fid, qs, r, st.store[lc.alts[0][1]], verdict0, bad, rnull, size, b0, \
        st.store[b], cnull


def c07(J):
    E, st, fid, (p, s), r, v, v0, bad, rnull, size, b0, b1, cnull = setup_check(J, 'qos/verdict',
                                                                              True)
    es, ws = errors(p, s), warnings(p, s)
    err, warn = Or(*[c for _, c in es]), Or(*[c for _, c in ws])
    ok = And(Not(bad), r == 0)
    failed = st.store['$fmtfail']
    E.oblige(st, Implies(And(Not(bad), Not(failed)), r == 0),
             'the check succeeds when the reason can be formatted', kind='post')
    E.oblige(st, Implies(And(ok, err), v == 2), 'verdict ERROR for incompatible profiles',
             kind='post')
    E.oblige(st, Implies(And(ok, v == 2), err), 'verdict ERROR only for incompatible profiles',
             kind='post')
    E.oblige(st, Implies(And(ok, Not(err), warn), v == 1),
             'verdict WARNING for possibly incompatible profiles', kind='post')
    E.oblige(st, Implies(And(ok, v == 1), And(Not(err), warn)),
             'verdict WARNING only for possibly incompatible profiles', kind='post')
    E.oblige(st, Implies(ok, Or(v == 0, v == 1, v == 2)), 'verdict is one of the three values',
             kind='post')
    for n, c in es:
        J.cover(E, st, And(ok, c, Not(Or(*[d for m, d in es if m != n]))),
                'only the %s conflict' % n)
    for n, c in ws:
        J.cover(E, st, And(ok, Not(err), c), '%s warning' % n)
    J.cover(E, st, And(ok, Not(err), Not(warn)), 'compatible')


def c08(J):
    E, st, fid, (p, s), r, v, v0, bad, rnull, size, b0, b1, cnull = setup_check(J, 'qos/reason',
                                                                              True)
    es, ws = errors(p, s), warnings(p, s)
    err = Or(*[c for _, c in es])
    E.oblige(st, Implies(bad, r == 11), 'INVALID_ARGUMENT for invalid arguments', kind='post')
    E.oblige(st, Implies(Not(bad), r != 11), 'INVALID_ARGUMENT only for invalid arguments',
             kind='post')
    E.oblige(st, Implies(bad, And(v == v0, b1.a['s'] == b0.a['s'], b1.a['ok'] == b0.a['ok'],
                                  b1.a['cnt'] == b0.a['cnt'])),
             'invalid arguments change nothing', kind='frame')
    buf = And(Not(bad), Not(rnull), size >= 1)
    E.oblige(st, Implies(buf, b1.a['ok']), 'the buffer is NUL-terminated on return', kind='post')
    ok = And(buf, r == 0)
    empty = b1.a['s'] == E.strlit('')
    E.oblige(st, Implies(And(ok, v == 0), empty), 'no reason for compatible profiles', kind='post')
    E.oblige(st, Implies(And(ok, v != 0), And(Not(empty), str_len(E, b1.a['s']) > 0)),
             'a reason for every other verdict', kind='post')
    E.oblige(st, Implies(ok, b1.a['cnt'] == If(err, total(es), total(ws))),
             'exactly one message per detected conflict', kind='post')
    E.oblige(st, b1.a['n'] == size, 'buffer size unchanged', kind='frame')
    J.cover(E, st, bad, 'invalid arguments')
    J.cover(E, st, And(ok, size == 1, v == 2), 'size 1')
    J.cover(E, st, And(ok, b1.a['cnt'] == 5), 'five messages')
    J.cover(E, st, And(Not(bad), rnull), 'no buffer')
    J.cover(E, st, And(Not(bad), Not(rnull), size == 0), 'empty buffer')


# ------------------------------------------------------------------ best available
class View:
    """the specification functions of the best-available rules: folds over the first k endpoints
    of the order given by q"""
    BOOLS = (('all_rel', 'all reliable', True, lambda q: q.rel == R('RELIABLE')),
             ('all_dur', 'all transient', True, lambda q: q.dur == R('TRANSIENT')),
             ('all_liv', 'all manual', True, lambda q: q.liv == R('MANUAL')),
             ('any_liv', 'any manual', False, lambda q: q.liv == R('MANUAL')))

    @staticmethod
    def larger(w):
        def step(a, q):
            x = getattr(q, w)
            c = less(a, x)
            return If(c, x[0], a[0]), If(c, x[1], a[1])
        return step

    @staticmethod
    def smaller(w):
        def step(a, q):
            x = getattr(q, w)
            c = And(Not(isdef(x)), less(x, a))
            return If(c, x[0], a[0]), If(c, x[1], a[1])
        return step

    @staticmethod
    def steps():
        """(name, accumulator sorts, step on an accumulator tuple and a profile)"""
        BS, IS = BoolSort(), IntSort()
        r = []
        for _, nm, al, c in View.BOOLS:
            r.append((nm, (BS,), lambda a, q, al=al, c=c: ((And if al else Or)(a[0], c(q)),)))
            r.append(('count ' + nm, (IS,),
                      lambda a, q, c=c: (a[0] + If(c(q), IntVal(1), IntVal(0)),)))
        for w in ('dl', 'lease'):
            r.append(('all default ' + w, (BS,),
                      lambda a, q, w=w: (And(a[0], isdef(getattr(q, w))),)))
            r.append(('max ' + w, (IS, IS), View.larger(w)))
            r.append(('min ' + w, (IS, IS), View.smaller(w)))
        return r

    @staticmethod
    def meaning(E, nm, sp, al, cond, n, tag):
        """sp(n) iff all (any) of the first n endpoints satisfy cond; by induction over the
        recursive definition"""
        g = (lambda x: x) if al else Not
        st = St()
        j, k = E.fresh('j', IntSort()), E.fresh('k', IntSort())
        P = lambda k: Implies(g(sp(k)), g(cond(j)))  # noqa
        E.oblige(st, Implies(And(k >= 0, 0 <= j, j <= k, sp.f(k + 1) == sp.step(sp.f(k), k),
                                 Implies(j < k, P(k))), P(k + 1)),
                 'what the specification function says about one endpoint (%s)' % nm, kind='lemma')
        w = E.fresh('w', IntSort())
        W = lambda k, w: Or(g(sp(k)), And(0 <= w, w < k, Not(g(cond(w)))))  # noqa
        E.oblige(st, Implies(And(k >= 0, sp.f(k + 1) == sp.step(sp.f(k), k), W(k, w)),
                             Or(W(k + 1, w), W(k + 1, k))),
                 'the specification function has a witness (%s)' % nm, kind='lemma')
        E.oblige(st, Implies(And(k >= 0, sp.f(k + 1) == sp.step(sp.f(k), k), g(sp(k))),
                             Or(g(sp(k + 1)), W(k + 1, k))),
                 'the specification function has a witness (first, %s)' % nm, kind='lemma')
        E.oblige(st, g(sp(IntVal(0))), 'the specification function starts neutral (%s)' % nm,
                 kind='lemma')
        E.forall(tag, lambda j: bimp(And(0 <= j, j < n), bimp(g(sp(n)), g(cond(j)))))
        w = E.fresh('witness', IntSort())
        E.fact(W(n, w))
        E.interested(tag, w)

    def __init__(self, E, q, suffix, n, tag):
        self.all = []

        def F(name, sort, init, step):
            f = Fold(E, name + suffix, sort, init, step)
            self.all.append(f)
            return f
        BS, IS = BoolSort(), IntSort()
        one = lambda c: If(c, IntVal(1), IntVal(0))  # noqa
        self.pairs = []
        for at, nm, al, cond in View.BOOLS:
            sp = F(nm, BS, BoolVal(al), lambda a, k, al=al, cond=cond: (And if al else Or)(
                a, cond(q(k))))
            setattr(self, at, sp)
            self.meaning(E, nm + suffix, sp, al, lambda k, cond=cond: cond(q(k)), n, tag)
            if al:
                c = F('count ' + nm, IS, IntVal(0), lambda a, k, cond=cond: a + one(cond(q(k))))
                d = F('count not ' + nm, IS, IntVal(0),
                      lambda a, k, cond=cond: a + one(Not(cond(q(k)))))
                self.pairs.append((sp, c, d))
        self.t = {}
        for w in ('dl', 'lease'):
            get = lambda k, w=w: getattr(q(k), w)  # noqa
            ad = F('all default ' + w, BS, TRUE, lambda a, k, get=get: And(a, isdef(get(k))))
            self.meaning(E, 'all default ' + w + suffix, ad, True,
                         lambda k, get=get: isdef(get(k)), n, tag)
            cd = F('count not default ' + w, IS, IntVal(0),
                   lambda a, k, get=get: a + one(Not(isdef(get(k)))))

            def two(nm, init, step):
                fs = [F('%s %s %s' % (nm, c, w), IS, IntVal(init[i]), None)
                      for i, c in enumerate(('sec', 'nsec'))]
                for i in range(2):
                    fs[i].step = lambda a, k, i=i: step((fs[0].f(k), fs[1].f(k)), q(k))[i]
                return tuple(fs)
            self.t[w] = (ad, two('max', (0, 0), View.larger(w)),
                         two('min', (SEC_INF, NS_INF), View.smaller(w)), cd)


class Rule:
    """the list-based best-available rules over an endpoint array (value Own of infos)"""

    def __init__(self, E, arr):
        self.E, self.arr = E, arr
        n = arr.ln

        def q(k):
            return Q(E.from_term(sel(arr.arr, k), arr.ety).f['qos_profile'])
        self.q = q
        self.n = n
        tag = stdlib.seqtag(E, arr)
        self.views = [View(E, q, '', n, tag)]
        for a in ('all_rel', 'all_dur', 'all_liv', 'any_liv', 't'):
            setattr(self, a, getattr(self.views[0], a))
        if not hasattr(E, 'loop_hooks'):
            E.loop_hooks = []
        E.loop_hooks.append(self.hook)
        E.pre_loop_hooks.append(self.backwards)

    def backwards(self, E, st, leaves):
        """a loop that starts at the end of the list: the specification functions over the last k
        endpoints; they agree with the others on the whole list because their steps commute"""
        if len(self.views) > 1:
            return
        ends = [self.n, isub(self.n, IntVal(1))]
        for key, (root, path) in leaves.items():
            v = loops.index_of(E.getpath(st.store[root], path))
            if v is not None and ival(v) is None and any(E.valid(st, v == x) for x in ends):
                break
        else:
            return
        n, q = self.n, self.q
        v = View(E, lambda k: q(isub(isub(n, IntVal(1)), k)), ' from the end', n,
                 'idx:from the end')
        self.views.append(v)
        self.commute(E)
        for f, g in zip(self.views[0].all, v.all):
            E.fact(f(n) == g(n))

    def commute(self, E):
        """two steps of a specification function may be exchanged"""
        x, y = E.fresh_val(self.arr.ety, 'x'), E.fresh_val(self.arr.ety, 'y')
        x, y = [Q(v.f['qos_profile']) for v in (x, y)]
        st = St()
        for nm, sorts, step in View.steps():
            a = tuple(E.fresh('acc', s) for s in sorts)
            E.oblige(st, And(*[i == j for i, j in zip(step(step(a, x), y), step(step(a, y), x))]),
                     'the order of the endpoints does not matter (%s)' % nm, kind='lemma')

    def hook(self, E, st, leaves, k):
        """relations between the specification functions (proved with the loop)"""
        out = []
        for sp, c, d in [x for v in self.views for x in v.pairs]:
            for nm, fn in (('all %s iff count is k' % c.name,
                            lambda k, s, sp=sp, c=c: sp(k) == (c(k) == k)),
                           ('count<=k ' + c.name, lambda k, s, c=c: And(c(k) >= 0, c(k) <= k)),
                           ('counts add up ' + c.name,
                            lambda k, s, c=c, d=d: And(c(k) + d(k) == k, d(k) >= 0))):
                out.append(Cand(nm, fn))
        for w, (ad, mx, mn, cd) in [x for v in self.views for x in v.t.items()]:
            out.append(Cand('all default iff none counted ' + w,
                            lambda k, s, ad=ad, cd=cd: And(ad(k) == (cd(k) == 0), cd(k) >= 0)))
            # all default iff the maximum is (0,0)
            out.append(Cand('all default iff max is default ' + w,
                            lambda k, s, ad=ad, mx=mx: And(
                                ad(k) == isdef((mx[0](k), mx[1](k))), mx[0](k) >= 0,
                                mx[1](k) >= 0)))
        return out

    def expect(self, q0, which):
        """(reliability, durability, liveliness, deadline, lease) of the rule for profile q0"""
        E, n = self.E, self.arr.ln
        inf = (IntVal(SEC_INF), IntVal(NS_BA))

        def dur(w, old):
            ad, mx, mn, cd = self.t[w]
            m = mx if which == 'sub' else mn
            return tuple(If(teqv(old, inf), If(ad(n), IntVal(0), m[i](n)), old[i])
                         for i in range(2))
        if which == 'sub':
            r = If(q0.rel == R('REL_BA'), If(self.all_rel(n), R('RELIABLE'), R('BEST_EFFORT')),
                   q0.rel)
            d = If(q0.dur == R('DUR_BA'), If(self.all_dur(n), R('TRANSIENT'), R('VOLATILE')),
                   q0.dur)
            v = If(q0.liv == R('LIV_BA'), If(self.all_liv(n), R('MANUAL'), R('AUTO')), q0.liv)
        else:
            r = If(q0.rel == R('REL_BA'), R('RELIABLE'), q0.rel)
            d = If(q0.dur == R('DUR_BA'), R('TRANSIENT'), q0.dur)
            v = If(q0.liv == R('LIV_BA'), If(self.any_liv(n), R('MANUAL'), R('AUTO')), q0.liv)
        return r, d, v, dur('dl', q0.dl), dur('lease', q0.lease)


def oblige_profile(E, st, g, q, exp, what):
    r, d, v, dl, ls = exp
    for nm, c in (('reliability', q.rel == r), ('durability', q.dur == d),
                  ('liveliness', q.liv == v), ('deadline', teqv(q.dl, dl)),
                  ('lease duration', teqv(q.lease, ls))):
        E.oblige(st, Implies(g, c), '%s %s' % (nm, what), kind='post')


def rest_same(E, a, b):
    """history, depth, lifespan, naming convention unchanged"""
    ks = [k for k in a.f if k not in ('reliability', 'durability', 'liveliness', 'deadline',
                                      'liveliness_lease_duration')]
    cs = []
    for k in ks:
        x, y = a.f[k], b.f[k]
        if isinstance(x, SV):
            cs += [x.f[j] == y.f[j] for j in x.f]
        else:
            cs.append(x == y)
    return And(*cs)


def all_same(E, a, b):
    qa, qb = Q(a), Q(b)
    return And(rest_same(E, a, b), qa.rel == qb.rel, qa.dur == qb.dur, qa.liv == qb.liv,
               teqv(qa.dl, qb.dl), teqv(qa.lease, qb.lease))


def ba(which):
    def spec(J):
        E = J.eng('qos', 'qos/best available ' + which)
        E.trace = J.trace
        fid = J.find(E, NS + 'qos_profile_get_best_available_for_' +
                     ('subscription' if which == 'sub' else 'publisher'))
        ps = E.p.funcs[fid]['params']
        st = St()
        info = E.fresh_val(E.T(ps[0]['t'])['to'], 'infos')
        own = info.f['info_array']
        # a valid endpoint array: `size` elements, null only if empty
        E.fact(own.ln == info.f['size'])
        E.fact(Implies(own.null, own.ln == 0))
        li = E.temp(info, st, '$infos')
        prof = E.fresh_val(E.T(ps[1]['t'])['to'], 'profile')
        lp = E.temp(prof, st, '$profile')
        n0, n1 = E.fresh('infos_null', BoolSort()), E.fresh('profile_null', BoolSort())
        rule = Rule(E, own)
        r = E.inline(fid, None, [Ptr([(n0, None), (Not(n0), ('lv', li.alts[0][1], ()))]),
                                 Ptr([(n1, None), (Not(n1), ('lv', lp.alts[0][1], ()))])], st)
        after = st.store[lp.alts[0][1]]
        bad = Or(n0, n1)
        E.oblige(st, Implies(bad, r == 11), 'INVALID_ARGUMENT for null arguments', kind='post')
        E.oblige(st, Implies(Not(bad), r == 0), 'succeeds for valid arguments', kind='post')
        E.oblige(st, Implies(bad, all_same(E, after, prof)), 'null arguments change nothing',
                 kind='frame')
        g = Not(bad)
        oblige_profile(E, st, g, Q(after), rule.expect(Q(prof), which), 'follows the rule')
        E.oblige(st, rest_same(E, after, prof), 'other policies unchanged', kind='frame')
        i2 = st.store[li.alts[0][1]]
        E.oblige(st, And(i2.f['size'] == info.f['size'],
                         i2.f['info_array'].arr == own.arr,
                         i2.f['info_array'].null == own.null), 'endpoint list unchanged',
                 kind='frame')
        J.cover(E, st, And(g, own.ln == 0), 'no endpoints')
        J.cover(E, st, And(g, own.ln == 5, Q(prof).rel == R('REL_BA')), 'five endpoints')
        J.cover(E, st, And(g, Q(after).liv == R('MANUAL'), Q(prof).liv == R('LIV_BA')), 'manual')
        J.cover(E, st, And(g, Q(after).dl[0] == 7, Q(prof).dl[0] == SEC_INF), 'deadline 7 s')
    return spec



# ------------------------------------------------------------------ topic wrappers
def list_contract(rule, which):
    """contract of the list-based rule, for callers"""
    def h(E, st, e, args):
        ln = e.get('l', 0)
        arr = E.load(E.deref(E.val(args[0], st), st, ln), st, ln)
        lp = E.deref(E.val(args[1], st), st, ln)
        q = E.load(lp, st, ln)
        own = arr.f['info_array']
        if not (own.arr.eq(rule.arr.arr) or E.valid(st, own.arr == rule.arr.arr)) or \
                not E.valid(st, arr.f['size'] == rule.arr.ln):
            raise Unsupported('best-available rule applied to another list')
        r, d, v, dl, ls = rule.expect(Q(q), which)
        n = q.with_('reliability', r).with_('durability', d).with_('liveliness', v)
        for f, t in (('deadline', dl), ('liveliness_lease_duration', ls)):
            x = q.f[f]
            n = n.with_(f, x.with_('sec', t[0]).with_('nsec', t[1]))
        E.store(lp, n, st, ln)
        E.used['%s (contract)' % e['f']['q']] = E.used.get('%s (contract)' % e['f']['q'], 0) + 1
        return IntVal(0)
    return h


def has_ba(q):
    inf = (IntVal(SEC_INF), IntVal(NS_BA))
    return Or(q.rel == R('REL_BA'), q.dur == R('DUR_BA'), q.liv == R('LIV_BA'),
              teqv(q.dl, inf), teqv(q.lease, inf))


def topic(which):
    def spec(J):
        nm = 'subscription' if which == 'sub' else 'publisher'
        E = J.eng('qos', 'qos/best available for topic ' + nm)
        E.trace = J.trace
        fid = J.find(E, NS + 'qos_profile_get_best_available_for_topic_' + nm)
        ps = E.p.funcs[fid]['params']
        st = St()
        node_t = E.T(ps[0]['t'])['to']
        ctx_t = E.T([f for f in E.rec_fields(node_t) if f['n'] == 'context'][0]['t'])['to']
        ctx = E.fresh_val(ctx_t, 'ctx')
        lctx = E.temp(ctx, st, '$ctx')
        alloc = ctx.f['options'].f['allocator']
        node = E.fresh_val(node_t, 'node').with_('context', lvptr(lctx))
        lnode = E.temp(node, st, '$node')
        topic = E.fresh('topic', E.CStr)
        prof = E.fresh_val(E.T(ps[2]['t'])['to'], 'profile')
        lp = E.temp(prof, st, '$profile')
        nnull, pnull = E.fresh('node_null', BoolSort()), E.fresh('profile_null', BoolSort())
        bad = Or(nnull, E.is_cnull(topic), pnull)
        arr_t = None
        for q in ('rmw_topic_endpoint_info_array_s',):
            arr_t = E.p.rec_t.get(q)
        info = E.fresh_val(arr_t, 'infos')
        own = info.f['info_array']
        E.fact(own.ln == info.f['size'])
        E.fact(Implies(own.null, own.ln == 0))
        rule = Rule(E, own)
        for w in ('subscription', 'publisher'):
            E.contracts[NS + 'qos_profile_get_best_available_for_' + w] = list_contract(
                rule, w[:3])
        qret = E.fresh_int('query_ret', -(1 << 31), (1 << 31) - 1)
        fret = E.fresh_int('fini_ret', -(1 << 31), (1 << 31) - 1)
        for g, v in (('$calls', IntVal(0)), ('$open', FALSE), ('$finis', IntVal(0))):
            st.store[g] = v

        def same_alloc(st, a, what, line):
            p = E.deref(E.aval(a, st), st, line)
            v = E.load(p, st, line)
            E.oblige(st, And(*[teq(v.f[k], alloc.f[k]) for k in v.f if isinstance(v.f[k], ExprRef)]),
                     'the %s gets the node context\'s allocator' % what, line, 'post')

        def query(E, st, args):
            vs = [E.aval(a, st) for a in args]
            E.oblige(st, st.store['$calls'] == 0, 'the endpoints are queried only once', 0, 'post')
            E.oblige(st, Not(bad), 'no query for null arguments', 0, 'post')
            E.oblige(st, has_ba(Q(prof)), 'no query without a best-available policy', 0, 'post')
            E.oblige(st, E.ptr_eq(vs[0], lvptr(lnode)), 'the query gets the given node', 0, 'post')
            same_alloc(st, args[1], 'query', 0)
            tv = E.as_cstr(vs[2])
            E.oblige(st, teq(tv, topic), 'the query gets the given topic', 0, 'post')
            out = E.deref(vs[4], st, 0)
            old = E.load(out, st)
            E.oblige(st, And(old.f['info_array'].null, old.f['size'] == 0),
                     'the query gets a zero-initialised array', 0, 'post')
            st.store['$calls'] = iadd(st.store['$calls'], IntVal(1))
            st.store['$open'] = qret == 0
            E.store(out, E.merge_val(qret == 0, info, old), st)
            return qret

        def fini(E, st, e, args):
            ln = e.get('l', 0)
            E.assumed['rmw_topic_endpoint_info_array_fini: releases the elements and the array; '
                      'the array is zero-initialised afterwards'] = 1
            p = E.deref(E.val(args[0], st), st, ln)
            v = E.load(p, st, ln)
            same_alloc(st, E.val(args[1], st), 'finalisation', ln)
            o = v.f['info_array']
            E.oblige(st, Implies(st.store['$open'], Or(own.null, o.arr == own.arr)),
                     'the queried array is the one finalised', ln, 'post')
            st.store['$open'] = FALSE
            E.store(p, E.zero(v.t), st, ln)
            return fret
        E.handlers['!infos_fini'] = fini
        fl = E.temp(Fn([(TRUE, Handler('get_endpoint_info', query))]), st, '$query')
        r = E.inline(fid, None, [Ptr([(nnull, None), (Not(nnull), ('lv', lnode.alts[0][1], ()))]),
                                 topic,
                                 Ptr([(pnull, None), (Not(pnull), ('lv', lp.alts[0][1], ()))]),
                                 fl], st)
        after = st.store[lp.alts[0][1]]
        calls = st.store['$calls']
        E.oblige(st, Implies(bad, And(r == 11, calls == 0)), 'INVALID_ARGUMENT for null arguments',
                 kind='post')
        E.oblige(st, Implies(bad, all_same(E, after, prof)), 'null arguments change nothing',
                 kind='frame')
        need = And(Not(bad), has_ba(Q(prof)))
        E.oblige(st, calls == If(need, IntVal(1), IntVal(0)), 'queried exactly when needed',
                 kind='post')
        E.oblige(st, Implies(And(Not(bad), Not(need)), And(r == 0, all_same(E, after, prof))),
                 'profile without best-available policy is returned unchanged', kind='post')
        E.oblige(st, Implies(And(need, qret != 0), And(r == qret, all_same(E, after, prof))),
                 'query failure is returned as is, profile unchanged', kind='post')
        E.oblige(st, Not(st.store['$open']), 'queried list is finalised', kind='post')
        E.oblige(st, Implies(And(need, qret == 0, fret == 0), r == 0),
                 'succeeds when query and finalisation succeed', kind='post')
        g = And(need, r == 0)
        E.oblige(st, Implies(g, And(qret == 0)), 'no success without a successful query',
                 kind='post')
        oblige_profile(E, st, g, Q(after), rule.expect(Q(prof), which), 'follows the rule')
        E.oblige(st, rest_same(E, after, prof), 'other policies unchanged', kind='frame')
        J.cover(E, st, And(g, own.ln == 2), 'two endpoints')
        J.cover(E, st, And(need, qret == 10), 'query failure')
        J.cover(E, st, And(Not(bad), Not(need)), 'nothing to do')
        J.cover(E, st, And(need, qret == 0, fret == 1), 'finalisation failure')
    return spec


def c11(J):
    for w in ('sub', 'pub'):
        J.case('topic wrapper ' + w, topic(w))


def c12(J):
    E = J.eng('qos', 'qos/services')
    fid = J.find(E, NS + 'qos_profile_update_best_available_for_services')
    p = E.p.funcs[fid]['params'][0]
    st = St()
    v = E.fresh_val(E.p.deref(p['t']), 'qos')
    l = E.temp(v, st, '$qos')
    r = E.inline(fid, None, [l], st)
    if isinstance(r, LV):
        r = E.load(r, st)
    g = [i for i, x in E.p.globals.items() if x['n'] == 'rmw_qos_profile_services_default']
    if len(g) != 1:
        raise Unsupported('rmw_qos_profile_services_default is not referenced')
    d = E.load(E.global_lv({'id': g[0]}, st), st)
    E.assumed['rmw_qos_profile_services_default: the constant of rmw/qos_profiles.h'] = 1
    q, o, dd = Q(v), Q(r), Q(d)
    inf = (IntVal(SEC_INF), IntVal(NS_BA))
    for nm, a, b, c, cond in (
            ('reliability', o.rel, q.rel, dd.rel, q.rel == R('REL_BA')),
            ('durability', o.dur, q.dur, dd.dur, q.dur == R('DUR_BA')),
            ('liveliness', o.liv, q.liv, dd.liv, q.liv == R('LIV_BA'))):
        E.oblige(st, a == If(cond, c, b), nm, kind='post')
        J.cover(E, st, cond, nm + ' best available')
    for nm, a, b, c in (('deadline', o.dl, q.dl, dd.dl), ('lease', o.lease, q.lease, dd.lease)):
        E.oblige(st, And(*[a[i] == If(teqv(b, inf), c[i], b[i]) for i in range(2)]), nm,
                 kind='post')
        J.cover(E, st, teqv(b, inf), nm + ' best available')
    E.oblige(st, rest_same(E, r, v), 'every other field is copied', kind='frame')
    if E.p.is_ref(p['t']):
        E.oblige(st, all_same(E, E.load(l, st), v), 'input unchanged', kind='frame')


# ------------------------------------------------------------------ type hash
def encode(J):
    E = J.eng('qos', 'qos/encode type hash', native_strings=True)
    fid = J.find(E, NS + 'encode_type_hash_for_user_data_qos')
    ps = E.p.funcs[fid]['params']
    st = St()
    h = E.fresh_val(E.p.deref(ps[0]['t']), 'hash')
    out0 = E.fresh('out', E.Str)
    lh, lo = E.temp(h, st, '$hash'), E.temp(out0, st, '$out')
    st.store['$strret'], st.store['$strcalls'] = IntVal(0), IntVal(0)
    r = E.inline(fid, None, [lh, lo], st)
    out = E.load(lo, st)
    unset = h.f['version'] == 0
    text = roslib.hash_text(E, h.t)(E.to_term(h, h.t))
    sret = st.store['$strret']
    E.oblige(st, Implies(unset, And(r == 0, out == StringVal(''))),
             'unset version yields the empty string', kind='post')
    E.oblige(st, Implies(And(Not(unset), r == 0),
                         out == Concat(StringVal('typehash='), text, StringVal(';'))),
             'a set version yields "typehash=<string form>;"', kind='post')
    E.oblige(st, Implies(And(Not(unset), sret == 0), r == 0),
             'succeeds when the hash can be converted', kind='post')
    E.oblige(st, Implies(r != 0, out == out0), 'failures leave the output untouched', kind='frame')
    E.oblige(st, Implies(And(Not(unset), sret != 0), r != 0), 'failures are reported',
             kind='post')
    E.oblige(st, Implies(And(Not(unset), sret == 10), r == 10),
             'allocation failures are reported as BAD_ALLOC', kind='post')
    for key, p, what in getattr(E, 'tokens', []):
        E.oblige(st, Not(st.store.get(key, FALSE)), '%s is released' % what, kind='ownership')
    h2 = E.load(lh, st)
    E.oblige(st, E.to_term(h2, h.t) == E.to_term(h, h.t), 'hash unchanged', kind='frame')
    J.cover(E, st, unset, 'unset version')
    J.cover(E, st, And(Not(unset), r == 0), 'encoded')
    J.cover(E, st, And(Not(unset), r == 10), 'out of memory')


def parse(J):
    E = J.eng('qos', 'qos/parse type hash', native_strings=True)
    fid = J.find(E, NS + 'parse_type_hash_from_user_data')
    ps = E.p.funcs[fid]['params']
    st = St()
    bt = E.T(ps[0]['t'])['to']
    n = E.fresh_int('size', 0, 1 << 60)
    data = Seq(bt, n, E.fresh('data', ArraySort(IntSort(), IntSort())))
    l = E.temp(data, st, '$data')
    h0 = E.fresh_val(E.p.deref(ps[2]['t']), 'hash')
    lh = E.temp(h0, st, '$hash')
    null = E.fresh('data_null', BoolSort())
    r = E.inline(fid, None, [
        Ptr([(null, None), (Not(null), ('lv', l.alts[0][1], (('i', IntVal(0)),)))]), n, lh], st)
    h = E.load(lh, st)
    ht = E.p.deref(ps[2]['t'])
    ok, val = roslib.hash_parse(E, ht)
    sort = E.seq_sort(bt)
    term = sort.constructor(0)(n, data.arr)
    mt = [e for e in E.p.rec_t if False]
    dom = Function('kv_dom', sort, ArraySort(StringSort(), BoolSort()))(term)
    kval = Function('kv_val', sort, ArraySort(StringSort(), sort))(term)
    key = StringVal('typehash')
    text = roslib.text_of(E, sort)
    zero = E.to_term(E.zero(ht), ht)
    got = E.to_term(h, ht)
    E.oblige(st, Implies(null, r == 11), 'INVALID_ARGUMENT for null data', kind='post')
    E.oblige(st, Implies(null, got == E.to_term(h0, ht)), 'null data changes nothing', kind='frame')
    E.oblige(st, Implies(And(Not(null), Not(Select(dom, key))), And(r == 0, got == zero)),
             'no typehash key: success with the zero hash', kind='post')
    v = text(Select(kval, key))
    has = And(Not(null), Select(dom, key))
    E.oblige(st, Implies(And(has, Not(ok(v))), r != 0), 'malformed value gives an error',
             kind='post')
    E.oblige(st, Implies(And(has, ok(v)), And(r == 0, got == val(v))),
             'well-formed value gives its hash', kind='post')
    # lemma: parsing the bytes of an encoding gives back the hash
    hh = E.fresh('some_hash', E.sort(ht))
    S = roslib.hash_text(E, ht)(hh)
    enc = And(text(term) == Concat(StringVal('typehash='), S, StringVal(';')), Not(null))
    lemma_kv = Implies(enc, And(Select(dom, key), text(Select(kval, key)) == S))
    lemma_rt = And(ok(S), val(S) == hh)
    E.assumed['rosidl: parsing the string form of a supported hash gives back the hash'] = 1
    E.oblige(st, Implies(And(enc, lemma_kv, lemma_rt), And(r == 0, got == hh)),
             'parsing an encoding gives back the same hash', kind='post')
    l2 = E.load(l, st)
    E.oblige(st, And(l2.ln == n, l2.arr == data.arr), 'data unchanged', kind='frame')
    J.cover(E, st, null, 'null data')
    J.cover(E, st, And(has, ok(v)), 'well-formed')
    J.cover(E, st, And(has, Not(ok(v))), 'malformed')
    J.cover(E, st, And(Not(null), Not(Select(dom, key))), 'no key')
    J.cover(E, st, And(enc, lemma_kv, lemma_rt), 'an encoding')


def c13(J):
    J.case('encode', encode)
    J.case('parse', parse)


SPECS = {'C07': c07, 'C08': c08, 'C09': ba('sub'), 'C10': ba('pub'), 'C11': c11, 'C12': c12,
         'C13': c13}
_DUR = 'durations are in the normalised form of rmw_time_t (nanoseconds below one second)'
ASSUMPTIONS = {
    'C07': [_DUR],
    'C11': ['node->context is not null; the query function is not empty and leaves the array '
            'zero-initialised when it fails'],
    'C13': ['the value of the typehash key holds no NUL byte'],
}
