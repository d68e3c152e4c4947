"""Contracts of the introspection queries of graph_cache.cpp (C18-C24, queries part of C27)."""
from ..job import *  # noqa
from .. import stdlib, graphlib
from ..loops import Fold, Cand
from ..stdlib import want_key, want_rank, enum
from .graph import World, NS, GC, FIELDS, deep

COUNTS = [('get_writer_count', 'data_writers_'), ('get_reader_count', 'data_readers_')]
INFOS = [('get_writers_info_by_topic', 'data_writers_', 'writer_gid_seq'),
         ('get_readers_info_by_topic', 'data_readers_', 'reader_gid_seq')]
BYNODE = [('get_writer_names_and_types_by_node', 'data_writers_', 'writer_gid_seq'),
          ('get_reader_names_and_types_by_node', 'data_readers_', 'reader_gid_seq')]


def pointwise(E, name, prop, stars, extra):
    """invariant `for all q: prop(q, k, st)`: proved at the arbitrary constants `stars` (a tuple of
    terms about which nothing is assumed), used at them, at `extra` and at the loop counters"""
    def use(k, h):
        for q in [stars] + list(extra(k)):
            E.fact(prop(q, k, h), h)
    return Cand(name, lambda k, st: prop(stars, k, st), assume=use)


class Q(World):
    """a query on an arbitrary graph"""

    def __init__(self, J, name, own=False):
        World.__init__(self, J, 'graph/' + name)
        self.name = name
        E = self.E
        E.loop_hooks = []
        E.handlers['!infos_fini'] = graphlib.infos_fini
        self.st.store['$fail'] = FALSE
        self.own = own
        if own:
            graphlib.install_ownership(E)
        else:
            E.drop = {'ownership'}      # C21
        m = self.pre.f['participants_']
        self.pen = self.en('participants_')
        self.pks = m.dom.sort().domain()

    # ---------------------------------------------------------------- views by rank
    def en(self, field):
        m = self.pre.f[field]
        return enum(self.E, m.dom, m.dom.sort().domain())

    def rank_key(self, field, r):
        en = self.en(field)
        ks = self.pre.f[field].dom.sort().domain()
        want_rank(self.E, r, ks)
        return en.at(r)

    def ent(self, field, r):
        """the endpoint at rank r of the iteration order"""
        return self.entity(self.pre, field, self.rank_key(field, r))

    def nodes_at(self, r):
        return self.nodes(self.pre, self.rank_key('participants_', r))

    # ---------------------------------------------------------------- arguments
    def string(self, name):
        E = self.E
        v = E.fresh(name, E.Str)
        return v, E.temp(v, self.st, '$' + name)

    def out(self, t, name, may_null=True, val=None):
        """output argument: (Ptr, is null, root, initial value)"""
        E = self.E
        v = E.fresh_val(t, name) if val is None else val
        l = E.temp(v, self.st, '$' + name)
        root = l.alts[0][1]
        self.st.store['$init:' + root] = self.st.store['$fini:' + root] = FALSE
        if not may_null:
            return lvptr(l), FALSE, root, v
        n = E.fresh(name + '_null', BoolSort())
        return Ptr([(n, None), (Not(n), ('lv', root, ()))]), n, root, v

    def pto(self, fid, i):
        """type parameter i points to"""
        E = self.E
        return E.T(E.p.deref(E.p.funcs[fid]['params'][i]['t']))['to']

    def act(self, fid, i, v):
        """value v as actual for parameter i"""
        E = self.E
        p = E.p.funcs[fid]['params'][i]
        return E.temp(v, self.st, '$' + (p.get('n') or 'arg')) if E.p.is_ref(p['t']) else v

    def alloc(self, fid, i, null_ok=True):
        E = self.E
        p, null, valid = graphlib.allocator(E, self.st, self.pto(fid, i))
        if not null_ok:
            E.fact(Not(null))
        return p, null, valid

    def unchanged(self):
        self.frame(FIELDS)

    def monotone(self, F, name, step_ok):
        """lemma a <= b -> F(a) <= F(b), by induction on b; returns its instances"""
        E = self.E
        b = E.fresh_int('b*', 0)
        a = E.fresh_int('a*', 0)
        F.unfold(b)
        step_ok(b)
        E.oblige(St(), Implies(And(a <= b, F(a) <= F(b)), F(a) <= F(iadd(b, IntVal(1)))),
                 'lemma: %s is monotone' % name, kind='lemma')

        def inst(x, y):
            E.fact(Implies(And(0 <= x, x <= y), F(x) <= F(y)))
        return inst


# ------------------------------------------------------------------ counts
def run_count(J, name, field, own=False):
    w = Q(J, name, own)
    E = w.E
    fid = w.fid(name)
    topic = E.fresh('topic', E.Str)
    p, null, root, c0 = w.out(w.pto(fid, 1), 'count')
    w.count = Fold(E, 'matching', IntSort(), IntVal(0), lambda acc, k: acc + If(
        w.ent(field, k).f['topic_name'] == topic, IntVal(1), IntVal(0)))
    r = w.call(fid, [w.act(fid, 0, topic), p])
    w.null, w.croot, w.c0 = null, root, c0
    return w, r


def c19_one(J, name, field):
    w, r = run_count(J, name, field)
    E = w.E
    n = w.en(field).n
    c = w.st.store[w.croot]
    w.post_(r == If(w.null, IntVal(graphlib.INVALID), IntVal(0)),
            'INVALID_ARGUMENT for a null count, otherwise OK')
    w.post_(Implies(Not(w.null), c == w.count(n)), 'the count is the number of endpoints on the '
            'topic')
    w.post_(Implies(w.null, c == w.c0), 'nothing is written for a null count')
    w.unchanged()
    J.cover(E, w.st, And(Not(w.null), n == 3), 'three endpoints')


def c19(J):
    for n, f in COUNTS:
        J.case(n, lambda J, n=n, f=f: c19_one(J, n, f))


# ------------------------------------------------------------------ node listing
COLS = ('names', 'namespaces', 'enclaves')
LIMIT = 1 << 60


def node_fold(w):
    """S(r): number of nodes of the participants before rank r"""
    E = w.E
    w.S = Fold(E, 'nodes', IntSort(), IntVal(0), lambda acc, k: acc + w.nodes_at(k).ln)
    w.total = w.S(w.pen.n)
    w.mono = w.monotone(w.S, 'the number of nodes before a rank', lambda b: None)
    E.fact(w.total <= LIMIT)

    def bound(E, st, leaves, k):
        w.mono(iadd(k, IntVal(1)), w.pen.n)
        w.mono(k, w.pen.n)
        return []
    E.loop_hooks.append(bound)


def run_number(J, name, own=False):
    w = Q(J, name, own)
    node_fold(w)
    r = w.call(w.fid(name), [])
    return w, r


def c24_number(J):
    w, r = run_number(J, 'get_number_of_nodes')
    w.post_(r == w.total, 'the number of nodes is the sum over the participants')
    w.unchanged()


def run_names(J, name, own=False):
    w = Q(J, name, own)
    E = w.E
    fid = w.fid(name)
    node_fold(w)
    ps, w.nulls, w.roots, w.init = [], {}, {}, {}
    for i, c in enumerate(COLS):
        p, null, root, v = w.out(w.pto(fid, i), c)
        ps.append(p)
        w.nulls[c], w.roots[c], w.init[c] = null, root, v
    a, w.anull, w.avalid = w.alloc(fid, 3)
    # an arbitrary node: index b of the participant at rank a; its position in the columns
    w.a, w.b = E.fresh_int('a*', 0), E.fresh_int('b*', 0)
    w.pos = w.S(w.a) + w.b
    w.q = E.fresh_int('position*', 0)
    w.S.unfold(w.a)
    want_rank(E, w.a, w.pks)
    E.interested(w.ntag, w.b)

    def hook(E, st, leaves, k):
        r = []
        kinds = [E.getpath(st.store[x[0]], x[1]) for x in leaves.values()]
        outer = E.indist[-1] if E.indist else None
        # a loop over the participants, or one over the nodes of the participant at rank `outer`
        inner = not any(isinstance(x, MapIt) for x in kinds)
        if (inner and outer is None) or sum(isinstance(x, VecIt) for x in kinds) > 1:
            return r
        if inner:
            E.interested(w.ntag, k)
        w.mono(iadd(w.a, IntVal(1)), outer if inner else k)
        w.mono(iadd(outer if inner else k, IntVal(1)), w.a)
        w.mono(iadd(outer if inner else k, IntVal(1)), w.pen.n)
        for c in COLS:
            root = w.roots[c]
            if not any(x[0] == root for x in leaves.values()):
                continue

            def done(q, k, st, root=root, c=c):
                a, b = q
                d = st.store[root].f['data']
                here = And(Not(w.nulls[c]), 0 <= b, b < w.nodes_at(a).ln, 0 <= a,
                           a < w.pen.n)
                if inner:
                    here = And(here, Or(a < outer, And(a == outer, b < k)))
                else:
                    here = And(here, a < k)
                return Implies(here, sel(d.arr, w.S(a) + b) == w.text(c, a, b))

            def rest(q, k, st, root=root, c=c):
                d = st.store[root].f['data']
                p = w.S(outer) + k if inner else w.S(k)
                return Implies(And(Not(w.nulls[c]), p <= q[0], q[0] < w.total),
                               E.is_cnull(sel(d.arr, q[0])))
            r.append(pointwise(E, c + ': every earlier node is in its place', done, (w.a, w.b),
                               lambda k: []))
            r.append(pointwise(E, c + ': later slots are empty', rest, (w.q,),
                               lambda k: [(w.S(outer) + k if inner else w.S(k),)]))
        return r
    E.loop_hooks.append(hook)
    if own:
        no_writes(w, list(w.roots.values()), names_bad(w))
    r = w.call(fid, ps + [a])
    return w, r


def text(w, c, a, b):
    """expected content of column c for node b of the participant at rank a"""
    E = w.E
    n = w.node(w.nodes_at(a), b)
    s = n.f['node_name'] if c == 'names' else n.f['node_namespace'] if c == 'namespaces' else \
        w.enclave(w.pre, w.rank_key('participants_', a))
    return E.cstr(s)


Q.text = text


def is_zero_array(v):
    return And(v.f['size'] == 0, v.f['data'].null)


def names_bad(w):
    """the arguments are rejected"""
    return Or(w.nulls['names'], w.nulls['namespaces'], w.anull, Not(w.avalid), *[
        And(Not(w.nulls[c]), Not(is_zero_array(w.init[c]))) for c in COLS])


def c24_names(J):
    w, r = run_names(J, 'get_node_names')
    E = w.E
    bad = names_bad(w)
    ok = And(r == 0)
    w.post_(Implies(And(Not(bad), Not(w.st.store['$fail'])), ok),
            'the listing succeeds when nothing fails')
    for c in COLS:
        v = w.st.store[w.roots[c]]
        d = v.f['data']
        g = And(ok, Not(w.nulls[c]))
        w.post_(Implies(g, And(v.f['size'] == w.total, Or(d.null, d.ln == w.total),
                               Implies(w.total > 0, Not(d.null)))),
                'as many %s as nodes' % c)
        w.post_(Implies(And(g, w.a < w.pen.n, w.b < w.nodes_at(w.a).ln), And(
            w.pos < w.total, sel(d.arr, w.pos) == w.text(c, w.a, w.b))),
            'every node has its %s at its position' % c)
    w.mono(iadd(w.a, IntVal(1)), w.pen.n)
    w.post_(Implies(And(w.a < w.pen.n, w.b < w.nodes_at(w.a).ln), w.pos < w.total),
            'positions are within the columns')
    w.unchanged()
    J.cover(E, w.st, And(ok, w.total == 3, Not(w.nulls['enclaves'])), 'three nodes')
    J.cover(E, w.st, And(ok, w.total == 2, w.nulls['enclaves']), 'without enclaves')


def c24(J):
    J.case('get_number_of_nodes', c24_number)
    J.case('get_node_names', c24_names)


# ------------------------------------------------------------------ endpoint infos
def listed(w, k, key, lst, pk):
    """first node of participant pk that lists key: (index or number of nodes).  Everything is
    for the arbitrary endpoint k: key its GID, lst the list of that kind"""
    E = w.E
    s = w.nodes(w.pre, pk)
    L = Function('lists!%d' % next(E.cnt), IntSort(), BoolSort())
    P = Function('listed_at!%d' % next(E.cnt), IntSort(), IntSort())

    def lst_of(i):
        return E.as_seq(w.node(s, i).f[lst])

    def node(i):
        g = lst_of(i)
        E.interested(w.gtag, P(i))
        E.forall(w.gtag, lambda j: Implies(And(0 <= j, j < g.ln, w.gid(g, j) == key), L(i)))
        return Implies(L(i), And(0 <= P(i), P(i) < g.ln, w.gid(g, P(i)) == key))
    E.forall(w.ntag, node)
    f = E.fresh_int('firstnode*', 0)
    E.fact(f <= s.ln)
    E.fact(Implies(f < s.ln, L(f)))
    E.forall(w.ntag, lambda i: Implies(And(0 <= i, i < f), Not(L(i))))
    E.interested(w.ntag, f)
    return f, s


def run_infos(J, name, field, lst, own=False):
    w = Q(J, name, own)
    E = w.E
    fid = w.fid(name)
    topic = w.topic = E.fresh('topic', E.Str)
    dem, w.dem = graphlib.pure_fn(E, 'demangle_type')
    a, _, valid = w.alloc(fid, 2, null_ok=False)
    E.fact(valid)
    t = w.pto(fid, 3)
    z = E.zero(t)
    p, _, w.oroot, w.o0 = w.out(t, 'infos', may_null=False, val=z if own else None)

    def match(k):
        return w.ent(field, k).f['topic_name'] == topic
    w.match = match
    w.cnt = Fold(E, 'matching', IntSort(), IntVal(0), lambda acc, k: acc + If(
        match(k), IntVal(1), IntVal(0)))
    w.n = w.en(field).n
    w.size = w.cnt(w.n)
    w.mono = w.monotone(w.cnt, 'the number of endpoints on the topic before a rank',
                        lambda b: None)
    # an arbitrary endpoint
    w.r = E.fresh_int('endpoint*', 0)
    ks = w.pre.f[field].dom.sort().domain()
    w.rkey = w.rank_key(field, w.r)
    w.cnt.unfold(w.r)
    x = w.x = w.ent(field, w.r)
    w.pk = w.key(x.f['participant_gid'])
    want_key(E, w.pk)
    w.first, w.owner = listed(w, w.r, w.rkey, lst, w.pk)
    w.elem_q = E.fresh_int('position*', 0)

    def hook(E, st, leaves, k):
        w.mono(iadd(k, IntVal(1)), w.n)
        w.mono(k, w.n)
        w.mono(iadd(w.r, IntVal(1)), k)
        if not any(x[0] == w.oroot for x in leaves.values()):
            return []

        def done(q, k, st):
            o = st.store[w.oroot].f['info_array']
            y = E.from_term(sel(o.arr, w.cnt(w.r)), o.ety)
            return Implies(And(w.r < k, w.r < w.n, match(w.r)), w.described(y, field))

        def rest(q, k, st):
            o = st.store[w.oroot].f['info_array']
            y = E.from_term(sel(o.arr, q[0]), o.ety)
            return Implies(And(w.cnt(k) <= q[0], q[0] < w.size), deep(E, y, E.zero(o.ety)))
        r = [Cand('every earlier endpoint has its element', lambda k, st: done(None, k, st))]
        r.append(pointwise(E, 'later elements are zero', rest, (w.elem_q,),
                           lambda k: [(w.cnt(k),)]))
        return r
    E.loop_hooks.append(hook)
    b = E.fresh_int('b*', 0)
    w.cnt.unfold(b)
    E.oblige(St(), And(w.cnt(IntVal(0)) <= 0, Implies(w.cnt(b) <= b, w.cnt(b + 1) <= b + 1)),
             'lemma: no more matches than endpoints', kind='lemma')
    E.fact(w.size <= w.n)
    r = w.call(fid, [w.act(fid, 0, topic), w.act(fid, 1, dem), a, p])
    return w, r


def described(w, y, field):
    """y describes the arbitrary endpoint w.r"""
    E = w.E
    lit = lambda s: E.cstr(E.strlit(s))  # noqa
    x = w.x
    known = w.has(w.pre, 'participants_', w.pk)
    ros = And(known, w.first < w.owner.ln)
    n = w.node(w.owner, w.first)
    bare = lit('_CREATED_BY_BARE_DDS_APP_')
    kind = 2 if field == 'data_readers_' else 1
    return Described(
        E.as_cstr(y.f['node_name']) == If(ros, E.cstr(n.f['node_name']),
                                          If(known, lit('_NODE_NAME_UNKNOWN_'), bare)),
        E.as_cstr(y.f['node_namespace']) == If(ros, E.cstr(n.f['node_namespace']),
                                               If(known, lit('_NODE_NAMESPACE_UNKNOWN_'), bare)),
        E.as_cstr(y.f['topic_type']) == E.cstr(w.dem(x.f['topic_type'])),
        deep(E, y.f['topic_type_hash'], x.f['topic_type_hash']),
        y.f['endpoint_type'] == kind,
        E.arr_term(y.f['endpoint_gid']) == w.rkey,
        deep(E, y.f['qos_profile'], x.f['qos']))


def Described(*cs):
    return And(*cs)


PARTS = ('node name', 'node namespace', 'type', 'type hash', 'kind', 'GID', 'QoS')
Q.described = described


def c20_one(J, name, field, lst):
    w, r = run_infos(J, name, field, lst)
    E = w.E
    ok = r == 0
    v = w.st.store[w.oroot]
    o = v.f['info_array']
    w.post_(Implies(Not(w.st.store['$fail']), ok), 'the query succeeds when nothing fails')
    some = w.size > 0
    w.post_(Implies(And(ok, some), And(v.f['size'] == w.size, Not(o.null), o.ln == w.size)),
            'one element per endpoint on the topic')
    w.mono(iadd(w.r, IntVal(1)), w.n)
    w.mono(IntVal(0), w.r)
    on = And(w.r < w.n, w.match(w.r))
    w.post_(Implies(And(ok, on), And(some, w.cnt(w.r) < w.size)),
            'every endpoint on the topic has its element')
    d = w.described(E.from_term(sel(o.arr, w.cnt(w.r)), o.ety), field)
    for nm, c in zip(PARTS, d.children()):
        w.post_(Implies(And(ok, on), c), 'every endpoint on the topic has its %s' % nm)
    w.post_(Implies(Not(some), And(ok, w.same_out(v))), 'no match: success, output untouched')
    w.unchanged()
    J.cover(E, w.st, And(ok, w.size == 2, w.n == 3), 'two of three endpoints match')
    for nm, c in (('node known', w.first < w.owner.ln), ('node unknown', w.first == w.owner.ln)):
        J.cover(E, w.st, And(ok, on, w.has(w.pre, 'participants_', w.pk), c), nm)
    J.cover(E, w.st, And(ok, on, Not(w.has(w.pre, 'participants_', w.pk))),
            'participant unknown')


def same_out(w, v):
    a, b = v.f['info_array'], w.o0.f['info_array']
    return And(v.f['size'] == w.o0.f['size'], a.null == b.null, a.ln == b.ln, a.arr == b.arr)


Q.same_out = same_out


def c20(J):
    for n, f, l in INFOS:
        J.case(n, lambda J, n=n, f=f, l=l: c20_one(J, n, f, l))


# ------------------------------------------------------------------ names and types
def nt_setup(w, fid, i0):
    """demangle functions, allocator and output, and the arbitrary points of the contracts"""
    E = w.E
    dt, w.demt = graphlib.pure_fn(E, 'demangle_topic')
    dy, w.demy = graphlib.pure_fn(E, 'demangle_type')
    a, w.anull, w.avalid = w.alloc(fid, i0 + 2)
    p, w.onull, w.oroot, w.o0 = w.out(w.pto(fid, i0 + 3), 'nt')
    w.t, w.y = E.fresh('topic*', E.Str), E.fresh('type*', E.Str)
    want_key(E, w.t)
    want_key(E, w.y)
    w.i1, w.i2 = E.fresh_int('i1*', 0), E.fresh_int('i2*', 0)
    w.j1, w.j2 = E.fresh_int('j1*', 0), E.fresh_int('j2*', 0)
    for x in (w.i1, w.i2, w.j1, w.j2):
        want_rank(E, x, E.Str)
    w.topics = None
    w.folds = []
    E.points = [w.i1]
    if w.own:
        no_writes(w, [w.oroot], nt_bad(w))
    E.loop_hooks += [lambda E, st, leaves, k: collect_hook(w, st, leaves, k),
                     lambda E, st, leaves, k: populate_hook(w, st, leaves, k)]
    return [w.act(fid, i0, dt), w.act(fid, i0 + 1, dy), a, p]


def contributes(w, x):
    """endpoint info x contributes to the arbitrary topic / (topic, type)"""
    t = w.demt(x.f['topic_name'])
    c = And(t == w.t, t != w.E.strlit(''))
    return c, And(c, w.demy(x.f['topic_type']) == w.y)


def nt_fold(w, name, hit, view):
    """does an element before position k contribute to the topic (F) / to the topic and type (G)"""
    E = w.E

    def part(n):
        def step(acc, k):
            c = hit(k)
            return Or(acc, And(c, contributes(w, view(k))[n]))
        return Fold(E, '%s %s' % (name, ('topic', 'topic and type')[n]), BoolSort(), FALSE, step)
    F, G = part(0), part(1)
    E.folds.remove(F)
    E.folds.remove(G)
    w.folds.append((F, G))
    return F, G


def collect_hook(w, st, leaves, k):
    """loops that fill a map from topics to sets of types"""
    E = w.E
    r = []
    for F, G in w.folds:
        F.unfold(k)
        G.unfold(k)
    for key, (root, path) in leaves.items():
        v0 = E.getpath(st.store[root], path)
        if not isinstance(v0, (Map, CMap)):
            continue
        m0 = E.as_map(v0)
        if not m0.dom.sort().domain().eq(E.Str) or not m0.val.sort().range().eq(
                ArraySort(E.Str, BoolSort())):
            continue
        at = lambda st, root=root, path=path: E.as_map(E.getpath(st.store[root], path))  # noqa

        def hasty(m):
            return And(sel(m.dom, w.t), sel(sel(m.val, w.t), w.y))
        for i, (F, G) in enumerate(w.folds):
            r.append(Cand('topics (%d)' % i, lambda k, st, F=F, at=at, m0=m0: sel(
                at(st).dom, w.t) == Or(sel(m0.dom, w.t), F(k))))
            r.append(Cand('types (%d)' % i, lambda k, st, G=G, at=at, m0=m0: hasty(at(st)) == Or(
                hasty(m0), G(k))))
        r.append(Cand('no empty topic', lambda k, st, at=at: Not(sel(at(st).dom, E.strlit('')))))
    return r


def populate_hook(w, st, leaves, k):
    """loops that copy the map to the output"""
    E = w.E
    out = [x for x in leaves.values() if x[0] == w.oroot]
    its = [E.getpath(st.store[r], p) for r, p in leaves.values()]
    its = [v for v in its if isinstance(v, MapIt) and v.key.sort().eq(E.Str)]
    if not out or len(its) != 1:
        return []
    v = E.peek(its[0].lv, st)
    ks = list(E.indist) + [k]
    own = lambda st: st.store[w.oroot]  # noqa
    ety = own(st).f['types'].ety

    def types(st, q):
        return E.from_term(sel(own(st).f['types'].arr, q), ety)

    def elem(x, p):
        return sel(x.f['data'].arr, p)
    if isinstance(v, (Map, CMap)):
        m = w.topics = E.as_map(v)
        en = w.ten = enum(E, m.dom, E.Str)
        for q in (w.i1, w.i2):
            enum(E, sel(m.val, en.at(q)), E.Str)

        def card(q):
            return enum(E, sel(m.val, en.at(q)), E.Str)

        def names(q, k, st):
            q = q[0]
            x = sel(own(st).f['names'].f['data'].arr, q)
            return Implies(And(0 <= q, q < en.n), x == If(q < k, E.cstr(en.at(q)),
                                                          E.CStr.cnull))

        def done(q, k, st):
            q, p = q
            x = types(st, q)
            d = card(q)
            g = And(0 <= q, q < k, q < en.n)
            return Implies(g, And(
                x.f['size'] == d.n, x.f['data'].ln == d.n,
                Implies(x.f['data'].null, d.n == 0),
                Implies(And(0 <= p, p < d.n), elem(x, p) == E.cstr(d.at(p)))))

        def rest(q, k, st):
            q = q[0]
            x = types(st, q)
            return Implies(And(k <= q, q < en.n), And(x.f['size'] == 0, x.f['data'].null))

        def more(k):
            return [(w.i2,), (en.idx(w.t),)] + [(x,) for x in ks if not x.eq(k)] + [(k,)]

        def more2(k):
            return [(a, b) for a in (w.i1, w.i2, en.idx(w.t)) for b in (
                w.j1, w.j2, card(a).idx(w.y))]
        return [pointwise(E, 'names', names, (w.i1,), more),
                pointwise(E, 'types of earlier topics', done, (w.i1, w.j1), more2),
                pointwise(E, 'no types for later topics', rest, (w.i1,), more)]
    if isinstance(v, SetV) and E.indist:
        q0 = E.indist[-1]
        d = enum(E, v.dom, E.Str)
        t0 = own(st).f['types']

        def mine(q, k, st):
            p = q[0]
            x = types(st, q0)
            return And(x.f['size'] == d.n, x.f['data'].ln == d.n,
                       Implies(x.f['data'].null, d.n == 0),
                       Implies(And(0 <= p, p < d.n), elem(x, p) == If(
                           p < k, E.cstr(d.at(p)), E.CStr.cnull)))

        def others(q, k, st):
            return Implies(q[0] != q0, sel(own(st).f['types'].arr, q[0]) == sel(t0.arr, q[0]))
        return [pointwise(E, 'types of this topic', mine, (w.j1,), lambda k: [
                    (w.j2,), (d.idx(w.y),), (k,)]),
                pointwise(E, 'types of other topics', others, (w.i1,), lambda k: [(w.i2,)] + (
                    [(w.ten.idx(w.t),)] if w.topics is not None else []))]
    return []


def nt_zero(v):
    return And(is_zero_array(v.f['names']), v.f['types'].null)


def nt_bad(w):
    """the arguments are rejected"""
    return Or(w.anull, Not(w.avalid), w.onull, Not(nt_zero(w.o0)))


def nt_post(w, ok, inT, inTY):
    """on success the output holds exactly the topics of inT with exactly the types of inTY"""
    E = w.E
    v = w.st.store[w.oroot]
    nm, ty = v.f['names'], v.f['types']
    n = nm.f['size']
    name = lambda q: sel(nm.f['data'].arr, q)  # noqa

    def types(q):
        return E.from_term(sel(ty.arr, q), ty.ety)
    if w.topics is None:
        raise Unsupported('the output is not filled from an ordered map of topics')
    tt = E.cstr(w.t)
    wt = w.ten.idx(w.t)
    w.post_(Implies(ok, And(Implies(n > 0, And(Not(nm.f['data'].null), Not(ty.null),
                                               nm.f['data'].ln == n, ty.ln == n)))),
            'as many arrays of types as names')
    w.post_(Implies(And(ok, inT), And(0 <= wt, wt < n, name(wt) == tt)),
            'every topic is reported')
    g = And(ok, w.i1 < n)
    w.post_(Implies(g, And(Not(E.is_cnull(name(w.i1))), Implies(name(w.i1) == tt, inT))),
            'only topics are reported')
    w.post_(Implies(And(g, w.i2 < n, w.i1 != w.i2), name(w.i1) != name(w.i2)),
            'no topic is reported twice')
    x = types(w.i1)
    d = x.f['data']
    g = And(g, name(w.i1) == tt)
    el = lambda p: sel(d.arr, p)  # noqa
    yy = E.cstr(w.y)
    wy = enum(E, sel(w.topics.val, w.ten.at(w.i1)), E.Str).idx(w.y)
    w.post_(Implies(g, And(x.f['size'] == d.ln, Implies(d.ln > 0, Not(d.null)))),
            'the number of types matches')
    w.post_(Implies(And(g, inTY), And(0 <= wy, wy < d.ln, el(wy) == yy)),
            'every type of the topic is reported')
    gg = And(g, w.j1 < d.ln)
    w.post_(Implies(gg, And(Not(E.is_cnull(el(w.j1))), Implies(el(w.j1) == yy, inTY))),
            'only types of the topic are reported')
    w.post_(Implies(And(gg, w.j2 < d.ln, w.j1 != w.j2), el(w.j1) != el(w.j2)),
            'no type is reported twice')
    w.post_(Implies(And(ok, n == 0), nt_zero(v)), 'nothing to report: zero-initialised output')


def run_all(J, name, own=False):
    w = Q(J, name, own)
    E = w.E
    fid = w.fid(name)
    acts = nt_setup(w, fid, 0)
    w.parts = []
    for f in FIELDS[:2]:
        w.parts.append((nt_fold(w, f, lambda k: TRUE, lambda k, f=f: w.ent(f, k)), w.en(f).n))
    return w, w.call(fid, acts)


def c22(J):
    def one(J):
        w, r = run_all(J, 'get_names_and_types')
        E = w.E
        ok = r == 0
        w.post_(Implies(And(Not(nt_bad(w)), Not(w.st.store['$fail'])), ok),
                'the query succeeds when nothing fails')
        w.post_(Implies(ok, Not(nt_bad(w))), 'invalid arguments are rejected')
        inT = Or(*[p[0](n) for p, n in w.parts])
        inTY = Or(*[p[1](n) for p, n in w.parts])
        nt_post(w, ok, inT, inTY)
        w.unchanged()
        J.cover(E, w.st, And(ok, inTY), 'a topic with a type')
        J.cover(E, w.st, And(ok, Not(inT)), 'topic absent')
    J.case('get_names_and_types', one)


def first_node(w, name, ns):
    """(exists, rank, index) of the first node with that name and namespace in participant order"""
    E = w.E

    def match(p, i):
        n = w.node(w.nodes_at(p), i)
        return And(n.f['node_name'] == name, n.f['node_namespace'] == ns)
    ex = E.fresh('node_exists', BoolSort())
    p0, i0 = E.fresh_int('participant*', 0), E.fresh_int('node*', 0)
    want_rank(E, p0, w.pks)
    E.interested(w.ntag, i0)
    E.fact(Implies(ex, And(p0 < w.pen.n, i0 < w.nodes_at(p0).ln, match(p0, i0))))

    def outer(p):
        s = w.nodes_at(p)
        E.forall(w.ntag, lambda i: Implies(And(0 <= p, p < w.pen.n, 0 <= i, i < s.ln, match(p, i)),
                                           And(ex, Or(p0 < p, And(p0 == p, i0 <= i)))))
        return TRUE
    E.forall('rank:' + w.pks.name(), outer)
    return ex, p0, i0


def run_bynode(J, name, field, lst, own=False):
    w = Q(J, name, own)
    E = w.E
    fid = w.fid(name)
    nm, ns = E.fresh('name', E.Str), E.fresh('namespace', E.Str)
    acts = nt_setup(w, fid, 2)
    w.ex, w.p0, w.i0 = first_node(w, nm, ns)
    g = E.as_seq(w.node(w.nodes_at(w.p0), w.i0).f[lst])

    def known(j):
        E.interested(w.gtag, j)
        k = w.gid(g, j)
        want_key(E, k)
        return w.has(w.pre, field, k)
    w.fold = nt_fold(w, lst, known, lambda j: w.entity(w.pre, field, w.gid(g, j)))
    w.len = g.ln
    return w, w.call(fid, [w.act(fid, 0, nm), w.act(fid, 1, ns)] + acts)


def c23_one(J, name, field, lst):
    w, r = run_bynode(J, name, field, lst)
    E = w.E
    ok = r == 0
    bad = nt_bad(w)
    w.post_(Implies(And(Not(bad), Not(w.ex)), r == 203),
            'NODE_NAME_NON_EXISTENT when there is no such node')
    w.post_(Implies(r == 203, Not(w.ex)), 'NODE_NAME_NON_EXISTENT only when there is no such node')
    v = w.st.store[w.oroot]
    w.post_(Implies(Not(w.ex), nt_same(w, v)), 'without such a node the output is untouched')
    w.post_(Implies(And(Not(bad), w.ex, Not(w.st.store['$fail'])), ok),
            'the query succeeds when the node exists and nothing fails')
    w.post_(Implies(ok, And(Not(bad), w.ex)), 'success only for an existing node')
    F, G = w.fold
    nt_post(w, ok, F(w.len), G(w.len))
    w.unchanged()
    J.cover(E, w.st, And(ok, G(w.len)), 'a topic with a type')
    J.cover(E, w.st, And(Not(bad), Not(w.ex)), 'no node')


def nt_same(w, v):
    """the output is as before"""
    a, b = v.f['names'], w.o0.f['names']
    c, d = a.f['data'], b.f['data']
    e, f = v.f['types'], w.o0.f['types']
    return And(a.f['size'] == b.f['size'], c.null == d.null, c.ln == d.ln, c.arr == d.arr,
               e.null == f.null, e.ln == f.ln, e.arr == f.arr)


def c23(J):
    for n, f, l in BYNODE:
        J.case(n, lambda J, n=n, f=f, l=l: c23_one(J, n, f, l))


# ------------------------------------------------------------------ failures
def no_writes(w, roots, bad):
    def hook(E, st, g, root, path, how, line):
        if how == 'write' and root in roots:
            E.oblige(st, bimp(g, Not(bad)), 'nothing is written when an argument is invalid', line,
                     'frame')
    w.E.access_hook = hook


def failed_post(w, r, bad, outs):
    """outs: [(root, null, is zero, what)]"""
    E = w.E
    E.access_hook = None
    st = w.st
    w.post_(Implies(bad, r == graphlib.INVALID), 'INVALID_ARGUMENT for invalid arguments')
    w.post_(Implies(And(Not(bad), st.store['$fail']), r != 0), 'a failed step fails the query')
    for root, null, zero, empty, what in outs:
        v = st.store[root]
        init = st.store.get('$init:' + root, FALSE)
        g = And(Not(bad), r != 0, Not(null))
        w.post_(Implies(And(g, init), zero(v)), 'failure: %s zero-initialised again' % what)
        w.post_(Implies(And(g, Not(init)), empty(v)), 'failure: %s hold no memory' % what)
        w.post_(Implies(And(r == 0, Not(null)), Not(st.store.get('$fini:' + root, FALSE))),
                'success: %s keep what was stored in them' % what)
    graphlib.no_tokens(E, st)
    J = w.J
    J.cover(E, st, And(Not(bad), r != 0, *[st.store.get('$init:' + o[0], FALSE) for o in outs]),
            'failure after the outputs were initialised')


def c21_infos(J, name, field, lst):
    w, r = run_infos(J, name, field, lst, own=True)
    z = lambda v: And(v.f['size'] == 0, v.f['info_array'].null)  # noqa
    failed_post(w, r, FALSE, [(w.oroot, FALSE, z, lambda v: v.f['info_array'].null,
                               'the endpoint infos')])


def nt_c21(w, r):
    empty = lambda v: And(v.f['names'].f['data'].null, v.f['types'].null)  # noqa
    failed_post(w, r, nt_bad(w), [(w.oroot, w.onull, nt_zero, empty, 'names and types')])


def c21_all(J):
    w, r = run_all(J, 'get_names_and_types', own=True)
    nt_c21(w, r)


def c21_names(J):
    w, r = run_names(J, 'get_node_names', own=True)
    failed_post(w, r, names_bad(w), [
        (w.roots[c], w.nulls[c], is_zero_array, lambda v: v.f['data'].null, c) for c in COLS])


def c21_bynode(J, name, field, lst):
    w, r = run_bynode(J, name, field, lst, own=True)
    nt_c21(w, r)


def c21(J):
    for n, f, l in INFOS:
        J.case(n, lambda J, n=n, f=f, l=l: c21_infos(J, n, f, l))
    J.case('get_names_and_types', c21_all)
    for n, f, l in BYNODE:
        J.case(n, lambda J, n=n, f=f, l=l: c21_bynode(J, n, f, l))
    J.case('get_node_names', c21_names)


SPECS = {'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24}
