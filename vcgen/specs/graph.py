"""Contracts of graph_cache.cpp (C14-C24, and the graph part of C27)."""
from ..job import *  # noqa
from .. import stdlib, roslib
from ..loops import Fold, Cand
from ..stdlib import str_len, concat, want_key, enum, dom_of

NS = 'rmw_dds_common::'
GC = NS + 'GraphCache::'
N = dict(gid='rmw_gid_s', qos='rmw_qos_profile_s', hash='rosidl_type_hash_s',
         str='std::basic_string', msg=NS + 'msg::ParticipantEntitiesInfo_')
FIELDS = ('data_writers_', 'data_readers_', 'participants_')


class World:
    """an arbitrary graph cache, the functions run on it, and the arbitrary points at which the
    pointwise parts of the contracts are checked"""

    def __init__(self, J, name, callback=True):
        self.J = J
        E = self.E = J.eng('graph_cache', name)
        self.st = St()
        t = E.p.rec_t[NS + 'GraphCache']
        f = {}
        for fd in E.rec_fields(t):
            if fd['n'] == 'on_change_callback_':
                f[fd['n']] = self.callback()
            else:
                f[fd['n']] = E.fresh_val(fd['t'], fd['n'])
        self.root = '$cache'
        self.st.store[self.root] = SV(NS + 'GraphCache', t, f)
        self.st.store['$calls'] = IntVal(0)
        self.pre = self.st.store[self.root]
        self.lv = LV([(TRUE, self.root, ())])
        self.points()

    def callback(self):
        E = self.E
        self.has_cb = E.fresh('callback_set', BoolSort())

        def on_change(E, st, args):
            E.assumed['the on-change callback: any function that does not touch the graph'] = 1
            st.store['$calls'] = iadd(st.store['$calls'], IntVal(1))
            return None
        return Fn([(self.has_cb, Handler('on_change', on_change)), (Not(self.has_cb), None)])

    def points(self):
        """arbitrary key, node index and gid index"""
        E = self.E
        m = self.pre.f['participants_']
        self.k = E.fresh('k*', m.dom.sort().domain())
        want_key(E, self.k)
        self.i = E.fresh_int('i*', 0)
        self.j = E.fresh_int('j*', 0)
        nseq = E.from_term(sel(m.val, self.k), m.vty).f['node_entities_info_seq']
        self.ntag = stdlib.seqtag(E, nseq)
        E.interested(self.ntag, self.i)
        node = E.from_term(sel(nseq.arr, self.i), nseq.ety)
        self.gtag = stdlib.seqtag(E, node.f['reader_gid_seq'])
        self.node_t, self.gid_t = nseq.ety, node.f['reader_gid_seq'].ety
        E.interested(self.gtag, self.j)

    def val(self, kind, name):
        E = self.E
        t = E.p.rec_t.get(N[kind], None)
        if t is None:
            raise Unsupported('type %s' % N[kind])
        return E.fresh_val(t, name)

    def args(self, fid, names):
        """arbitrary arguments of a function; returns (actuals, {name: value})"""
        E = self.E
        acts, vals = [], {}
        for p, n in zip(E.p.funcs[fid]['params'], names):
            v = E.fresh_val(E.p.deref(p['t']), n)
            vals[n] = v
            acts.append(E.temp(v, self.st, '$' + n) if E.p.is_ref(p['t']) else v)
        return acts, vals

    def fid(self, name, n=None, pred=None):
        E = self.E
        q = GC + name if not name.startswith(NS) else name
        return self.J.find(E, q, lambda ps: (n is None or len(ps) == n) and
                           (pred is None or pred(ps)))

    def call(self, fid, acts):
        return self.E.inline(fid, self.lv, acts, self.st)

    @property
    def post(self):
        return self.st.store[self.root]

    # ---------------------------------------------------------------- views
    def key(self, gid):
        return self.E.kproj(gid, None) if False else self.E.arr_term(gid.f['data'])

    def has(self, v, field, k):
        return stdlib.has(self.E, v.f[field], k)

    def entity(self, v, field, k):
        m = self.E.as_map(v.f[field])
        return self.E.from_term(sel(m.val, k), m.vty)

    def part(self, v, k):
        return self.entity(v, 'participants_', k)

    def nodes(self, v, k):
        return self.E.as_seq(self.part(v, k).f['node_entities_info_seq'])

    def enclave(self, v, k):
        return self.part(v, k).f['enclave']

    def node(self, s, i):
        return self.E.from_term(sel(s.arr, i), s.ety)

    def gid(self, s, j):
        return self.E.arr_term(self.E.from_term(sel(s.arr, j), s.ety).f['data'])

    # ---------------------------------------------------------------- pointwise equalities
    def gids_same(self, a, b):
        a, b = self.E.as_seq(a), self.E.as_seq(b)
        j = self.j
        return And(a.ln == b.ln, Implies(And(0 <= j, j < a.ln), self.gid(a, j) == self.gid(b, j)))

    def node_same(self, a, b):
        return And(a.f['node_name'] == b.f['node_name'],
                   a.f['node_namespace'] == b.f['node_namespace'],
                   self.gids_same(a.f['reader_gid_seq'], b.f['reader_gid_seq']),
                   self.gids_same(a.f['writer_gid_seq'], b.f['writer_gid_seq']))

    def nodes_same(self, a, b):
        a, b = self.E.as_seq(a), self.E.as_seq(b)
        i = self.i
        return And(a.ln == b.ln, Implies(And(0 <= i, i < a.ln),
                                         self.node_same(self.node(a, i), self.node(b, i))))

    def part_same(self, a, b, k):
        """participant k unchanged"""
        return And(self.has(a, 'participants_', k) == self.has(b, 'participants_', k),
                   Implies(self.has(a, 'participants_', k), And(
                       self.enclave(a, k) == self.enclave(b, k),
                       self.nodes_same(self.nodes(a, k), self.nodes(b, k)))))

    def info_same(self, x, y):
        E = self.E
        cs = []
        for f in ('topic_name', 'topic_type'):
            cs.append(x.f[f] == y.f[f])
        for f in ('topic_type_hash', 'participant_gid', 'qos'):
            cs.append(deep(E, x.f[f], y.f[f]))
        return band(*cs)

    def ent_same(self, a, b, field, k):
        """endpoint k of that collection unchanged"""
        return And(self.has(a, field, k) == self.has(b, field, k),
                   Implies(self.has(a, field, k),
                           self.info_same(self.entity(a, field, k), self.entity(b, field, k))))

    # ---------------------------------------------------------------- obligations
    def post_(self, goal, name):
        self.E.oblige(self.st, goal, name, kind='post')

    def frame(self, fields, but=None):
        """the given collections are unchanged (except at key `but`)"""
        for f in fields:
            same = self.part_same if f == 'participants_' else \
                (lambda a, b, k, f=f: self.ent_same(a, b, f, k))
            g = same(self.pre, self.post, self.k)
            if but is not None:
                g = Implies(self.k != but, g)
            self.E.oblige(self.st, g, '%s unchanged%s' % (
                f.rstrip('_'), '' if but is None else ' elsewhere'), kind='frame')

    def message(self, msg, k, what='the message'):
        E = self.E
        self.post_(E.arr_term(msg.f['gid'].f['data']) == k, what + ' carries the participant GID')
        self.post_(self.nodes_same(msg.f['node_entities_info_seq'], self.nodes(self.post, k)),
                   what + ' holds the complete node list after the change')


def deep(E, x, y):
    """value equality (GIDs: the bytes)"""
    if isinstance(x, SV):
        return band(*[deep(E, x.f[k], y.f[k]) for k in x.f if k != 'implementation_identifier'])
    if isinstance(x, Arr):
        if E.opaque_bytes:
            return E.arr_term(x) == E.arr_term(y)
        return band(*[a == b for a, b in zip(E.arr_items(x), E.arr_items(y))])
    return x == y


def zero_hash(E, v):
    return deep(E, v, E.zero(v.t))


# ------------------------------------------------------------------ C14 endpoints
def adders():
    """(function, number of parameters, collection or None when selected by is_reader)"""
    r = []
    for n, f in (('add_writer', 'data_writers_'), ('add_reader', 'data_readers_')):
        r += [(n, 6, f), (n, 5, f)]
    return r + [('add_entity', 7, None), ('add_entity', 6, None)]


def run_adder(J, name, n, field):
    w = World(J, 'graph/%s/%d' % (name, n))
    E = w.E
    fid = w.fid(name, n)
    hashed = n == (7 if field is None else 6)
    names = ['gid', 'topic', 'type'] + (['hash'] if hashed else []) + ['pgid', 'qos'] + \
        (['is_reader'] if field is None else [])
    acts, v = w.args(fid, names)
    r = w.call(fid, acts)
    return w, v, r


def new_info(w, v, field, k):
    """the stored entry is exactly the given data"""
    E = w.E
    x = w.entity(w.post, field, k)
    return And(x.f['topic_name'] == v['topic'], x.f['topic_type'] == v['type'],
               deep(E, x.f['topic_type_hash'], v['hash']) if 'hash' in v else
               zero_hash(E, x.f['topic_type_hash']),
               deep(E, x.f['participant_gid'], v['pgid']), deep(E, x.f['qos'], v['qos']))


def c14_add(J, name, n, field):
    w, v, r = run_adder(J, name, n, field)
    E = w.E
    k = w.key(v['gid'])
    want_key(E, k)
    for f in FIELDS[:2]:
        mine = TRUE if f == field else FALSE if field else \
            (v['is_reader'] if f == 'data_readers_' else Not(v['is_reader']))
        if not is_false(mine):
            c = f.rstrip('_')
            known = w.has(w.pre, f, k)
            w.post_(Implies(mine, r == Not(known)), 'returns whether the GID was new (%s)' % c)
            w.post_(Implies(mine, w.has(w.post, f, k)), 'the GID is present afterwards (%s)' % c)
            w.post_(Implies(And(mine, Not(known)), new_info(w, v, f, k)),
                    'a new entry holds exactly the given data (%s)' % c)
            w.post_(Implies(And(mine, Or(known, w.k != k)), w.ent_same(w.pre, w.post, f, w.k)),
                    'a known entry and every other entry keep their data (%s)' % c)
            J.cover(E, w.st, And(mine, known), 'known GID')
            J.cover(E, w.st, And(mine, Not(known)), 'new GID')
        if not is_true(mine):
            w.post_(Implies(Not(mine), w.ent_same(w.pre, w.post, f, w.k)),
                    'the other collection is untouched (%s)' % f.rstrip('_'))
    w.frame(['participants_'])


REMOVERS = [('remove_writer', 'data_writers_'), ('remove_reader', 'data_readers_'),
            ('remove_entity', None)]


def run_remover(J, name, field):
    w = World(J, 'graph/' + name)
    fid = w.fid(name)
    acts, v = w.args(fid, ['gid'] + (['is_reader'] if field is None else []))
    return w, v, w.call(fid, acts)


def c14_remove(J, name, field):
    w, v, r = run_remover(J, name, field)
    E = w.E
    k = w.key(v['gid'])
    want_key(E, k)
    for f in FIELDS[:2]:
        mine = TRUE if f == field else FALSE if field else \
            (v['is_reader'] if f == 'data_readers_' else Not(v['is_reader']))
        if not is_false(mine):
            c = f.rstrip('_')
            known = w.has(w.pre, f, k)
            w.post_(Implies(mine, r == known), 'returns whether the GID was present (%s)' % c)
            w.post_(Implies(mine, Not(w.has(w.post, f, k))), 'the GID is gone (%s)' % c)
            w.post_(Implies(And(mine, w.k != k), w.ent_same(w.pre, w.post, f, w.k)),
                    'every other entry keeps its data (%s)' % c)
            J.cover(E, w.st, And(mine, known), 'present')
        if not is_true(mine):
            w.post_(Implies(Not(mine), w.ent_same(w.pre, w.post, f, w.k)),
                    'the other collection is untouched (%s)' % f.rstrip('_'))
    w.frame(['participants_'])


def c14(J):
    for n, k, f in adders():
        J.case('%s/%d' % (n, k), lambda J, n=n, k=k, f=f: c14_add(J, n, k, f))
    for n, f in REMOVERS:
        J.case(n, lambda J, n=n, f=f: c14_remove(J, n, f))


# ------------------------------------------------------------------ C15 participants
def c15_add(J):
    w = World(J, 'graph/add_participant')
    E = w.E
    fid = w.fid('add_participant')
    acts, v = w.args(fid, ['gid', 'enclave'])
    w.call(fid, acts)
    k = w.key(v['gid'])
    known = w.has(w.pre, 'participants_', k)
    w.post_(w.has(w.post, 'participants_', k), 'the participant is present')
    w.post_(w.enclave(w.post, k) == v['enclave'], 'its enclave is the given one')
    w.post_(Implies(known, w.nodes_same(w.nodes(w.pre, k), w.nodes(w.post, k))),
            'a known participant keeps its nodes')
    w.post_(Implies(Not(known), w.nodes(w.post, k).ln == 0), 'a new participant has no nodes')
    w.frame(['participants_'], but=k)
    w.frame(FIELDS[:2])
    J.cover(E, w.st, known, 'known participant')
    J.cover(E, w.st, Not(known), 'new participant')


def c15_update(J):
    w = World(J, 'graph/update_participant_entities')
    E = w.E
    fid = w.fid('update_participant_entities')
    acts, v = w.args(fid, ['msg'])
    w.call(fid, acts)
    m = v['msg']
    k = E.arr_term(m.f['gid'].f['data'])
    known = w.has(w.pre, 'participants_', k)
    w.post_(w.has(w.post, 'participants_', k), 'the participant is present')
    w.post_(w.nodes_same(m.f['node_entities_info_seq'], w.nodes(w.post, k)),
            'its node list is the one in the message')
    w.post_(Implies(known, w.enclave(w.pre, k) == w.enclave(w.post, k)),
            'a known participant keeps its enclave')
    w.post_(Implies(Not(known), w.enclave(w.post, k) == E.strlit('')),
            'a new participant has an empty enclave')
    w.frame(['participants_'], but=k)
    w.frame(FIELDS[:2])
    J.cover(E, w.st, known, 'known participant')
    J.cover(E, w.st, Not(known), 'new participant')


def c15_remove(J):
    w = World(J, 'graph/remove_participant')
    E = w.E
    fid = w.fid('remove_participant')
    acts, v = w.args(fid, ['gid'])
    r = w.call(fid, acts)
    k = w.key(v['gid'])
    known = w.has(w.pre, 'participants_', k)
    w.post_(r == known, 'returns whether the participant was present')
    w.post_(Not(w.has(w.post, 'participants_', k)), 'the participant is gone')
    w.frame(['participants_'], but=k)
    w.frame(FIELDS[:2])


def c15(J):
    J.case('add_participant', c15_add)
    J.case('update_participant_entities', c15_update)
    J.case('remove_participant', c15_remove)


# ------------------------------------------------------------------ C16 nodes
def with_participant(w, k):
    """precondition: the participant is present"""
    w.E.fact(w.has(w.pre, 'participants_', k))
    want_key(w.E, k)


def with_node(w, k, name, ns):
    """precondition: the participant has a node with that name; returns the first one's index"""
    E = w.E
    with_participant(w, k)
    s = w.nodes(w.pre, k)

    def match(i):
        n = w.node(s, i)
        return And(n.f['node_name'] == name, n.f['node_namespace'] == ns)
    f = E.fresh_int('first*', 0)
    E.fact(f < s.ln)
    E.fact(match(f))
    E.forall(w.ntag, lambda i: Implies(And(0 <= i, i < f), Not(match(i))))
    E.interested(w.ntag, f)
    return f


def c16_add(J):
    w = World(J, 'graph/add_node')
    E = w.E
    fid = w.fid('add_node')
    acts, v = w.args(fid, ['gid', 'name', 'ns'])
    k = w.key(v['gid'])
    with_participant(w, k)
    msg = w.call(fid, acts)
    a, b = w.nodes(w.pre, k), w.nodes(w.post, k)
    w.post_(b.ln == a.ln + 1, 'one node more')
    n = w.node(b, a.ln)
    w.post_(And(n.f['node_name'] == v['name'], n.f['node_namespace'] == v['ns']),
            'the new node is last, with the given name and namespace')
    w.post_(And(E.as_seq(n.f['reader_gid_seq']).ln == 0, E.as_seq(n.f['writer_gid_seq']).ln == 0),
            'the new node has no endpoints')
    w.post_(Implies(w.i < a.ln, w.node_same(w.node(a, w.i), w.node(b, w.i))),
            'every earlier node is unchanged')
    w.post_(And(w.has(w.post, 'participants_', k), w.enclave(w.pre, k) == w.enclave(w.post, k)),
            'the participant keeps its enclave')
    w.message(msg, k)
    w.frame(['participants_'], but=k)
    w.frame(FIELDS[:2])


def c16_remove(J):
    w = World(J, 'graph/remove_node')
    E = w.E
    fid = w.fid('remove_node')
    acts, v = w.args(fid, ['gid', 'name', 'ns'])
    k = w.key(v['gid'])
    f = with_node(w, k, v['name'], v['ns'])
    E.interested(w.ntag, w.i + 1)
    msg = w.call(fid, acts)
    a, b = w.nodes(w.pre, k), w.nodes(w.post, k)
    w.post_(b.ln == a.ln - 1, 'one node less')
    w.post_(Implies(w.i < f, w.node_same(w.node(a, w.i), w.node(b, w.i))),
            'nodes before the first match keep their place')
    w.post_(Implies(And(f <= w.i, w.i < b.ln), w.node_same(w.node(a, w.i + 1), w.node(b, w.i))),
            'nodes after the first match move up by one')
    w.post_(And(w.has(w.post, 'participants_', k), w.enclave(w.pre, k) == w.enclave(w.post, k)),
            'the participant keeps its enclave')
    w.message(msg, k)
    w.frame(['participants_'], but=k)
    w.frame(FIELDS[:2])


def c16(J):
    J.case('add_node', c16_add)
    J.case('remove_node', c16_remove)


# ------------------------------------------------------------------ C17 association
ASSOC = [(op + '_' + what, op, what) for op in ('associate', 'dissociate')
         for what in ('writer', 'reader')]


def first_gid(w, s, g):
    """index of the first occurrence of gid g in sequence s (its length if absent)"""
    E = w.E
    r = E.fresh_int('firstgid*', 0)
    E.fact(r <= s.ln)
    E.fact(Implies(r < s.ln, w.gid(s, r) == g))
    E.forall(w.gtag, lambda j: Implies(And(0 <= j, j < r), w.gid(s, j) != g))
    E.interested(w.gtag, r)
    return r


def c17_one(J, name, op, what):
    w = World(J, 'graph/' + name)
    E = w.E
    fid = w.fid(name)
    acts, v = w.args(fid, ['gid', 'pgid', 'name', 'ns'])
    k, g = w.key(v['pgid']), w.key(v['gid'])
    f = with_node(w, k, v['name'], v['ns'])
    E.interested(w.gtag, w.j + 1)
    a = w.nodes(w.pre, k)
    mine, other = what + '_gid_seq', ('reader' if what == 'writer' else 'writer') + '_gid_seq'
    x = w.node(a, f)
    l0 = E.as_seq(x.f[mine])
    if op == 'dissociate':
        r = first_gid(w, l0, g)
    msg = w.call(fid, acts)
    b = w.nodes(w.post, k)
    y = w.node(b, f)
    l1 = E.as_seq(y.f[mine])
    j = w.j
    w.post_(b.ln == a.ln, 'the number of nodes is unchanged')
    if op == 'associate':
        w.post_(l1.ln == l0.ln + 1, 'one GID more')
        w.post_(w.gid(l1, l0.ln) == g, 'the GID is appended')
        w.post_(Implies(j < l0.ln, w.gid(l1, j) == w.gid(l0, j)), 'earlier GIDs are unchanged')
    else:
        w.post_(l1.ln == l0.ln - If(r < l0.ln, IntVal(1), IntVal(0)),
                'one GID less if it was listed, otherwise none')
        w.post_(Implies(And(j < r, j < l0.ln), w.gid(l1, j) == w.gid(l0, j)),
                'GIDs before the first occurrence keep their place')
        w.post_(Implies(And(r <= j, j < l1.ln), w.gid(l1, j) == w.gid(l0, j + 1)),
                'GIDs after the first occurrence move up by one')
        J.cover(E, w.st, r < l0.ln, 'listed')
        J.cover(E, w.st, r == l0.ln, 'not listed')
    w.post_(And(x.f['node_name'] == y.f['node_name'],
                x.f['node_namespace'] == y.f['node_namespace'],
                w.gids_same(x.f[other], y.f[other])), 'the rest of that node is unchanged')
    w.post_(Implies(And(w.i < a.ln, w.i != f), w.node_same(w.node(a, w.i), w.node(b, w.i))),
            'every other node is unchanged')
    w.post_(And(w.has(w.post, 'participants_', k), w.enclave(w.pre, k) == w.enclave(w.post, k)),
            'the participant keeps its enclave')
    w.message(msg, k)
    w.frame(['participants_'], but=k)
    w.frame(FIELDS[:2])


def c17(J):
    for n, op, what in ASSOC:
        J.case(n, lambda J, n=n, op=op, what=what: c17_one(J, n, op, what))


SPECS = {'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17}

from . import graphq  # noqa
SPECS.update(graphq.SPECS)
from . import graphfx  # noqa
SPECS.update(graphfx.SPECS)

_ALL = ['fewer than 2^60 participants, nodes, endpoints and listed GIDs',
        'std::bad_alloc and other exceptions of the standard containers do not occur',
        'the on-change callback terminates and does not call back into the same graph (it is '
        'called with the graph lock held)']
_NODE = ['the participant is known to the graph (asserted by the code itself)']
_DEM = ['the demangle functions are pure, do not throw and do not touch the graph',
        'stored names hold no NUL byte (they come from C strings of the middleware)']
ASSUMPTIONS = {p: list(_ALL) for p in SPECS}
ASSUMPTIONS['C16'] += _NODE + ['remove_node: the node is known (asserted by the code itself)']
ASSUMPTIONS['C17'] += _NODE + ['the node is known (asserted by the code itself)']
ASSUMPTIONS['C18'] += ['memory safety and allocator ownership of the same code are obligations of '
                       'C14-C24, not repeated here']
for _p in ('C20', 'C21', 'C22', 'C23'):
    ASSUMPTIONS[_p] += _DEM
