"""Contracts of context.cpp (C25, C26) and the lock discipline (C27)."""
from ..job import *  # noqa
from .. import stdlib, graphlib
from ..stdlib import want_key
from .graph import World, NS, FIELDS, with_participant, with_node, first_gid
from . import graph, graphfx

CTX = NS + 'Context'
GRAPH = ('f', 'graph_cache')
MUTEX = 'node_update_mutex'
RMW_ERROR = 1


class CWorld(World):
    """an arbitrary context"""

    def __init__(self, J, name, drop=()):
        self.J = J
        E = self.E = J.eng('context', 'context/' + name)
        E.drop = set(drop)
        self.st = St()
        t = E.p.rec_t[CTX]
        f = {}
        gt = E.p.rec_t[NS + 'GraphCache']
        g = {}
        for fd in E.rec_fields(gt):
            g[fd['n']] = self.callback() if fd['n'] == 'on_change_callback_' else \
                E.fresh_val(fd['t'], fd['n'])
        for fd in E.rec_fields(t):
            n = fd['n']
            if n == 'graph_cache':
                f[n] = SV(NS + 'GraphCache', gt, g)
            elif n == 'publish_callback':
                f[n] = self.publisher()
            elif n == 'pub':
                f[n] = self.pub = self.handle(fd['t'])
            elif n in ('gid', MUTEX):
                f[n] = E.fresh_val(fd['t'], n)
            else:
                f[n] = Obj('unused')
        self.root = '$ctx'
        self.st.store[self.root] = SV(CTX, t, f)
        for k, v in (('$calls', IntVal(0)), ('$published', IntVal(0)), ('$fail', FALSE),
                     ('$bad_pub', FALSE), ('$pub_failed', FALSE)):
            self.st.store[k] = v
        u = J.find(E, NS + 'GraphCache::update_participant_entities')
        mt = E.p.deref(E.p.funcs[u]['params'][0]['t'])
        self.st.store['$msg'] = E.fresh_val(mt, 'no_message')
        self.pre = self.graph(self.st)
        self.clv = LV([(TRUE, self.root, ())])
        self.lv = LV([(TRUE, self.root, (GRAPH,))])
        self.gid_key = E.arr_term(f['gid'].f['data'])
        self.points()
        E.publish_hook = None

    def graph(self, st):
        return st.store[self.root].f['graph_cache']

    @property
    def post(self):
        return self.graph(self.st)

    def handle(self, t):
        """pointer to the publisher, null or not"""
        E = self.E
        self.no_pub = E.fresh('no_publisher', BoolSort())
        return Ptr([(self.no_pub, None), (Not(self.no_pub), ('lv', '$publisher', ()))])

    def publisher(self):
        E = self.E
        self.no_cb = E.fresh('no_publish_callback', BoolSort())

        def publish(E, st, args):
            E.assumed['the publish callback: any function that does not touch the context; the '
                      'message it receives may have been published even if it reports failure'] = 1
            p, m = E.aval(args[0], st), E.aval(args[1], st)
            if E.publish_hook:
                E.publish_hook(E, st)
            ok = bor(*[g for g, x in p.alts if x is not None and x[1] == '$publisher'])
            st.store['$bad_pub'] = bor(st.store['$bad_pub'], bnot(ok))
            st.store['$published'] = iadd(st.store['$published'], IntVal(1))
            v = E.load(E.deref(m, st, 0), st, 0)
            st.store['$msg'] = v
            r = E.fresh_int('publish_result', 0, 1 << 30)
            st.store['$pub_failed'] = bor(st.store['$pub_failed'], r != 0)
            return r
        return Fn([(self.no_cb, None), (Not(self.no_cb), Handler('publish', publish))])

    def ctx_call(self, name, names):
        """calls Context::name with arbitrary arguments; precondition set by self.pre_(vals)"""
        E = self.E
        fid = self.J.find(E, CTX + '::' + name)
        acts, v = self.args(fid, names)
        return fid, acts, v

    def run(self, fid, acts):
        return self.E.inline(fid, self.clv, acts, self.st)


def same_graph(w):
    """the graph is exactly as before"""
    w.frame(FIELDS)


def outcome(w, r):
    """obligations common to all operations; returns the condition of success"""
    E, st = w.E, w.st
    impossible = Or(w.no_pub, w.no_cb)
    n = st.store['$published']
    failed = Or(impossible, st.store['$pub_failed'])
    w.post_(Implies(impossible, n == 0), 'nothing is published without publisher or callback')
    w.post_(Implies(Not(impossible), n == 1), 'exactly one message is published')
    w.post_(Not(st.store['$bad_pub']), 'it is published through the context\'s publisher')
    w.post_(r == If(failed, IntVal(RMW_ERROR), IntVal(0)),
            'ERROR exactly when the message was not published')
    w.J.cover(E, st, failed, 'failure')
    w.J.cover(E, st, Not(failed), 'success')
    return Not(impossible), Not(failed)


def message(w, sent, nodes_ok, what):
    """the published message carries the participant and the nodes described by nodes_ok(seq)"""
    E = w.E
    m = w.st.store['$msg']
    w.post_(Implies(sent, E.arr_term(m.f['gid'].f['data']) == w.gid_key),
            'the message carries the participant GID')
    s = E.as_seq(m.f['node_entities_info_seq'])
    for name, c in nodes_ok(s):
        w.post_(Implies(sent, c), 'the message after %s: %s' % (what, name))


def graph_after(w, cond, nodes_ok, what):
    k = w.gid_key
    for name, c in nodes_ok(w.nodes(w.post, k)):
        w.post_(Implies(cond, c), 'the graph after %s: %s' % (what, name))
    w.post_(And(w.has(w.post, 'participants_', k), w.enclave(w.pre, k) == w.enclave(w.post, k)),
            'the participant keeps its enclave')


def unchanged_when(w, cond):
    """under cond the participant is exactly as before"""
    w.post_(Implies(cond, w.nodes_same(w.nodes(w.pre, w.gid_key), w.nodes(w.post, w.gid_key))),
            'on failure the nodes are exactly as before')


# ------------------------------------------------------------------ nodes
def added_node(w, v):
    a = w.nodes(w.pre, w.gid_key)
    E = w.E

    def ok(b):
        n = w.node(b, a.ln)
        return [('one node more', b.ln == a.ln + 1),
                ('the new node is last', And(n.f['node_name'] == v['name'],
                                             n.f['node_namespace'] == v['ns'])),
                ('the new node has no endpoints', And(E.as_seq(n.f['reader_gid_seq']).ln == 0,
                                                      E.as_seq(n.f['writer_gid_seq']).ln == 0)),
                ('earlier nodes', Implies(w.i < a.ln, w.node_same(w.node(a, w.i),
                                                                  w.node(b, w.i))))]
    return ok


def removed_node(w, f):
    a = w.nodes(w.pre, w.gid_key)

    def ok(b):
        return [('one node less', b.ln == a.ln - 1),
                ('nodes before it', Implies(w.i < f, w.node_same(w.node(a, w.i),
                                                                 w.node(b, w.i)))),
                ('nodes after it', Implies(And(f <= w.i, w.i < b.ln), w.node_same(
                    w.node(a, w.i + 1), w.node(b, w.i))))]
    return ok


def frames(w):
    w.frame(['participants_'], but=w.gid_key)
    w.frame(FIELDS[:2])


def add_node(J):
    w = CWorld(J, 'add_node_graph')
    fid, acts, v = w.ctx_call('add_node_graph', ['name', 'ns'])
    with_participant(w, w.gid_key)
    r = w.run(fid, acts)
    sent, good = outcome(w, r)
    ok = added_node(w, v)
    message(w, sent, ok, 'the addition')
    graph_after(w, good, ok, 'the addition')
    unchanged_when(w, Not(good))
    frames(w)


def remove_node(J):
    w = CWorld(J, 'remove_node_graph')
    fid, acts, v = w.ctx_call('remove_node_graph', ['name', 'ns'])
    f = with_node(w, w.gid_key, v['name'], v['ns'])
    w.E.interested(w.ntag, w.i + 1)
    r = w.run(fid, acts)
    sent, good = outcome(w, r)
    ok = removed_node(w, f)
    message(w, sent, ok, 'the removal')
    graph_after(w, TRUE, ok, 'the removal')
    frames(w)


# ------------------------------------------------------------------ endpoints
# operation -> [(list, argument)]
ADD = {'add_publisher_graph': [('writer', 'gid')],
       'add_subscriber_graph': [('reader', 'gid')],
       'add_client_graph': [('writer', 'request'), ('reader', 'response')],
       'add_service_graph': [('reader', 'request'), ('writer', 'response')]}
REMOVE = {'remove_publisher_graph': [('writer', 'gid')],
          'remove_subscriber_graph': [('reader', 'gid')],
          'remove_client_graph': [('writer', 'request'), ('reader', 'response')],
          'remove_service_graph': [('reader', 'request'), ('writer', 'response')]}


def endpoint_setup(J, name, lists, drop=()):
    w = CWorld(J, name, drop)
    E = w.E
    fid, acts, v = w.ctx_call(name, [a for _, a in lists] + ['name', 'ns'])
    f = with_node(w, w.gid_key, v['name'], v['ns'])
    E.interested(w.gtag, w.j + 1)
    x = w.node(w.nodes(w.pre, w.gid_key), f)
    return w, fid, acts, v, f, x


def not_listed(w, s, g):
    w.E.forall(w.gtag, lambda j: Implies(And(0 <= j, j < s.ln), w.gid(s, j) != g))


def edited(w, f, x, edits):
    """node list in which only the given lists of node f changed"""
    E = w.E
    a = w.nodes(w.pre, w.gid_key)

    def ok(b):
        y = w.node(b, f)
        out = [('same number of nodes', b.ln == a.ln),
               ('other nodes', Implies(And(w.i < a.ln, w.i != f), w.node_same(
                   w.node(a, w.i), w.node(b, w.i)))),
               ('name', And(x.f['node_name'] == y.f['node_name'],
                            x.f['node_namespace'] == y.f['node_namespace']))]
        for l in ('reader', 'writer'):
            l0, l1 = E.as_seq(x.f[l + '_gid_seq']), E.as_seq(y.f[l + '_gid_seq'])
            if l in edits:
                out += [('%s list: %s' % (l, n), c) for n, c in edits[l](l0, l1)]
            else:
                out.append(('%s list' % l, w.gids_same(x.f[l + '_gid_seq'], y.f[l + '_gid_seq'])))
        return out
    return ok


def appended(w, g):
    j = w.j
    return lambda l0, l1: [('one more', l1.ln == l0.ln + 1), ('appended', w.gid(l1, l0.ln) == g),
                           ('earlier ones', Implies(j < l0.ln, w.gid(l1, j) == w.gid(l0, j)))]


def dropped(w, r):
    j = w.j
    return lambda l0, l1: [
        ('one less if listed', l1.ln == l0.ln - If(r < l0.ln, IntVal(1), IntVal(0))),
        ('before it', Implies(And(j < r, j < l0.ln), w.gid(l1, j) == w.gid(l0, j))),
        ('after it', Implies(And(r <= j, j < l1.ln), w.gid(l1, j) == w.gid(l0, j + 1)))]


def add_endpoint(J, name, lists):
    w, fid, acts, v, f, x = endpoint_setup(J, name, lists)
    edits = {}
    for l, a in lists:
        g = w.key(v[a])
        not_listed(w, w.E.as_seq(x.f[l + '_gid_seq']), g)
        edits[l] = appended(w, g)
    r = w.run(fid, acts)
    sent, good = outcome(w, r)
    ok = edited(w, f, x, edits)
    message(w, sent, ok, 'the addition')
    graph_after(w, good, ok, 'the addition')
    unchanged_when(w, Not(good))
    frames(w)


def remove_endpoint(J, name, lists):
    w, fid, acts, v, f, x = endpoint_setup(J, name, lists)
    edits = {}
    for l, a in lists:
        edits[l] = dropped(w, first_gid(w, w.E.as_seq(x.f[l + '_gid_seq']), w.key(v[a])))
    r = w.run(fid, acts)
    sent, good = outcome(w, r)
    ok = edited(w, f, x, edits)
    message(w, sent, ok, 'the removal')
    graph_after(w, TRUE, ok, 'the removal')
    frames(w)


def c25(J):
    J.case('add_node_graph', add_node)
    for n, l in ADD.items():
        J.case(n, add_endpoint, n, l)


def c26(J):
    J.case('remove_node_graph', remove_node)
    for n, l in REMOVE.items():
        J.case(n, remove_endpoint, n, l)


# ------------------------------------------------------------------ C27
def locked(w):
    """graph accesses under the graph's mutex; graph writes and the publication in one critical
    section of the context's mutex"""
    E = w.E
    st = w.st
    st.store['$section'] = IntVal(-1)

    def mutex(st):
        return st.store[w.root].f[MUTEX]

    def graph_held(st):
        return w.graph(st).f['mutex_'].a['held']

    def section(st, g, what, line):
        m = mutex(st)
        s = st.store['$section']
        E.oblige(st, bimp(g, m.a['held']), '%s under the update lock' % what, line, 'lock')
        E.oblige(st, bimp(g, Or(s == -1, s == m.a['epoch'])),
                 '%s in the same critical section' % what, line, 'lock')
        st.store['$section'] = bif(g, m.a['epoch'], s)

    def hook(E, st, g, root, path, how, line):
        if root != w.root or not path or path[0] != GRAPH:
            return
        sub = path[1:]
        if sub and sub[0][1] not in graphfx.GUARDED:
            return
        what = '%s of %s' % (how, sub[0][1] if sub else 'the graph')
        E.oblige(st, bimp(g, graph_held(st)), what + ' under its lock', line, 'lock')
        if how == 'write':
            section(st, g, what, line)
    E.access_hook = hook
    E.publish_hook = lambda E, st: section(st, TRUE, 'the publication', 0)
    E.fact(Not(graph_held(st)))
    E.fact(Not(mutex(st).a['held']))

    def done():
        E.access_hook = None
        E.oblige(w.st, And(Not(graph_held(w.st)), Not(mutex(w.st).a['held'])),
                 'the locks are released', kind='lock')
        w.J.cover(E, w.st, w.st.store['$published'] == 1, 'published')
    return done


def lock_node(J, name):
    w = CWorld(J, name, graphfx.C27_DROP)
    fid, acts, v = w.ctx_call(name, ['name', 'ns'])
    if name == 'add_node_graph':
        with_participant(w, w.gid_key)
    else:
        with_node(w, w.gid_key, v['name'], v['ns'])
    done = locked(w)
    w.run(fid, acts)
    done()


def lock_endpoint(J, name, lists):
    w, fid, acts, v, f, x = endpoint_setup(J, name, lists, graphfx.C27_DROP)
    done = locked(w)
    w.run(fid, acts)
    done()


def c27(J):
    graphfx.c27_graph(J)
    for n in ('add_node_graph', 'remove_node_graph'):
        J.case(n, lock_node, n)
    for n, l in list(ADD.items()) + list(REMOVE.items()):
        J.case(n, lock_endpoint, n, l)


SPECS = {'C25': c25, 'C26': c26, 'C27': c27}

_CTX = list(graph.ASSUMPTIONS['C14']) + [
    'the participant of the context is in its graph, and the node named in the call is too',
    'the publish callback is an arbitrary function of the publisher and the message that does not '
    'touch the context']
ASSUMPTIONS = {
    'C25': _CTX + ['the endpoint is not yet associated with the node (as the property states)'],
    'C26': list(_CTX),
    'C27': _CTX + ['std::mutex / std::lock_guard give mutual exclusion; data races are excluded by '
                   'the lock discipline, schedules themselves are not enumerated',
                   'memory safety and allocator ownership of the same code are obligations of '
                   'C14-C26, not repeated here']}
