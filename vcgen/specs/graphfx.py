"""Effects of every operation of the graph cache: callback invocations (C18) and lock discipline
(the graph part of C27)."""
from ..job import *  # noqa
from .. import stdlib, graphlib
from ..stdlib import want_key
from .graph import (World, NS, GC, FIELDS, REMOVERS, ASSOC, adders, with_node, with_participant)
from .graphq import COUNTS, INFOS, BYNODE

GUARDED = FIELDS + ('on_change_callback_',)


class Op:
    """one operation on an arbitrary graph; `changed`: whether it changes the graph"""

    def __init__(self, J, name, drop):
        self.J = J
        self.w = World(J, 'graph/' + name)
        self.E = self.w.E
        self.E.drop = drop
        self.w.st.store['$fail'] = FALSE
        self.E.handlers['!infos_fini'] = graphlib.infos_fini
        self.changed = FALSE
        self.before = None

    def call(self, fid, acts):
        if self.before:
            self.before(self)
        return self.w.call(fid, acts)


def op_add(name, n, field):
    def run(o):
        w = o.w
        hashed = n == (7 if field is None else 6)
        names = ['gid', 'topic', 'type'] + (['hash'] if hashed else []) + ['pgid', 'qos'] + \
            (['is_reader'] if field is None else [])
        fid = w.fid(name, n)
        acts, v = w.args(fid, names)
        k = w.key(v['gid'])
        want_key(o.E, k)
        new = lambda f: Not(w.has(w.pre, f, k))  # noqa
        o.changed = new(field) if field else If(v['is_reader'], new('data_readers_'),
                                                new('data_writers_'))
        o.call(fid, acts)
    return run


def op_remove(name, field):
    def run(o):
        w = o.w
        fid = w.fid(name)
        acts, v = w.args(fid, ['gid'] + (['is_reader'] if field is None else []))
        k = w.key(v['gid'])
        want_key(o.E, k)
        old = lambda f: w.has(w.pre, f, k)  # noqa
        o.changed = old(field) if field else If(v['is_reader'], old('data_readers_'),
                                                old('data_writers_'))
        o.call(fid, acts)
    return run


def op_participant(name):
    def run(o):
        w = o.w
        fid = w.fid(name)
        acts, v = w.args(fid, ['msg'] if name == 'update_participant_entities' else
                         ['gid', 'enclave'] if name == 'add_participant' else ['gid'])
        o.changed = TRUE
        if name == 'remove_participant':
            o.changed = w.has(w.pre, 'participants_', w.key(v['gid']))
        o.call(fid, acts)
    return run


def op_node(name):
    def run(o):
        w = o.w
        fid = w.fid(name)
        acts, v = w.args(fid, ['gid', 'name', 'ns'])
        k = w.key(v['gid'])
        if name == 'add_node':
            with_participant(w, k)
        else:
            with_node(w, k, v['name'], v['ns'])
        o.changed = TRUE
        o.call(fid, acts)
    return run


def op_assoc(name):
    def run(o):
        w = o.w
        fid = w.fid(name)
        acts, v = w.args(fid, ['gid', 'pgid', 'name', 'ns'])
        with_node(w, w.key(v['pgid']), v['name'], v['ns'])
        o.changed = TRUE
        o.call(fid, acts)
    return run


def op_query(name):
    """any query: arbitrary arguments, null pointers included where they are allowed"""
    def run(o):
        w, E = o.w, o.E
        fid = w.fid(name)
        acts = []
        for i, p in enumerate(E.p.funcs[fid]['params']):
            ref = E.p.is_ref(p['t'])
            ty = E.p.deref(p['t']) if ref else p['t']
            t = E.T(ty)
            if t['k'] == 'ptr':
                if E.p.rec(t['to']) == 'rcutils_allocator_s':
                    a, null, valid = graphlib.allocator(E, w.st, t['to'])
                    if name in [n for n, _, _ in INFOS]:
                        E.fact(And(Not(null), valid))
                    acts.append(a)
                else:
                    v = E.temp(E.fresh_val(t['to'], 'out%d' % i), w.st, '$out%d' % i)
                    null = E.fresh('out%d_null' % i, BoolSort())
                    if name in [n for n, _, _ in INFOS]:
                        null = FALSE
                    acts.append(Ptr([(null, None), (Not(null), ('lv', v.alts[0][1], ()))]))
                continue
            if E.p.rec(ty) == 'std::function':
                v = graphlib.pure_fn(E, 'demangle%d' % i)[0]
            else:
                v = E.fresh_val(ty, p.get('n') or 'arg%d' % i)
            acts.append(E.temp(v, w.st, '$arg%d' % i) if ref else v)
        o.call(fid, acts)
    return run


def op_print(o):
    w, E = o.w, o.E
    fid = o.J.find(E, NS + 'operator<<', lambda ps: any('GraphCache' in p for p in ps))
    out = E.temp(Obj('ostream'), w.st, '$stream')
    if o.before:
        o.before(o)
    E.inline(fid, None, [out, w.lv], w.st)


def op_clear(o):
    o.call(o.w.fid('clear_on_change_callback'), [])


OPS = [('%s/%d' % (n, k), op_add(n, k, f)) for n, k, f in adders()] + \
    [(n, op_remove(n, f)) for n, f in REMOVERS] + \
    [(n, op_participant(n)) for n in ('add_participant', 'remove_participant',
                                      'update_participant_entities')] + \
    [(n, op_node(n)) for n in ('add_node', 'remove_node')] + \
    [(n, op_assoc(n)) for n, _, _ in ASSOC] + \
    [(n, op_query(n)) for n in [x[0] for x in COUNTS] + [x[0] for x in INFOS] +
     [x[0] for x in BYNODE] + ['get_names_and_types', 'get_node_names', 'get_number_of_nodes']] + \
    [('operator<<', op_print)]


# ------------------------------------------------------------------ C18
def calls_post(o):
    w = o.w
    n = w.st.store['$calls']
    if is_false(o.changed):
        o.E.oblige(w.st, n == 0, 'the callback is not called', kind='post')
    else:
        c = And(w.has_cb, o.changed)
        o.E.oblige(w.st, n == If(c, IntVal(1), IntVal(0)),
                   'the callback is called exactly once if the graph changed and one is set, '
                   'otherwise not at all', kind='post')
        o.J.cover(o.E, w.st, c, 'called')
        o.J.cover(o.E, w.st, Not(w.has_cb), 'no callback')
    same_callback(o)


def same_callback(o):
    """the registered callback stays registered"""
    cb = o.w.post.f['on_change_callback_']
    o.E.oblige(o.w.st, o.E.is_null(cb) == Not(o.w.has_cb), 'the registered callback stays set',
               kind='frame')


C18_DROP = {'safety', 'ownership', 'pre', 'lock'}


def c18(J):
    def one(J, name, run):
        o = Op(J, name, C18_DROP)
        run(o)
        calls_post(o)
    for n, run in OPS:
        J.case(n, one, n, run)

    def clear(J):
        o = Op(J, 'clear_on_change_callback', C18_DROP)
        op_clear(o)
        w = o.w
        w.post_(o.E.is_null(w.post.f['on_change_callback_']), 'no callback is left')
        w.post_(w.st.store['$calls'] == 0, 'the callback is not called')
        w.frame(FIELDS)

    def replace(J):
        o = Op(J, 'set_on_change_callback', C18_DROP)
        w, E = o.w, o.E
        set_callback(o)
        w.post_(w.st.store['$calls'] == 0, 'registering calls nothing')
        w.post_(w.st.store['$new'] == 0, 'registering calls nothing (new)')
        w.frame(FIELDS)
        v = E.fresh_val(E.p.rec_t['rmw_gid_s'], 'gid')
        w.call(w.fid('add_participant'), [E.temp(v, w.st, '$gid'), E.temp(
            E.fresh('enclave', E.Str), w.st, '$enclave')])
        w.post_(w.st.store['$new'] == 1, 'afterwards the new callback is the one called')
        w.post_(w.st.store['$calls'] == 0, 'and the replaced one is not')
    J.case('clear_on_change_callback', clear)
    J.case('set_on_change_callback', replace)


def set_callback(o):
    w, E = o.w, o.E
    w.st.store['$new'] = IntVal(0)

    def called(E, st, args):
        st.store['$new'] = iadd(st.store['$new'], IntVal(1))
    fid = w.fid('set_on_change_callback')
    f = E.temp(Fn([(TRUE, Handler('new_callback', called))]), w.st, '$callback')
    w.call(fid, [f])


# ------------------------------------------------------------------ C27 (graph)
def guard(o):
    """every access of the guarded fields requires the graph's mutex"""
    w, E = o.w, o.E

    def held(st):
        return st.store[w.root].f['mutex_'].a['held']

    def hook(E, st, g, root, path, how, line):
        if root == w.root and not (path and path[0][0] == 'f' and path[0][1] not in GUARDED):
            what = path[0][1] if path else 'the graph'
            E.oblige(st, bimp(g, held(st)), '%s of %s under its lock' % (how, what), line, 'lock')
    E.access_hook = hook
    E.fact(Not(held(w.st)))
    w.held = held


def released(o):
    o.E.access_hook = None
    o.E.oblige(o.w.st, Not(o.w.held(o.w.st)), 'the lock is released', kind='lock')


C27_DROP = {'safety', 'ownership', 'pre'}


def c27_graph(J):
    def one(J, name, run):
        o = Op(J, name, C27_DROP)
        o.before = guard
        run(o)
        released(o)
        J.cover(o.E, o.w.st, TRUE, 'returns')
    for n, run in OPS:
        J.case(n, one, n, run)

    def clear(J):
        one(J, 'clear_on_change_callback', op_clear)

    def setcb(J):
        o = Op(J, 'set_on_change_callback', C27_DROP)
        guard(o)
        set_callback(o)
        released(o)
    J.case('clear_on_change_callback', clear)
    J.case('set_on_change_callback', setcb)


SPECS = {'C18': c18, 'C27g': c27_graph}
