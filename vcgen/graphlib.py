"""Assumed contracts of the rcutils / rmw functions used by graph_cache.cpp, with the ownership
discipline of C21.

Every successful allocation of a string is a token (roslib.token) with a ghost `live` flag.  A
token must be stored into a slot of an array owned by an output (or be deallocated): storing it
into an owned slot ends its life as a token, requires that it is live and that the slot was null.
The slots of an array own their strings; the arrays are only ever emptied by their fini functions,
so everything stored is released exactly once by fini, or owned by the output.  Pointers that own
a buffer (data, types, info_array) may only be overwritten when null.
"""
from .terms import *  # noqa
from .interp import *  # noqa
from . import stdlib, roslib
from .stdlib import H, TABLE
from .roslib import token, release

OK, ERROR, BAD_ALLOC, INVALID = 0, 1, 10, 11


def note(E, what):
    E.assumed[what] = 1


def target(E, st, a, ln):
    """lvalue behind a pointer argument (obligation: not null)"""
    return E.deref(E.val(a, st), st, ln)


def tokens_in(E, v):
    for g, x in roslib.leaves_of(v):
        for key, p, what in getattr(E, 'tokens', []):
            if x.eq(p):
                yield g, key, what, None
                break
        else:
            if not is_true(E.is_cnull(x)):
                yield g, None, None, x


def own_walk(E, v, path):
    """(inside an owned buffer, value at path)"""
    inside = False
    for el in path:
        if isinstance(v, Own) and el[0] == 'i':
            inside = True
        v = E.get(v, el)
    return inside, v


def install_ownership(E):
    """check every store against the ownership discipline"""
    def lost(st, g, inside, old, new, ln):
        if isinstance(old, SV):
            for k in old.f:
                lost(st, g, inside, old.f[k], new.f[k] if isinstance(new, SV) else None, ln)
        elif isinstance(old, Own):
            if isinstance(new, Own) and new.arr.eq(old.arr) and new.null.eq(old.null):
                return
            E.oblige(st, bimp(g, old.null), 'an owning pointer is only overwritten when null', ln,
                     'ownership')
        elif inside and isinstance(old, ExprRef) and old.sort().eq(E.CStr):
            new = E.as_cstr(new)
            if old.eq(new):
                return
            E.oblige(st, bimp(g, E.is_cnull(old)), 'an owned string is not overwritten', ln,
                     'ownership')
            for c, key, what, x in list(tokens_in(E, new)):
                if key is None:
                    E.oblige(st, bimp(band(g, c), E.is_cnull(x)),
                             'only owned strings are stored in an output', ln, 'ownership')
                else:
                    live = st.store.get(key, FALSE)
                    E.oblige(st, bimp(band(g, c), live), '%s has one owner' % what, ln,
                             'ownership')
                    st.store[key] = band(live, bnot(band(g, c)))

    def hook(E, st, g, root, path, val, ln):
        v = st.store.get(root)
        if v is None or isinstance(v, ExprRef):
            return
        inside, old = own_walk(E, v, path)
        lost(st, g, inside, old, val, ln)
    E.own_hook = hook
    E.noleak = True


def no_tokens(E, st, what=''):
    """nothing allocated is left without an owner"""
    for key, p, name in getattr(E, 'tokens', []):
        if key in st.store and not is_false(st.store[key]):
            E.oblige(st, bnot(st.store[key]), '%s is owned by an output or released%s' % (
                name, what), kind='ownership')


# ---------------------------------------------------------------- allocator
def allocator(E, st, t, name='$allocator'):
    """an arbitrary allocator pointer; returns (Ptr, is null, is valid)"""
    v = E.fresh_val(t, 'alloc')
    l = E.temp(v, st, name)
    null, valid = E.fresh('alloc_null', BoolSort()), E.fresh('alloc_valid', BoolSort())
    E.alloc_root, E.alloc_valid = l.alts[0][1], valid
    return Ptr([(null, None), (bnot(null), ('lv', l.alts[0][1], ()))]), null, valid


@H('rcutils_allocator_is_valid')
def h_valid(E, st, e, args):
    note(E, 'rcutils_allocator_is_valid: false for null, otherwise whether the allocator is usable')
    p = E.val(args[0], st)
    return band(bnot(E.is_null(p)), E.alloc_valid)


def use_allocator(E, st, ptr, ln):
    """an allocator passed by pointer is valid"""
    E.oblige(st, band(bnot(E.is_null(ptr)), E.alloc_valid), 'the allocator used is valid', ln,
             'pre')


# ---------------------------------------------------------------- strings
@H('rcutils_strdup')
def h_strdup(E, st, e, args):
    note(E, 'rcutils_strdup: null on failure, otherwise a newly allocated copy of the string')
    ln = e.get('l', 0)
    s = stdlib.s_of(E, E.val(args[0], st), st, ln)
    E.val(args[1], st)
    E.oblige(st, E.alloc_valid, 'the allocator used is valid', ln, 'pre')
    ok = E.fresh('strdup_ok', BoolSort())
    p = token(E, st, s, 'the copied string')
    st.store[E.tokens[-1][0]] = ok
    st.store['$fail'] = bor(st.store.get('$fail', FALSE), bnot(ok))
    return bif(ok, p, E.CStr.cnull)


# ---------------------------------------------------------------- string arrays
def string_array(E, t, size, null, alloc=None):
    ety = [f for f in E.rec_fields(t) if f['n'] == 'data'][0]['t']
    ety = E.T(ety)['to']
    f = {}
    for fd in E.rec_fields(t):
        if fd['n'] == 'size':
            f['size'] = size
        elif fd['n'] == 'data':
            f['data'] = Own(ety, null, size, K(IntSort(), E.CStr.cnull))
        else:
            f[fd['n']] = alloc if alloc is not None else E.fresh_val(fd['t'], fd['n'])
    return SV(E.p.rec(t), E.p.deref(t), f)


def failing(E, st, name, codes):
    """status of a call that may fail; records the failure in the ghost $fail"""
    r = E.fresh(name, IntSort())
    E.fact(bor(*[r == c for c in (OK,) + codes]))
    E.bounds[r.get_id()] = (0, max(codes), r)
    st.store['$fail'] = bor(st.store.get('$fail', FALSE), r != 0)
    return r


def inited(st, l, r):
    """records that an output was initialised"""
    for g, root, path in l.alts:
        if not path:
            k = '$init:' + root
            st.store[k] = bor(st.store.get(k, FALSE), band(g, r == 0))


def emptied(st, l, cond):
    """records that the contents of an output were released"""
    for g, root, path in l.alts:
        k = '$fini:' + root
        st.store[k] = bor(st.store.get(k, FALSE), band(g, cond))


def null_data(E, v, k='data'):
    o = v.f[k]
    return v.with_(k, E.null_own(o.ety))


@H('rcutils_string_array_init')
def h_sainit(E, st, e, args):
    note(E, 'rcutils_string_array_init: on OK `size` null slots (no slots may be a null pointer); '
            'on failure no memory is held and the data pointer is null')
    ln = e.get('l', 0)
    l = target(E, st, args[0], ln)
    n = E.val(args[1], st)
    use_allocator(E, st, E.val(args[2], st), ln)
    r = failing(E, st, 'string_array_init', (2, BAD_ALLOC))
    old = E.load(l, st, ln)
    good = string_array(E, old.t, n, band(n == 0, E.fresh('no_slots', BoolSort())))
    bad = string_array(E, old.t, E.fresh_int('size', 0, 1 << 60), TRUE)
    inited(st, l, r)
    E.store(l, E.merge_val(r == 0, good, bad), st, ln)
    return r


def sized(E, st, g, v, ln, what):
    """size and buffer of an array agree"""
    o = v.f['data']
    E.oblige(st, bimp(band(g, bnot(o.null)), v.f['size'] == o.ln),
             'the size of %s matches its contents when released' % what, ln, 'ownership')


def fini_array(E, st, l, ln):
    v = E.load(l, st, ln)
    o = v.f['data']
    emptied(st, l, band(bnot(o.null), o.ln > 0))
    sized(E, st, TRUE, v, ln, 'a string array')
    z = string_array(E, v.t, IntVal(0), TRUE, v.f.get('allocator'))
    h, E.own_hook = E.own_hook, None
    E.store(l, E.merge_val(o.null, v, z), st, ln)
    E.own_hook = h


@H('rcutils_string_array_fini')
def h_safini(E, st, e, args):
    note(E, 'rcutils_string_array_fini: OK; nothing for a null data pointer, otherwise deallocates '
            'every slot and the buffer and zeroes size and data')
    ln = e.get('l', 0)
    fini_array(E, st, target(E, st, args[0], ln), ln)
    return IntVal(0)


@H('rmw_check_zero_rmw_string_array')
def h_sazero(E, st, e, args):
    note(E, 'rmw_check_zero_rmw_string_array: OK exactly for a non-null array with size 0 and null '
            'data')
    p = E.val(args[0], st)
    null = E.is_null(p)
    live = [(g, x) for g, x in p.alts if x is not None]
    if not live:
        return IntVal(INVALID)
    v = E.peek(LV([(g, x[1], x[2]) for g, x in live]), st)
    return bif(null, IntVal(INVALID), bif(band(v.f['size'] == 0, v.f['data'].null), IntVal(0),
                                          IntVal(ERROR)))


# ---------------------------------------------------------------- names and types
@H('rmw_names_and_types_check_zero')
def h_ntzero(E, st, e, args):
    note(E, 'rmw_names_and_types_check_zero: OK exactly for a non-null, zero-initialised value')
    p = E.val(args[0], st)
    live = [(g, x) for g, x in p.alts if x is not None]
    if not live:
        return IntVal(INVALID)
    v = E.peek(LV([(g, x[1], x[2]) for g, x in live]), st)
    n = v.f['names']
    return bif(E.is_null(p), IntVal(INVALID), bif(band(
        n.f['size'] == 0, n.f['data'].null, v.f['types'].null), IntVal(0), IntVal(ERROR)))


@H('rmw_names_and_types_init')
def h_ntinit(E, st, e, args):
    note(E, 'rmw_names_and_types_init: on OK `size` null names and `size` zero-initialised string '
            'arrays; on failure no memory is held and the pointers are null')
    ln = e.get('l', 0)
    l = target(E, st, args[0], ln)
    n = E.val(args[1], st)
    use_allocator(E, st, E.val(args[2], st), ln)
    r = failing(E, st, 'names_and_types_init', (ERROR, BAD_ALLOC))
    old = E.load(l, st, ln)
    names = old.f['names']
    ety = old.f['types'].ety
    zero = E.to_term(string_array(E, ety, IntVal(0), TRUE), ety)
    good = SV(old.n, old.t, {
        'names': string_array(E, names.t, n, band(n == 0, E.fresh('no_slots', BoolSort()))),
        'types': Own(ety, n == 0, n, K(IntSort(), zero))})
    bad = SV(old.n, old.t, {
        'names': string_array(E, names.t, E.fresh_int('size', 0, 1 << 60), TRUE),
        'types': E.null_own(ety)})
    inited(st, l, r)
    E.store(l, E.merge_val(r == 0, good, bad), st, ln)
    return r


@H('rmw_names_and_types_fini')
def h_ntfini(E, st, e, args):
    note(E, 'rmw_names_and_types_fini: deallocates every name, every array of types and the '
            'buffers and zeroes the value')
    ln = e.get('l', 0)
    l = target(E, st, args[0], ln)
    v = E.load(l, st, ln)
    names, types = v.f['names'], v.f['types']
    emptied(st, l, band(bnot(types.null), types.ln > 0))
    sized(E, st, TRUE, names, ln, 'the names')
    size = names.f['size']
    E.oblige(st, Implies(size != 0, And(bnot(types.null), types.ln == size)),
             'as many arrays of types as names when released', ln, 'ownership')
    E.oblige(st, Implies(size == 0, types.null), 'no types without names when released', ln,
             'ownership')
    for i in getattr(E, 'points', []):
        x = E.from_term(sel(types.arr, i), types.ety)
        sized(E, st, And(0 <= i, i < types.ln, bnot(types.null)), x, ln, 'an array of types')
    z = SV(v.n, v.t, {'names': E.merge_val(names.f['data'].null, names, string_array(
        E, names.t, IntVal(0), TRUE)), 'types': E.null_own(types.ety)})
    h, E.own_hook = E.own_hook, None
    E.store(l, z, st, ln)
    E.own_hook = h
    return IntVal(0)


# ---------------------------------------------------------------- endpoint infos
@H('rmw_topic_endpoint_info_array_init_with_size')
def h_eiinit(E, st, e, args):
    note(E, 'rmw_topic_endpoint_info_array_init_with_size: on OK `size` zero-initialised elements; '
            'on failure the array is unchanged')
    ln = e.get('l', 0)
    l = target(E, st, args[0], ln)
    n = E.val(args[1], st)
    use_allocator(E, st, E.val(args[2], st), ln)
    r = failing(E, st, 'infos_init', (ERROR, BAD_ALLOC))
    old = E.load(l, st, ln)
    ety = old.f['info_array'].ety
    z = E.to_term(E.zero(ety), ety)
    good = SV(old.n, old.t, {'size': n, 'info_array': Own(ety, FALSE, n, K(IntSort(), z))})
    inited(st, l, r)
    E.store(l, E.merge_val(r == 0, good, old), st, ln)
    return r


def infos_fini(E, st, e, args):
    note(E, 'rmw_topic_endpoint_info_array_fini: OK; deallocates the strings of every element and '
            'the buffer and zeroes the array')
    ln = e.get('l', 0)
    l = target(E, st, args[0], ln) if not isinstance(args[0], Ptr) else E.deref(args[0], st, ln)
    v = E.load(l, st, ln)
    o = v.f['info_array']
    emptied(st, l, band(bnot(o.null), o.ln > 0))
    E.oblige(st, bimp(bnot(o.null), v.f['size'] == o.ln),
             'the size of the endpoint array matches its contents when released', ln, 'ownership')
    z = SV(v.n, v.t, {'size': IntVal(0), 'info_array': E.null_own(o.ety)})
    h, E.own_hook = E.own_hook, None
    E.store(l, z, st, ln)
    E.own_hook = h
    return IntVal(0)


STRSET = {'rmw_topic_endpoint_info_set_node_name': 'node_name',
          'rmw_topic_endpoint_info_set_node_namespace': 'node_namespace',
          'rmw_topic_endpoint_info_set_topic_type': 'topic_type'}


@H(*STRSET)
def h_setstr(E, st, e, args):
    q = e['f']['q']
    note(E, '%s: on OK stores a newly allocated copy (the old pointer is not released); on failure '
            'changes nothing' % q)
    ln = e.get('l', 0)
    l = target(E, st, args[0], ln).sub(('f', STRSET[q]))
    s = stdlib.s_of(E, E.val(args[1], st), st, ln)
    use_allocator(E, st, E.val(args[2], st), ln)
    r = failing(E, st, 'set_' + STRSET[q], (ERROR, BAD_ALLOC, INVALID))
    p = token(E, st, s, 'the %s string' % STRSET[q])
    st.store[E.tokens[-1][0]] = r == 0
    old = E.load(l, st, ln)
    E.store(l, bif(r == 0, p, E.as_cstr(old)), st, ln)
    return r


SET = {'rmw_topic_endpoint_info_set_topic_type_hash': 'topic_type_hash',
       'rmw_topic_endpoint_info_set_qos_profile': 'qos_profile',
       'rmw_topic_endpoint_info_set_endpoint_type': 'endpoint_type',
       'rmw_topic_endpoint_info_set_gid': 'endpoint_gid'}


@H(*SET)
def h_setval(E, st, e, args):
    q = e['f']['q']
    f = SET[q]
    note(E, '%s: on OK stores the value; on failure changes nothing' % q)
    ln = e.get('l', 0)
    l = target(E, st, args[0], ln).sub(('f', f))
    old = E.load(l, st, ln)
    if f == 'endpoint_type':
        v = E.val(args[1], st)
    elif f == 'endpoint_gid':
        n = ival(E.val(args[2], st))
        src, off, a = stdlib.fixed(E, E.val(args[1], st), n or 0, st, ln, 'gid')
        if n != old.n or off != 0 or a.n != old.n:
            v = E.fresh_val([fd for fd in E.rec_fields(E.p.rec_t['rmw_topic_endpoint_info_s'])
                             if fd['n'] == f][0]['t'], 'partial_gid')
        else:
            v = a
    else:
        v = E.load(target(E, st, args[1], ln), st, ln)
    r = failing(E, st, 'set_' + f, (ERROR, INVALID))
    E.store(l, E.merge_val(r == 0, v, old), st, ln)
    return r


@H('rmw_topic_endpoint_info_fini')
def h_eifini(E, st, e, args):
    note(E, 'rmw_topic_endpoint_info_fini: OK; deallocates the strings and zeroes the element')
    ln = e.get('l', 0)
    l = target(E, st, args[0], ln)
    v = E.load(l, st, ln)
    inside = own_walk(E, st.store[l.alts[0][1]], l.alts[0][2])[0]
    if not inside:
        for k in STRSET.values():
            release(E, st, E.as_cstr(v.f[k]), ln)
    h, E.own_hook = E.own_hook, None
    E.store(l, E.zero(v.t), st, ln)
    E.own_hook = h
    return IntVal(0)


@H('rmw_convert_rcutils_ret_to_rmw_ret')
def h_conv(E, st, e, args):
    note(E, 'rmw_convert_rcutils_ret_to_rmw_ret: OK, INVALID_ARGUMENT and BAD_ALLOC keep their '
            'meaning, everything else is an error')
    r = E.val(args[0], st)
    return bif(r == 0, IntVal(OK), bif(r == 10, IntVal(BAD_ALLOC), bif(
        r == 11, IntVal(INVALID), IntVal(ERROR))))


def pure_fn(E, name):
    """a std::function<std::string(const std::string &)> that is a pure function"""
    f = Function(name, E.Str, E.Str)

    def call(E, st, args):
        note(E, 'the demangle functions: pure functions of their argument that do not touch the '
                'graph')
        return f(E.aval(args[0], st))
    return Fn([(TRUE, Handler(name, call))]), f
