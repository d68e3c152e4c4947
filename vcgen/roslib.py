"""Assumed contracts of the ROS dependencies used by qos.cpp (rcutils, rmw, rosidl).

A char buffer handed to the formatted-append code is an object `cbuf` with ghosts
  n    size in bytes
  s    the untruncated text appended so far (Str); the buffer holds it cut to n-1 bytes and
       NUL-terminated (n >= 1, after the first initialisation)
  cnt  number of pieces appended
  ok   initialised (s meaningful)
Appending T at offset strlen(buffer) with all the remaining space keeps that relation:
cut(cut(S, n-1) . cut(T, n - |cut(S, n-1)| - 1), n-1) = cut(S . T, n-1).
"""
from .terms import *  # noqa
from .interp import *  # noqa
from . import stdlib
from .stdlib import H, TABLE, str_len, concat, lit_of


def cbuf(E, st, name, size):
    """a non-null buffer of `size` bytes with arbitrary content"""
    r = '%s' % name
    st.store[r] = Obj('cbuf', n=size, s=E.fresh('text0', E.Str), cnt=IntVal(0),
                      ok=FALSE)
    return r


def the_cbuf(E, p, st, line):
    """(guard alts collapsed) buffer root and index of a pointer into a char buffer"""
    if not isinstance(p, Ptr):
        raise Unsupported('text operation on %s' % type(p).__name__)
    live = [(g, x) for g, x in p.alts if x is None or E.feasible(st, g)]
    nulls = [g for g, x in live if x is None]
    if nulls:
        E.oblige(st, bnot(bor(*nulls)), 'pointer not null', line)
    live = [(g, x) for g, x in live if x is not None]
    if not live:
        raise Dead()
    if len({x[1] for g, x in live}) != 1 or any(x[0] != 'lv' for g, x in live):
        raise Unsupported('text operation on an ambiguous pointer')
    root = live[0][1][1]
    v = st.store.get(root)
    if not isinstance(v, Obj) or v.kind != 'cbuf':
        raise Unsupported('text operation on %s' % type(v).__name__)
    idx = None
    for g, x in live:
        if len(x[2]) != 1:
            raise Unsupported('text operation on a nested buffer')
        i = x[2][0][1]
        idx = i if idx is None else bif(g, i, idx)
    return root, v, idx


def cbuf_char(E, v, i):
    r = E.fresh_int('ch', -128, 127)
    if ival(i) == 0:
        E.fact(bimp(v.a['ok'], (r == 0) == bor(teq(v.a['s'], E.strlit('')),
                                               teq(v.a['n'], IntVal(1)))))
    return r


def cut_len(E, v):
    l = str_len(E, v.a['s'])
    m = isub(v.a['n'], IntVal(1))
    return bif(ile(l, m), l, m)


@H('strnlen')
def h_strnlen(E, st, e, args):
    ln = e.get('l', 0)
    root, v, i = the_cbuf(E, E.val(args[0], st), st, ln)
    n = E.val(args[1], st)
    E.oblige(st, ile(iadd(i, n), v.a['n']), 'string read stays within the buffer', ln)
    if ival(i) != 0:
        raise Unsupported('strnlen inside a buffer')
    l = cut_len(E, v)
    r = bif(ile(l, n), l, n)
    if E.valid(st, v.a['ok']):
        return r
    x = E.fresh_int('strnlen', 0)       # of arbitrary bytes
    E.fact(ile(x, n))
    return bif(v.a['ok'], r, x)


@H('strlen', 'std::strlen')
def h_strlen(E, st, e, args):
    p = E.val(args[0], st)
    if isinstance(p, Ptr) and any(x and x[0] == 'lv' for g, x in p.alts):
        root, v, i = the_cbuf(E, p, st, e.get('l', 0))
        E.oblige(st, band(v.a['ok'], ilt(IntVal(0), v.a['n'])),
                 'string read of a terminated buffer', e.get('l', 0))
        if ival(i) != 0:
            raise Unsupported('strlen inside a buffer')
        return cut_len(E, v)
    return str_len(E, stdlib.s_of(E, p, st, e.get('l', 0)))


def render(E, st, fmt, vals):
    """text produced by a format with %s arguments only"""
    text = lit_of(E, fmt)
    if text is None:
        raise Unsupported('formatting with a non-literal format')
    t = text.replace('%%', '\0')
    parts = t.split('%s')
    if any('%' in x for x in parts) or len(parts) - 1 > len(vals):
        raise Unsupported('format %r' % text)
    if len(parts) == 1:
        return E.strlit(text.replace('%%', '%'))
    ss = [stdlib.s_of(E, v, st) for v in vals[:len(parts) - 1]]
    f = Function('fmt$' + ''.join(c if c.isalnum() else '_' for c in text),
                 *([E.Str] * (len(ss) + 1)))
    r = f(*ss)
    n = IntVal(len(t.replace('%s', '').encode()))
    for s in ss:
        n = n + str_len(E, s)
    E.fact(str_len(E, r) == n)
    return r


@H('__builtin_va_start', '__builtin_va_end', '__builtin_va_copy')
def h_va(E, st, e, args):
    return None


def append_text(E, st, p, w, t, ln, may_fail):
    """formatted write of text t through p with room for w bytes; returns the int result"""
    wn = simplify(w) if isinstance(w, ExprRef) else IntVal(w)
    if ival(wn) == 0:
        return bif(may_fail, IntVal(-1), str_len(E, t))
    root, v, i = the_cbuf(E, p, st, ln)
    E.oblige(st, band(ile(IntVal(0), i), ile(iadd(i, w), v.a['n'])),
             'formatted write stays within the buffer', ln)
    here = E.valid(st, band(v.a['ok'], teq(i, cut_len(E, v)), teq(w, isub(v.a['n'], i)),
                            ilt(IntVal(0), v.a['n'])))
    start = not here and E.valid(st, band(teq(i, IntVal(0)), teq(w, v.a['n']),
                                          ilt(IntVal(0), v.a['n'])))
    if start:
        s2, c2 = t, IntVal(1)
    elif here:
        s2 = concat(E, v.a['s'], t)
        E.fact(str_len(E, s2) == str_len(E, v.a['s']) + str_len(E, t), st)
        E.fact(bimp(teq(v.a['s'], E.strlit('')), teq(s2, t)), st)
        c2 = iadd(v.a['cnt'], IntVal(1))
    else:                               # not an append at the end: some text, if anything is written
        other = Obj('cbuf', n=v.a['n'], s=E.fresh('text', E.Str), cnt=E.fresh_int('cnt', 0),
                    ok=TRUE)
        st.store[root] = E.merge_val(ilt(IntVal(0), w), other, v)
        return bif(may_fail, IntVal(-1), str_len(E, t))
    bad = Obj('cbuf', n=v.a['n'], s=E.fresh('partial', E.Str), cnt=E.fresh_int('cnt', 0),
              ok=TRUE)
    good = Obj('cbuf', n=v.a['n'], s=s2, cnt=c2, ok=TRUE)
    st.store[root] = E.merge_val(may_fail, bad, good)
    return bif(may_fail, IntVal(-1), str_len(E, t))


def fmt_fail(E, st):
    """whether this formatting call fails (recorded in the ghost $fmtfail)"""
    if not getattr(E, 'fmt_can_fail', False):
        return FALSE
    b = E.fresh('fmtfail', BoolSort())
    st.store['$fmtfail'] = bor(st.store.get('$fmtfail', FALSE), b)
    return b


@H('rcutils_vsnprintf', 'vsnprintf', 'std::vsnprintf')
def h_vsnprintf(E, st, e, args):
    E.assumed['rcutils_vsnprintf: C99 vsnprintf on text; writes at most the given size, '
              'NUL-terminates when the size is not 0 (also on failure), returns the untruncated '
              'length or a negative value'] = 1
    ln = e.get('l', 0)
    p, w = E.val(args[0], st), E.val(args[1], st)
    fmt = stdlib.s_of(E, E.val(args[2], st), st, ln)
    vals = [E.aval(a, st) if isinstance(a, LV) else a for a in E.fr.varargs]
    return append_text(E, st, p, w, render(E, st, fmt, vals), ln, fmt_fail(E, st))


@H('rcutils_snprintf', 'snprintf', 'std::snprintf')
def h_snprintf(E, st, e, args):
    ln = e.get('l', 0)
    p, w = E.val(args[0], st), E.val(args[1], st)
    fmt = stdlib.s_of(E, E.val(args[2], st), st, ln)
    vals = [E.val(a, st) for a in args[3:]]
    return append_text(E, st, p, w, render(E, st, fmt, vals), ln, fmt_fail(E, st))


@H('rmw_qos_reliability_policy_to_str', 'rmw_qos_durability_policy_to_str',
   'rmw_qos_liveliness_policy_to_str', 'rmw_qos_history_policy_to_str')
def h_polstr(E, st, e, args):
    E.assumed['rmw_qos_*_policy_to_str: null or a static string, a function of the policy'] = 1
    f = Function(e['f']['q'], IntSort(), E.CStr)
    return f(E.val(args[0], st))


@H('rmw_get_zero_initialized_topic_endpoint_info_array',
   'rmw_get_zero_initialized_topic_endpoint_info', 'rmw_get_zero_initialized_names_and_types',
   'rcutils_get_zero_initialized_string_array', 'rosidl_get_zero_initialized_type_hash')
def h_zero(E, st, e, args):
    E.assumed['%s: all members zero/null' % e['f']['q']] = 1
    return E.zero(e['t'])


# ------------------------------------------------------------------------------ owned memory
def token(E, st, text, what):
    """a newly allocated C string owned by the caller until it is released"""
    p = E.fresh(what, E.CStr)
    E.fact(bnot(E.is_cnull(p)))
    E.fact(E.cstr_of(p) == text)
    if not hasattr(E, 'tokens'):
        E.tokens = []
    key = '$tok:%d' % len(E.tokens)
    E.tokens.append((key, p, what))
    st.store[key] = TRUE
    return p


def leaves_of(v):
    """(condition, leaf) alternatives of an if-then-else term"""
    if is_app_of(v, Z3_OP_ITE):
        return [(band(v.arg(0), g), x) for g, x in leaves_of(v.arg(1))] + \
            [(band(bnot(v.arg(0)), g), x) for g, x in leaves_of(v.arg(2))]
    return [(TRUE, v)]


def release(E, st, v, line):
    """deallocate(v): null, or a live token"""
    if isinstance(v, Ptr):
        if all(x is None for g, x in v.alts):
            return
        v = E.as_cstr(v)
    for g, x in leaves_of(v):
        if is_true(E.is_cnull(x)):
            continue
        for key, p, what in getattr(E, 'tokens', []):
            if x.eq(p):
                live = st.store.get(key, FALSE)
                E.oblige(st, bimp(g, live), '%s is released at most once' % what, line, 'ownership')
                st.store[key] = band(live, bnot(g))
                break
        else:
            E.oblige(st, bor(bnot(g), E.is_cnull(x)), 'only owned memory is released', line,
                     'ownership')


def read_cstr(E, st, v, line):
    for g, x in leaves_of(v):
        for key, p, what in getattr(E, 'tokens', []):
            if x.eq(p):
                E.oblige(st, bimp(g, st.store.get(key, FALSE)),
                         '%s is not used after its release' % what, line, 'ownership')


def default_allocator(E, t):
    """value of rcutils_get_default_allocator()"""
    def dealloc(E, st, args):
        release(E, st, E.aval(args[0], st), 0)
        return None

    def other(E, st, args):
        raise Unsupported('allocation through the default allocator')
    T = E.rec_fields(t)
    f = {}
    for fd in T:
        n = fd['n']
        if n == 'state':
            f[n] = E.opq_null
        else:
            f[n] = Fn([(TRUE, Handler(n, dealloc if n == 'deallocate' else other))])
    return SV(E.p.rec(t), E.p.deref(t), f)


@H('rcutils_get_default_allocator')
def h_defalloc(E, st, e, args):
    E.assumed['rcutils_get_default_allocator: a valid allocator; its deallocate releases what '
              'was obtained from it and ignores null'] = 1
    E.handlers['!read_cstr'] = read_cstr
    return default_allocator(E, e['t'])


# ------------------------------------------------------------------------------ type hashes
def hash_term(E, v, t):
    return E.to_term(v, t)


def hash_text(E, t):
    return Function('rosidl_stringify', E.sort(t), E.Str)


def hash_parse(E, t):
    return (Function('rosidl_parse_ok', E.Str, BoolSort()),
            Function('rosidl_parse', E.Str, E.sort(t)))


@H('rosidl_stringify_type_hash')
def h_stringify(E, st, e, args):
    E.assumed['rosidl_stringify_type_hash: on OK stores a newly allocated string, a function of '
              'the hash; on failure allocates nothing'] = 1
    ln = e.get('l', 0)
    src = E.deref(E.val(args[0], st), st, ln)
    v = E.load(src, st, ln)
    E.val(args[1], st)
    out = E.deref(E.val(args[2], st), st, ln)
    text = hash_text(E, v.t)(E.to_term(v, v.t))
    ret = E.fresh_int('stringify_ret', -(1 << 31), (1 << 31) - 1)
    # failures that mean "allocation failed" are reported as BAD_ALLOC
    st.store['$strret'] = ret
    st.store['$strcalls'] = iadd(st.store.get('$strcalls', IntVal(0)), IntVal(1))
    tok = token(E, st, text, 'the hash string')
    st.store[E.tokens[-1][0]] = ret == 0
    old = E.load(out, st, ln)
    old = E.as_cstr(old) if isinstance(old, Ptr) else old
    E.store(out, bif(ret == 0, tok, old), st, ln)
    return ret


@H('rosidl_parse_type_hash_string')
def h_hparse(E, st, e, args):
    E.assumed['rosidl_parse_type_hash_string: OK exactly for well-formed strings, then the hash '
              'is a function of the string'] = 1
    ln = e.get('l', 0)
    s = stdlib.s_of(E, E.val(args[0], st), st, ln)
    out = E.deref(E.val(args[1], st), st, ln)
    t = E.load(out, st, ln).t
    ok, val = hash_parse(E, t)
    bad = E.fresh_int('parse_err', 1, (1 << 31) - 1)
    part = E.fresh_val(t, 'partial_hash')
    E.store(out, E.merge_val(ok(s), E.from_term(val(s), t), part), st, ln)
    return bif(ok(s), IntVal(0), bad)


def kv_parse(E, m_t, seqsort):
    T = E.T(m_t)
    kt, vt = T['args'][0]['t'], T['args'][1]['t']
    return (Function('kv_dom', seqsort, ArraySort(E.sort(kt), BoolSort())),
            Function('kv_val', seqsort, ArraySort(E.sort(kt), E.sort(vt))), kt, vt)


@H('rmw::impl::cpp::parse_key_value')
def h_kv(E, st, e, args):
    E.assumed['rmw::impl::cpp::parse_key_value: a function of the bytes; "k=v;" with plain k and '
              'v maps exactly k to v'] = 1
    v = E.as_seq(E.val(args[0], st))
    t = E.p.deref(e['t'])
    sort = E.seq_sort(v.ety)
    dom, val, kt, vt = kv_parse(E, t, sort)
    term = sort.constructor(0)(v.ln, v.arr)
    return Map(t, kt, vt, dom(term), val(term))


def text_of(E, sort):
    return Function('bytes_text', sort, E.Str)


def string_range(E, st, e, vs):
    """std::string(first, last) over a byte vector, or (pointer, length)"""
    if len(vs) == 2 and isinstance(vs[0], VecIt) and isinstance(vs[1], VecIt):
        s = E.as_seq(E.peek(vs[0].lv, st))
        w = stdlib.slice_seq(E, s, vs[0].idx, vs[1].idx) if not (
            ival(vs[0].idx) == 0 and teq(vs[1].idx, s.ln).eq(TRUE)) else s
        sort = E.seq_sort(s.ety)
        term = sort.constructor(0)(w.ln, w.arr)
        return text_of(E, sort)(term)
    raise Unsupported('string constructor')


stdlib.TABLE['!string_range'] = string_range


@H('rmw_topic_endpoint_info_array_fini')
def h_eifini(E, st, e, args):
    h = E.handlers.get('!infos_fini')
    if h is None:
        raise Unsupported('rmw_topic_endpoint_info_array_fini')
    return h(E, st, e, args)
