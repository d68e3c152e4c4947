"""Contracts of the C++ standard library and of the ROS 2 dependencies, as symbolic transformers.

Everything here is assumed (trusted): the standard library according to ISO C++17, the ROS
dependencies according to the contracts stated next to each handler.
"""
from .terms import *  # noqa
from .interp import *  # noqa

TABLE = {}


def H(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
            if n.startswith('std::basic_string::'):
                if not n.endswith(('::data', '::(conv)', '::c_str')):
                    # (a view's data() need not be terminated)
                    TABLE.setdefault(n.replace('::basic_string::', '::basic_string_view::'), f)
        return f
    return d


def install(E):
    E.handlers.update(TABLE)


def obj(E, e, st):
    return E.obj_lv(e, st)


# --------------------------------------------------------------------------------- misc
@H('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::ref', 'std::cref')
def h_move(E, st, e, args):
    if e['f']['q'] == 'std::addressof':
        return lvptr(E.lv(args[0], st))
    if len(args) == 3:                  # the algorithm std::move(first, last, out)
        return h_copy(E, st, e, args)
    if len(args) != 1:
        raise Unsupported(e['f']['q'])
    return E.actual(args[0], st)


@H('__assert_fail')
def h_assert(E, st, e, args):
    E.oblige(st, FALSE, 'assertion cannot fail', e.get('l', 0))
    raise Dead()


@H('abort', 'std::terminate', 'std::abort', 'exit', 'std::exit')
def h_abort(E, st, e, args):
    E.oblige(st, FALSE, 'program does not terminate here', e.get('l', 0))
    raise Dead()


@H('std::min', 'std::max')
def h_minmax(E, st, e, args):
    a, b = E.val(args[0], st), E.val(args[1], st)
    comp = as_fn(E, E.val(args[2], st), st) if len(args) > 2 else None
    x, y = (b, a) if e['f']['q'] == 'std::min' else (a, b)
    c = val_less(E, x, y, st, comp)
    return E.merge_val(c, b, a)


def val_less(E, a, b, st, comp=None):
    """a < b, or comp(a, b)"""
    if comp is not None:
        if isinstance(comp, Obj) and comp.kind == 'std::less':
            return val_less(E, a, b, st)
        if isinstance(comp, Obj) and comp.kind == 'std::greater':
            return val_less(E, b, a, st)
        v = E.call_fn(comp, [a, b], st)
        return v if is_bool(v) else bnot(teq(v, IntVal(0)))
    if isinstance(a, LV):
        a = E.load(a, st)
    if isinstance(b, LV):
        b = E.load(b, st)
    if isinstance(a, ExprRef) and isinstance(b, ExprRef) and is_int(a) and is_int(b):
        return ilt(a, b)
    if isinstance(a, ExprRef) and isinstance(b, ExprRef) and is_bool(a) and is_bool(b):
        return band(bnot(a), b)
    if isinstance(a, SV) and isinstance(b, SV) and a.n == b.n and \
            a.n in ('std::tuple', 'std::pair'):
        r = FALSE
        for k in reversed(list(a.f)):
            r = bor(val_less(E, a.f[k], b.f[k], st),
                    band(bnot(val_less(E, b.f[k], a.f[k], st)), r))
        return r
    if isinstance(a, ExprRef) and isinstance(b, ExprRef) and a.sort() == b.sort() == E.Str:
        if E.Str == StringSort():
            return a < b
        f = Function('str<', E.Str, E.Str, BoolSort())
        E.fact(bnot(band(f(a, b), f(b, a))))
        E.fact(bor(f(a, b), f(b, a), teq(a, b)))
        return f(a, b)
    raise Unsupported('order of %s' % type(a).__name__)


@H('std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=')
def h_less(E, st, e, args):
    q = e['f']['q']
    a, b = E.val(e['args'][0], st), E.val(e['args'][1], st)
    if is_it(a) or is_it(b):
        return E.binop(q[len('std::operator'):], a, b, e['t'], st)
    if q in ('std::operator>', 'std::operator<='):
        a, b = b, a
    c = val_less(E, a, b, st)
    return bnot(c) if q.endswith('=') else c


@H('std::exchange')
def h_exchange(E, st, e, args):
    l = E.lv(args[0], st)
    old = E.load(l, st, e.get('l', 0))
    v = E.actual(args[1], st)
    E.store(l, E.aval(v, st), st, e.get('l', 0))
    return old


@H('std::clamp')
def h_clamp(E, st, e, args):
    v, lo, hi = [E.val(a, st) for a in args[:3]]
    comp = as_fn(E, E.val(args[3], st), st) if len(args) > 3 else None
    return E.merge_val(val_less(E, v, lo, st, comp), lo,
                       E.merge_val(val_less(E, hi, v, st, comp), hi, v))


@H('rcutils_set_error_state', 'rcutils_reset_error', 'rcutils_stub_log', 'rmw_reset_error')
def h_seterr(E, st, e, args):
    E.assumed['%s: no effect on the verified state' % e['f']['q']] = 1
    for a in args:
        if not E.is_charptr(a['t']) and a['k'] != 'SourceLocExpr':
            try:
                E.actual(a, st)
            except Unsupported:
                pass
    return None


@H('rcutils_get_error_string')
def h_geterr(E, st, e, args):
    return E.default(e['t'], st) if not E.glv(e) else E.temp(E.default(e['t'], st), st)


# --------------------------------------------------------------------------------- raw memory
def region(E, p):
    """pointer -> (LV of the array object, index term)"""
    if isinstance(p, VecIt):
        return p.lv, p.idx
    if not isinstance(p, Ptr) or len(p.alts) != 1:
        raise Unsupported('memory function on an ambiguous pointer')
    g, x = p.alts[0]
    if x is None or x[0] != 'lv':
        raise Unsupported('memory function on an opaque pointer')
    path = x[2]
    if path and path[-1][0] == 'i':
        return LV([(TRUE, x[1], path[:-1])]), path[-1][1]
    return LV([(TRUE, x[1], path)]), IntVal(0)


def nonnull(E, p, st, line):
    if isinstance(p, Ptr):
        n = bor(*[g for g, x in p.alts if x is None])
        if not is_false(n):
            E.oblige(st, bnot(n), 'pointer not null', line)
            alts = [(g, x) for g, x in p.alts if x is not None]
            if not alts:
                raise Dead()
            return Ptr([(TRUE, alts[0][1])] if len(alts) == 1 else alts)
    return p


def fixed(E, p, n, st, line, what):
    """n bytes at p as a list of terms; n concrete; region must be a fixed byte array"""
    l, off = region(E, p)
    a = E.load(l, st, line)
    o = ival(off)
    if isinstance(a, SV) and a.n == 'std::array':
        raise Unsupported('std::array of non-bytes')
    if not isinstance(a, Arr) or o is None:
        raise Unsupported('%s on %s' % (what, type(a).__name__))
    E.oblige(st, BoolVal(0 <= o and o + n <= a.n), '%s stays within the array' % what, line)
    if not (0 <= o and o + n <= a.n):
        raise Dead()
    return l, o, a


@H('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy')
def h_memcpy(E, st, e, args):
    ln = e.get('l', 0)
    d = nonnull(E, E.val(args[0], st), st, ln)
    s = nonnull(E, E.val(args[1], st), st, ln)
    n = ival(E.val(args[2], st))
    if n is None:
        raise Unsupported('memcpy of symbolic size')
    dl, do, da = fixed(E, d, n, st, ln, 'memcpy')
    sl, so, sa = fixed(E, s, n, st, ln, 'memcpy')
    copy_arr(E, dl, do, da, sl, so, sa, n, st, ln)
    return d


def copy_arr(E, dl, do, da, sl, so, sa, n, st, ln):
    if do == 0 and so == 0 and n == da.n == sa.n:
        E.store(dl, sa, st, ln)
    else:
        xs, ys = E.arr_items(da), E.arr_items(sa)
        xs[do:do + n] = ys[so:so + n]
        E.store(dl, Arr(da.n, items=xs), st, ln)


@H('memset', 'std::memset')
def h_memset(E, st, e, args):
    ln = e.get('l', 0)
    d = nonnull(E, E.val(args[0], st), st, ln)
    c, n = ival(E.val(args[1], st)), ival(E.val(args[2], st))
    if n is None or c is None:
        raise Unsupported('memset of symbolic size')
    dl, do, da = fixed(E, d, n, st, ln, 'memset')
    xs = E.arr_items(da)
    xs[do:do + n] = [IntVal(c & 255)] * n
    E.store(dl, Arr(da.n, items=xs), st, ln)
    return d


def lex(xs, ys):
    """(xs < ys, xs == ys) for term lists of equal length"""
    lt, eq = FALSE, TRUE
    for a, b in reversed(list(zip(xs, ys))):
        c = teq(a, b)
        lt = bor(ilt(a, b), band(c, lt))
        eq = band(c, eq)
    return lt, eq


def arr_eq(E, a, b):
    if a.items is None and b.items is None or E.opaque_bytes:
        return teq(E.arr_term(a), E.arr_term(b))
    return band(*[teq(x, y) for x, y in zip(E.arr_items(a), E.arr_items(b))])


@H('memcmp', 'std::memcmp', '__builtin_memcmp')
def h_memcmp(E, st, e, args):
    ln = e.get('l', 0)
    p = nonnull(E, E.val(args[0], st), st, ln)
    q = nonnull(E, E.val(args[1], st), st, ln)
    n = ival(E.val(args[2], st))
    if n is None:
        raise Unsupported('memcmp of symbolic size')
    pl, po, pa = fixed(E, p, n, st, ln, 'memcmp')
    ql, qo, qa = fixed(E, q, n, st, ln, 'memcmp')
    r = E.fresh_int('memcmp', -(1 << 31), (1 << 31) - 1)
    if E.opaque_bytes and n == pa.n == qa.n:
        E.fact((r == 0) == arr_eq(E, pa, qa))
        return r
    xs, ys = E.arr_items(pa)[po:po + n], E.arr_items(qa)[qo:qo + n]
    lt, eq = lex(xs, ys)
    E.fact((r == 0) == eq)
    E.fact((r < 0) == lt)
    return r


@H('std::lexicographical_compare')
def h_lex(E, st, e, args):
    ln = e.get('l', 0)
    ps = [E.val(a, st) for a in args[:4]]
    xs, ys = frange(E, ps[0], ps[1], st, ln), frange(E, ps[2], ps[3], st, ln)
    comp = E.val(args[4], st) if len(args) > 4 else None

    def less(a, b):
        if comp is None:
            return ilt(a, b)
        if isinstance(comp, Obj) and comp.kind in ('std::less', 'std::greater'):
            return ilt(a, b) if comp.kind == 'std::less' else ilt(b, a)
        return E.call_fn(comp, [a, b], st)
    r = BoolVal(len(xs) < len(ys))
    for a, b in reversed(list(zip(xs, ys))):
        l, g = less(a, b), less(b, a)
        r = bor(l, band(bnot(g), r))
    return r


def frange(E, p, q, st, ln):
    """terms of a concrete range [p, q) of a fixed byte array"""
    (l, i), (l2, j) = region(E, p), region(E, q)
    if l.key() != l2.key():
        raise Unsupported('range over two arrays')
    a = E.load(l, st, ln)
    i, j = ival(i), ival(j)
    if not isinstance(a, Arr) or i is None or j is None:
        raise Unsupported('range over %s' % type(a).__name__)
    ok = 0 <= i <= j <= a.n
    E.oblige(st, BoolVal(ok), 'range within the array', ln)
    if not ok:
        raise Dead()
    return E.arr_items(a)[i:j]


def is_bytes(E, p, st):
    try:
        l, i = region(E, p)
        return isinstance(E.peek(l, st), Arr)
    except Unsupported:
        return False


@H('std::equal')
def h_equal(E, st, e, args):
    ln = e.get('l', 0)
    ps = [E.val(a, st) for a in args]
    if not is_bytes(E, ps[0], st):
        raise Unsupported('std::equal')
    xs = frange(E, ps[0], ps[1], st, ln)
    l, i = region(E, ps[2])
    ps2 = ps[3] if len(ps) > 3 and isinstance(ps[3], (Ptr, VecIt)) else \
        E.ptr_add(ps[2], IntVal(len(xs)), st, ln)
    ys = frange(E, ps[2], ps2, st, ln)
    if len(xs) != len(ys):
        return FALSE
    if E.opaque_bytes and len(xs) == 16:
        return arr_eq(E, E.load(region(E, ps[0])[0], st), E.load(l, st))
    return band(*[teq(a, b) for a, b in zip(xs, ys)])


@H('std::mismatch')
def h_mismatch(E, st, e, args):
    ln = e.get('l', 0)
    ps = [E.val(a, st) for a in args]
    if not is_bytes(E, ps[0], st) or not is_bytes(E, ps[2], st) or len(ps) > 4:
        raise Unsupported('std::mismatch')
    comp = ps.pop() if len(ps) == 4 and not isinstance(ps[3], (Ptr, VecIt)) else None
    if comp is not None:
        raise Unsupported('std::mismatch')
    xs = frange(E, ps[0], ps[1], st, ln)
    end = ps[3] if len(ps) > 3 else E.ptr_add(ps[2], IntVal(len(xs)), st, ln)
    ys = frange(E, ps[2], end, st, ln)
    n = min(len(xs), len(ys))
    i = IntVal(n)
    for j in range(n - 1, -1, -1):
        i = bif(teq(xs[j], ys[j]), i, IntVal(j))
    t = E.p.deref(e['t'])
    return SV('std::pair', t, {'first': E.ptr_add(ps[0], i, st, ln),
                               'second': E.ptr_add(ps[2], i, st, ln)})


@H('std::back_inserter')
def h_back_inserter(E, st, e, args):
    return Obj('back_inserter', lv=E.lv(args[0], st))


def append(E, out, x, s, ln):
    l = out.a['lv']
    v = E.load(l, s, ln)
    E.store(l, seq_push(E, v, E.aval(x, s)), s, ln)


@H('std::transform')
def h_transform(E, st, e, args):
    from . import loops
    ln = e.get('l', 0)
    a, b = E.val(args[0], st), E.val(args[1], st)
    rng = mkrange(E, a, b, st)
    out = E.val(args[2], st)
    if len(args) != 4 or not (isinstance(out, Obj) and out.kind == 'back_inserter'):
        raise Unsupported('std::transform')
    p = as_fn(E, E.val(args[3], st), st)
    loops.run_range(E, st, rng, lambda s, el: append(E, out, E.call_fn(p, [el], s), s, ln), e)
    return out


@H('std::copy_if')
def h_copy_if(E, st, e, args):
    from . import loops
    ln = e.get('l', 0)
    a, b = E.val(args[0], st), E.val(args[1], st)
    rng = mkrange(E, a, b, st)
    out = E.val(args[2], st)
    if not (isinstance(out, Obj) and out.kind == 'back_inserter'):
        raise Unsupported('std::copy_if')
    p = as_fn(E, E.val(args[3], st), st)

    def body(s, el):
        c = E.call_fn(p, [el], s)
        y, n = s.fork(c), s.fork(bnot(c))
        outs = []
        if E.feasible(y):
            append(E, out, el, y, ln)
            outs.append((y, None))
        if E.feasible(n):
            outs.append((n, None))
        s.assign(E.merge(outs)[0])
    loops.run_range(E, st, rng, body, e)
    return out


def shift(E, ps, st, ln, moving):
    """copies (moves) the elements of [a, b) over those from d on; an element moved from has an
    unspecified value"""
    a, b, d = [x.idx for x in ps]
    sl, dl = ps[0].lv, ps[2].lv
    if ps[1].lv.key() != sl.key():
        raise Unsupported('range over two vectors')
    same = sl.key() == dl.key()
    src, dst = E.as_seq(E.load(sl, st, ln)), E.as_seq(E.load(dl, st, ln))
    n = isub(b, a)
    E.oblige(st, band(ile(IntVal(0), a), ile(a, b), ile(b, vlen(src))),
             'copied range is valid', ln)
    E.oblige(st, band(ile(IntVal(0), d), ile(iadd(d, n), vlen(dst))),
             'the destination has room', ln)
    if same:
        E.oblige(st, bor(teq(a, b), ilt(d, a), ile(b, d)), 'ranges may be copied forwards', ln)
    if same and moving and E.valid(st, band(teq(iadd(d, IntVal(1)), a), teq(b, vlen(src)))):
        # what erasing position d does, the last element keeping an unspecified value
        E.store(dl, Seq(dst.ety, dst.ln, seq_erase(E, src, d).arr), st, ln)
        return VecIt(dl, iadd(d, n))
    if moving:
        raise Unsupported('std::move of a range')
    c = E.caches.setdefault('shift', {})
    key = (src.arr.get_id(), dst.arr.get_id(), a.get_id(), b.get_id(), d.get_id())
    if key not in c:
        j = Int('j!sh')
        c[key] = (src.arr, dst.arr, a, b, d, Lambda([j], If(
            And(d <= j, j < d + n), src.arr[j - d + a], dst.arr[j])))
    E.interested(seqtag(E, dst), d)
    E.store(dl, Seq(dst.ety, dst.ln, c[key][-1]), st, ln)
    return VecIt(dl, iadd(d, n))


@H('std::copy', 'std::copy_n')
def h_copy(E, st, e, args):
    ln = e.get('l', 0)
    ps = [E.val(a, st) for a in args]
    if len(ps) == 3 and all(isinstance(x, VecIt) for x in ps) and \
            e['f']['q'] in ('std::copy', 'std::move'):
        return shift(E, ps, st, ln, e['f']['q'] == 'std::move')
    if isinstance(ps[-1], Obj) and ps[-1].kind == 'back_inserter' and len(ps) == 3 and \
            e['f']['q'] == 'std::copy':
        from . import loops
        if isinstance(ps[0], VecIt) and isinstance(ps[1], VecIt) and \
                ps[0].lv.key() == ps[1].lv.key() != ps[2].a['lv'].key():
            a, b = ps[0].idx, ps[1].idx
            src = E.peek(ps[0].lv, st)
            v = E.load(ps[2].a['lv'], st, ln)
            E.oblige(st, band(ile(IntVal(0), a), ile(a, b), ile(b, vlen(src))),
                     'copied range is valid', ln)
            E.store(ps[2].a['lv'], seq_concat(E, v, src, a, b), st, ln)
        else:
            loops.run_range(E, st, mkrange(E, ps[0], ps[1], st),
                            lambda s, el: append(E, ps[2], E.load(el, s), s, ln), e)
        return ps[2]
    if e['f']['q'] == 'std::move':
        raise Unsupported('std::move of a range')
    sl, so = region(E, ps[0])
    if e['f']['q'] == 'std::copy_n':
        n = ival(ps[1])
    else:
        l2, so2 = region(E, ps[1])
        n = ival(isub(so2, so))
    if n is None or not is_bytes(E, ps[0], st) or not is_bytes(E, ps[2], st):
        raise Unsupported('std::copy')
    sl, so, sa = fixed(E, ps[0], n, st, ln, 'copy')
    dl, do, da = fixed(E, ps[2], n, st, ln, 'copy')
    copy_arr(E, dl, do, da, sl, so, sa, n, st, ln)
    return E.ptr_add(ps[2], IntVal(n), st, ln)


@H('std::array::data', 'std::array::begin', 'std::array::cbegin')
def h_arrdata(E, st, e, args):
    return lvptr(obj(E, e, st).sub(('i', IntVal(0))))


@H('std::array::end', 'std::array::cend')
def h_arrend(E, st, e, args):
    l = obj(E, e, st)
    return lvptr(l.sub(('i', IntVal(alen(E, l, st)))))


def alen(E, l, st):
    a = E.peek(l, st)
    return a.n if isinstance(a, Arr) else len(a.items)


@H('std::array::size')
def h_arrsize(E, st, e, args):
    return IntVal(alen(E, obj(E, e, st), st))


@H('std::array::operator[]', 'std::array::at')
def h_arridx(E, st, e, args):
    return obj(E, e, st).sub(('i', E.val(args[0], st)))


@H('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::size')
def h_begin(E, st, e, args):
    l = E.lv(args[0], st)
    v = E.peek(l, st)
    q = e['f']['q'].split('::')[1].lstrip('c')
    if isinstance(v, Arr) or isinstance(v, CSeq) and E.T(E.p.deref(args[0]['t']))['k'] == 'array':
        n = v.n if isinstance(v, Arr) else len(v.items)
        if q == 'size':
            return IntVal(n)
        return lvptr(l.sub(('i', IntVal(0 if q == 'begin' else n))))
    return c_begin(E, l, v) if q == 'begin' else c_end(E, l, v) if q == 'end' else c_size(E, v)


# --------------------------------------------------------------------------------- containers
class Enum:
    """enumeration of a set/map domain: size and the key at each rank in iteration order"""
    __slots__ = ('n', 'at', 'idx', 'dom')


def enum(E, dom, ks):
    c = E.caches.setdefault('enum', {})
    if dom.get_id() in c:
        return c[dom.get_id()][1]
    r = Enum()
    r.dom = dom
    tag = 'rank:' + ks.name()
    if is_app_of(dom, Z3_OP_CONST_ARRAY) and is_false(dom.arg(0)):
        r.n = IntVal(0)
        k0 = E.const('nokey', ks)
        r.at = lambda i: k0
        r.idx = lambda k: IntVal(0)
    elif is_app_of(dom, Z3_OP_ITE):
        a, b = enum(E, dom.arg(1), ks), enum(E, dom.arg(2), ks)
        g = dom.arg(0)
        r.n = bif(g, a.n, b.n)
        r.at = lambda i: bif(g, a.at(i), b.at(i))
        r.idx = lambda k: bif(g, a.idx(k), b.idx(k))
    else:
        # the order of an ordered container is a function of its content
        ds = dom.sort()
        nm = ks.name() + ('' if ds.range() == BoolSort() else '?')
        at = Function('keyAt$' + nm, ds, IntSort(), ks)
        idx = Function('idxOf$' + nm, ds, ks, IntSort())
        r.at = lambda i: at(dom, i)
        r.idx = lambda k: idx(dom, k)
        r.n = Function('card$' + nm, ds, IntSort())(dom)
        E.range(r.n, 0, 1 << 60)
        if is_app_of(dom, Z3_OP_STORE):
            b = enum(E, dom.arg(0), ks)
            was = sel(dom.arg(0), dom.arg(1))
            if is_true(dom.arg(2)):
                E.fact(r.n == iadd(b.n, bif(was, IntVal(0), IntVal(1))))
            else:
                E.fact(r.n == isub(b.n, bif(was, IntVal(1), IntVal(0))))
        n = r.n
        c[dom.get_id()] = (dom, r)
        E.forall(tag, lambda i: bimp(And(0 <= i, i < n),
                                     band(sel(dom, r.at(i)), r.idx(r.at(i)) == i)))
        want_rank(E, IntVal(0), ks)
        E.forall('key:' + ks.name(), lambda k: bimp(sel(dom, k), And(
            r.idx(k) >= 0, r.idx(k) < n, r.at(r.idx(k)) == k)))
    c[dom.get_id()] = (dom, r)
    return r


def want_key(E, k):
    E.interested('key:' + k.sort().name(), k)


def want_rank(E, i, ks):
    E.interested('rank:' + ks.name(), i)


def dom_of(E, v):
    """(dom term, key sort)"""
    if isinstance(v, CMap):
        v = E.as_map(v)
    return v.dom, v.dom.sort().domain()


def seqtag(E, v):
    return 'idx:' + E.p.cs(v.ety)


def lit_of(E, t):
    """text of a string literal term"""
    if is_string_value(t):
        return t.as_string()
    return getattr(E, 'lit_text', {}).get(t.get_id())


def cmap_begin(E, l, v):
    """begin() of a table with literal keys.  Unordered: an arbitrary permutation perm(0..n-1),
    explored by cases in loops.generic; ordered: the literals' byte order"""
    n = len(v.items)
    if E.p.rec(v.t) != 'std::unordered_map':
        if not all(lit_of(E, k) is not None for k, _ in v.items):
            raise Unsupported('iteration over an ordered table')
        s = sorted(v.items, key=lambda x: lit_of(E, x[0]).encode('latin-1', 'replace'))
        if [x[0].get_id() for x in s] != [x[0].get_id() for x in v.items]:
            raise Unsupported('ordered table not in key order')
        return Obj('cmapit', lv=l, i=0, perm=None, cur=None)
    if n < 2:
        return Obj('cmapit', lv=l, i=0, perm=None, cur=None)
    key = ('perm', l.key(), tuple(k.get_id() for k, _ in v.items))
    c = E.caches.setdefault('perm', {})
    if key not in c:
        ps = [E.fresh_int('perm', 0, n - 1) for _ in range(n)]
        E.fact(Distinct(*ps))
        c[key] = (ps, l, v)
    return Obj('cmapit', lv=l, i=0, perm=c[key][0], cur=None)


def c_begin(E, l, v):
    if isinstance(v, (Seq, CSeq)):
        return VecIt(l, IntVal(0))
    if isinstance(v, (Map, SetV, CMap)):
        if isinstance(v, CMap):
            return cmap_begin(E, l, v)
        d, ks = dom_of(E, v)
        en = enum(E, d, ks)
        want_rank(E, IntVal(0), ks)
        return MapIt(l, teq(en.n, IntVal(0)), en.at(IntVal(0)))
    raise Unsupported('begin of %s' % type(v).__name__)


def c_end(E, l, v):
    if isinstance(v, Seq):
        return VecIt(l, v.ln)
    if isinstance(v, CSeq):
        return VecIt(l, IntVal(len(v.items)))
    if isinstance(v, CMap):
        return Obj('cmapit', lv=l, i=len(v.items), perm=None, cur=None)
    if isinstance(v, (Map, SetV)):
        d, ks = dom_of(E, v)
        return MapIt(l, TRUE, E.const('nokey', ks))
    raise Unsupported('end of %s' % type(v).__name__)


def c_size(E, v):
    if isinstance(v, Seq):
        return v.ln
    if isinstance(v, CSeq):
        return IntVal(len(v.items))
    if isinstance(v, CMap):
        return IntVal(len(v.items))
    if isinstance(v, (Map, SetV)):
        d, ks = dom_of(E, v)
        return enum(E, d, ks).n
    if isinstance(v, ExprRef) and v.sort().eq(E.Str):
        return str_len(E, v)
    raise Unsupported('size of %s' % type(v).__name__)


CONT = ['std::vector', 'std::map', 'std::set', 'std::unordered_map', 'std::initializer_list',
        'std::unordered_set']


def cm(*ms):
    return [c + '::' + m for c in CONT for m in ms]


def cload(E, e, st):
    l = obj(E, e, st)
    return l, E.load(l, st, e.get('l', 0))


@H(*cm('begin', 'cbegin'))
def h_cbegin(E, st, e, args):
    l, v = cload(E, e, st)
    return c_begin(E, l, v)


@H(*cm('end', 'cend'))
def h_cend(E, st, e, args):
    l, v = cload(E, e, st)
    return c_end(E, l, v)


@H(*cm('size'))
def h_csize(E, st, e, args):
    l, v = cload(E, e, st)
    return c_size(E, v)


@H(*cm('empty'))
def h_cempty(E, st, e, args):
    l, v = cload(E, e, st)
    return teq(c_size(E, v), IntVal(0))


@H(*cm('clear'))
def h_cclear(E, st, e, args):
    l, v = cload(E, e, st)
    E.store(l, E.default(E.p.deref(e['obj']['t'] if not e.get('arrow') else
                                   E.T(e['obj']['t'])['to'])), st, e.get('l', 0))
    return None


@H(*cm('reserve', 'shrink_to_fit'))
def h_reserve(E, st, e, args):
    l, v = cload(E, e, st)
    for a in args:
        E.val(a, st)
    return None


# ---- vector
def as_elem(E, st, args, ety, line):
    """value constructed in place from constructor arguments"""
    if len(args) == 1 and E.p.cs(E.p.deref(args[0]['t'])) == E.p.cs(ety):
        a = args[0]
        v = E.val(a, st)
        return v
    if not args:
        return E.default(ety, st)
    return build(E, ety, [E.actual(a, st) for a in args], st)


def build(E, t, acts, st):
    """construct a value of type t from actual arguments"""
    t = E.p.deref(t)
    n = E.p.rec(t)
    if len(acts) == 1:
        v = E.aval(acts[0], st)
        if n in STRINGS:
            return s_of(E, v, st)
        if n is None:
            return v
        if isinstance(v, SV) and v.n == n:
            return v
        if isinstance(v, (Seq, CSeq, Map, SetV, Arr)) and n.startswith('std::'):
            return v
    if not acts:
        return E.zero(t)
    if n and not n.startswith('std::'):
        # user constructor with that many parameters
        cands = [i for i, f in E.p.funcs.items() if f['q'] == n + '::(ctor)' and
                 len(f['params']) == len(acts) and f.get('body') is not None and f.get('ctor')]
        if len(cands) == 1:
            return E.run_ctor(cands[0], t, acts, st)
    raise Unsupported('in-place construction of %s from %d arguments' % (E.p.cs(t), len(acts)))


@H('std::vector::emplace_back', 'std::vector::push_back')
def h_push(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    ety = v.ety
    x = as_elem(E, st, args, ety, ln)
    v = E.load(l, st, ln)
    E.store(l, seq_push(E, v, x), st, ln)
    return l.sub(('i', IntVal(len(v.items)) if isinstance(v, CSeq) else v.ln))


def seq_push(E, v, x):
    if isinstance(v, CSeq):
        return CSeq(v.ety, v.items + (x,))
    E.interested(seqtag(E, v), v.ln)
    return Seq(v.ety, iadd(v.ln, IntVal(1)), Store(v.arr, v.ln, E.to_term(x, v.ety)))


def vlen(v):
    return IntVal(len(v.items)) if isinstance(v, CSeq) else v.ln


@H('std::vector::pop_back')
def h_pop(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    E.oblige(st, ilt(IntVal(0), vlen(v)), 'pop_back on a non-empty vector', ln)
    if isinstance(v, CSeq):
        if not v.items:
            raise Dead()
        E.store(l, CSeq(v.ety, v.items[:-1]), st, ln)
    else:
        E.store(l, Seq(v.ety, iadd(v.ln, IntVal(-1)), v.arr), st, ln)
    return None


@H('std::vector::back')
def h_back(E, st, e, args):
    l, v = cload(E, e, st)
    return l.sub(('i', iadd(vlen(v), IntVal(-1))))


@H('std::vector::front')
def h_front(E, st, e, args):
    return obj(E, e, st).sub(('i', IntVal(0)))


@H('std::vector::operator[]', 'std::vector::at')
def h_vidx(E, st, e, args):
    return obj(E, e, st).sub(('i', E.val(args[0], st)))


@H('std::vector::data')
def h_vdata(E, st, e, args):
    return lvptr(obj(E, e, st).sub(('i', IntVal(0))))


@H('std::vector::operator=', 'std::map::operator=', 'std::set::operator=',
   'std::unordered_map::operator=')
def h_vassign(E, st, e, args):
    l = obj(E, e, st)
    v = E.val(args[0], st)
    if E.glv(args[0]) and args[0]['vk'] == 'x':
        src = E.lv(args[0], st)
        E.store(l, v, st, e.get('l', 0))
        E.moved(src, v, st)
        return l
    E.store(l, v, st, e.get('l', 0))
    return l


@H('std::vector::assign')
def h_vecassign(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    its = [E.val(a, st) for a in args]
    if len(its) == 1:
        E.store(l, its[0], st, ln)
        return None
    s = E.peek(its[0].lv, st) if isinstance(its[0], VecIt) and isinstance(its[1], VecIt) else None
    if s is None or its[0].lv.key() != its[1].lv.key():
        raise Unsupported('vector::assign of such a range')
    if its[0].lv.key() == l.key():
        raise Unsupported('vector::assign from itself')
    a, b = its[0].idx, its[1].idx
    E.oblige(st, band(ile(IntVal(0), a), ile(a, b), ile(b, vlen(s))), 'assigned range is valid', ln)
    if ival(a) == 0 and E.valid(st, teq(b, vlen(s))):
        E.store(l, s, st, ln)
    else:
        E.store(l, seq_concat(E, CSeq(v.ety, ()), s, a, b), st, ln)
    return None


def seq_concat(E, v, src, lo, hi):
    """v followed by src[lo..hi)"""
    if isinstance(v, CSeq) and isinstance(src, CSeq) and ival(lo) is not None and \
            ival(hi) is not None:
        return CSeq(v.ety, tuple(v.items) + tuple(src.items[ival(lo):ival(hi)]))
    v, src = E.as_seq(v), E.as_seq(src)
    if ival(v.ln) == 0 and ival(lo) == 0:
        return Seq(v.ety, hi, src.arr)
    j = Int('j!cc')
    return Seq(v.ety, iadd(v.ln, isub(hi, lo)),
               Lambda([j], If(j < v.ln, v.arr[j], src.arr[j - v.ln + lo])))


def seq_insert(E, v, i, x):
    if isinstance(v, CSeq) and ival(i) is not None:
        it = list(v.items)
        it.insert(ival(i), x)
        return CSeq(v.ety, it)
    v = E.as_seq(v)
    j = Int('j!in')
    E.interested(seqtag(E, v), i)
    return Seq(v.ety, iadd(v.ln, IntVal(1)),
               Lambda([j], If(j < i, v.arr[j], If(j == i, E.to_term(x, v.ety), v.arr[j - 1]))))


@H('std::vector::insert')
def h_vinsert(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    its = [E.val(a, st) for a in args]
    pos = its[0]
    if not isinstance(pos, VecIt) or pos.lv.key() != l.key():
        raise Unsupported('vector::insert at %s' % type(pos).__name__)
    E.oblige(st, band(ile(IntVal(0), pos.idx), ile(pos.idx, vlen(v))),
             'insertion at a valid position', ln)
    if len(its) == 3 and isinstance(its[1], VecIt) and isinstance(its[2], VecIt):
        a, b = its[1:]
        if a.lv.key() != b.lv.key() or a.lv.key() == l.key():
            raise Unsupported('vector::insert of such a range')
        if not E.valid(st, teq(pos.idx, vlen(v))):
            raise Unsupported('vector::insert of a range in the middle')
        src = E.peek(a.lv, st)
        E.oblige(st, band(ile(IntVal(0), a.idx), ile(a.idx, b.idx), ile(b.idx, vlen(src))),
                 'inserted range is valid', ln)
        E.store(l, seq_concat(E, v, src, a.idx, b.idx), st, ln)
        return VecIt(l, pos.idx)
    if len(its) == 2 and not isinstance(its[1], (CSeq, Seq)):
        x = its[1]
        if isinstance(x, LV):
            x = E.load(x, st)
        E.store(l, seq_insert(E, v, pos.idx, x), st, ln)
        return VecIt(l, pos.idx)
    raise Unsupported('vector::insert')


@H('std::vector::emplace')
def h_vemplace(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    pos = E.val(args[0], st)
    if not isinstance(pos, VecIt) or pos.lv.key() != l.key():
        raise Unsupported('vector::emplace')
    x = as_elem(E, st, args[1:], v.ety, ln)
    E.oblige(st, band(ile(IntVal(0), pos.idx), ile(pos.idx, vlen(v))),
             'insertion at a valid position', ln)
    E.store(l, seq_insert(E, v, pos.idx, x), st, ln)
    return VecIt(l, pos.idx)


@H('std::vector::resize')
def h_vresize(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    n = E.val(args[0], st)
    x = E.val(args[1], st) if len(args) > 1 and args[1]['k'] != 'CXXDefaultArgExpr' else \
        E.default(v.ety, st)
    if E.valid(st, teq(n, iadd(vlen(v), IntVal(1)))):
        E.store(l, seq_push(E, v, x), st, ln)
        return None
    if isinstance(v, CSeq) and ival(n) is not None:
        it = tuple(v.items)[:ival(n)]
        E.store(l, CSeq(v.ety, it + (x,) * (ival(n) - len(it))), st, ln)
        return None
    v = E.as_seq(v)
    if E.valid(st, ile(n, v.ln)):
        E.store(l, Seq(v.ety, n, v.arr), st, ln)
        return None
    j = Int('j!rs')
    E.store(l, Seq(v.ety, n, Lambda([j], If(j < v.ln, v.arr[j], E.to_term(x, v.ety)))), st, ln)
    return None


@H('std::vector::erase')
def h_verase(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    its = [E.val(a, st) for a in args]
    if len(its) == 2 and all(isinstance(x, VecIt) for x in its) and \
            E.valid(st, teq(its[1].idx, vlen(v))):
        a = its[0].idx
        E.oblige(st, band(ile(IntVal(0), a), ile(a, vlen(v))), 'erase of a valid range', ln)
        if isinstance(v, CSeq) and ival(a) is not None:
            E.store(l, CSeq(v.ety, tuple(v.items)[:ival(a)]), st, ln)
        else:
            v = E.as_seq(v)
            E.store(l, Seq(v.ety, a, v.arr), st, ln)
        return VecIt(l, a)
    if len(its) == 2 and all(isinstance(x, VecIt) for x in its) and \
            E.valid(st, teq(its[1].idx, iadd(its[0].idx, IntVal(1)))):
        its = its[:1]
    if len(its) != 1 or not isinstance(its[0], VecIt):
        raise Unsupported('range erase')
    i = its[0].idx
    E.oblige(st, band(ile(IntVal(0), i), ilt(i, vlen(v))), 'erase of a valid iterator', ln)
    E.store(l, seq_erase(E, v, i), st, ln)
    return VecIt(l, i)


def seq_erase(E, v, i):
    if isinstance(v, CSeq):
        if ival(i) is not None:
            it = list(v.items)
            del it[ival(i)]
            return CSeq(v.ety, it)
        v = E.as_seq(v)
    c = E.caches.setdefault('erase', {})
    key = (v.arr.get_id(), i.get_id())
    if key not in c:
        j = Int('j!er')
        arr = v.arr
        c[key] = (arr, i, Lambda([j], If(j < i, arr[j], arr[j + 1])))
    E.interested(seqtag(E, v), i)
    return Seq(v.ety, iadd(v.ln, IntVal(-1)), c[key][2])


# ---- iterators
ITS = ['__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
       'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator',
       'std::__detail::_Node_iterator_base']


def it_deref(E, it, st, line):
    if isinstance(it, VecIt):
        return it.lv.sub(('i', it.idx))
    if isinstance(it, MapIt):
        E.oblige(st, bnot(it.end), 'iterator dereferenceable', line)
        return it.lv.sub(('p', it.key))
    if isinstance(it, Obj) and it.kind == 'cmapit':
        v = E.peek(it.a['lv'], st)
        if not isinstance(v, CMap) or it.a['i'] >= len(v.items):
            raise Unsupported('dereference of a table iterator')
        if it.a['perm'] is None:
            return it.a['lv'].sub(('p', v.items[it.a['i']][0]))
        if it.a['cur'] is None:
            raise Unsupported('dereference of an unordered iterator outside a loop')
        return it.a['lv'].sub(('p', v.items[it.a['cur']][0]))
    raise Unsupported('dereference of %s' % type(it).__name__)


@H(*[i + '::operator*' for i in ITS])
def h_itderef(E, st, e, args):
    return it_deref(E, E.load(obj(E, e, st), st), st, e.get('l', 0))


@H(*[i + '::operator->' for i in ITS])
def h_itarrow(E, st, e, args):
    return lvptr(it_deref(E, E.load(obj(E, e, st), st), st, e.get('l', 0)))


def it_next(E, it, st, line):
    if isinstance(it, VecIt):
        return VecIt(it.lv, iadd(it.idx, IntVal(1)))
    if isinstance(it, Obj) and it.kind == 'cmapit':
        return it.with_(i=it.a['i'] + 1, cur=None)
    E.oblige(st, bnot(it.end), 'iterator incrementable', line)
    d, ks = dom_of(E, E.peek(it.lv, st))
    en = enum(E, d, ks)
    want_key(E, it.key)
    nx = iadd(en.idx(it.key), IntVal(1))
    for at_fact in ():
        pass
    return MapIt(it.lv, ile(en.n, nx), en.at(nx))


@H(*[i + '::operator++' for i in ITS])
def h_itinc(E, st, e, args):
    l = obj(E, e, st)
    it = E.load(l, st)
    E.store(l, it_next(E, it, st, e.get('l', 0)), st)
    if args:      # postfix
        return it
    return l


@H(*[i + '::operator--' for i in ITS])
def h_itdec(E, st, e, args):
    l = obj(E, e, st)
    it = E.load(l, st)
    if not isinstance(it, VecIt):
        raise Unsupported('decrement of a map iterator')
    E.store(l, VecIt(it.lv, iadd(it.idx, IntVal(-1))), st)
    return it if args else l


@H('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator+=')
def h_itadd(E, st, e, args):
    it = E.load(obj(E, e, st), st)
    r = VecIt(it.lv, iadd(it.idx, E.val(args[0], st)))
    if e['f']['q'].endswith('+='):
        l = obj(E, e, st)
        E.store(l, r, st)
        return l
    return r


@H('__gnu_cxx::__normal_iterator::operator-')
def h_itsub(E, st, e, args):
    it = E.load(obj(E, e, st), st)
    return VecIt(it.lv, isub(it.idx, E.val(args[0], st)))


@H('__gnu_cxx::__normal_iterator::operator[]')
def h_itidx(E, st, e, args):
    it = E.load(obj(E, e, st), st)
    return it.lv.sub(('i', iadd(it.idx, E.val(args[0], st))))


@H(*[i + '::(ctor)' for i in ITS])
def h_itctor(E, st, e, args):
    if not args:
        return Conflict('singular iterator')
    return E.val(args[0], st)


def it_eq(E, a, b):
    if isinstance(a, Conflict) or isinstance(b, Conflict):
        raise Unsupported('comparison of a singular iterator')
    if isinstance(a, VecIt) and isinstance(b, VecIt):
        if a.lv.key() != b.lv.key():
            raise Unsupported('iterators of different sequences')
        return teq(a.idx, b.idx)
    if isinstance(a, MapIt) and isinstance(b, MapIt):
        if a.lv.key() != b.lv.key():
            raise Unsupported('iterators of different containers')
        if is_true(a.end):
            return b.end
        if is_true(b.end):
            return a.end
        return bor(band(a.end, b.end), band(bnot(a.end), bnot(b.end), teq(a.key, b.key)))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == 'cmapit':
        return BoolVal(a.a['i'] == b.a['i'])
    raise Unsupported('iterator comparison')


def is_it(v):
    return isinstance(v, (VecIt, MapIt)) or isinstance(v, Obj) and v.kind == 'cmapit'


@H('std::next', 'std::prev', 'std::advance')
def h_next(E, st, e, args):
    q = e['f']['q']
    if q == 'std::advance':
        l = E.lv(args[0], st)
        it, n = E.load(l, st), E.val(args[1], st)
    else:
        it = E.val(args[0], st)
        n = E.val(args[1], st) if len(args) > 1 else IntVal(1)
    if isinstance(it, MapIt) and ival(n) == 1 and q != 'std::prev':
        r = it_next(E, it, st, e.get('l', 0))
    elif isinstance(it, VecIt):
        r = VecIt(it.lv, iadd(it.idx, n) if q != 'std::prev' else isub(it.idx, n))
    else:
        raise Unsupported(q)
    if q == 'std::advance':
        E.store(l, r, st)
        return None
    return r


@H('std::distance')
def h_distance(E, st, e, args):
    a, b = E.val(args[0], st), E.val(args[1], st)
    if isinstance(a, VecIt) and isinstance(b, VecIt):
        return isub(b.idx, a.idx)
    if isinstance(a, MapIt):
        lo, hi = it_ranks(E, a, b, st)
        return isub(hi, lo)
    raise Unsupported('std::distance')


@H('__gnu_cxx::operator-')
def h_itdiff(E, st, e, args):
    a, b = E.val(args[0], st), E.val(args[1], st)
    return isub(a.idx, b.idx)


# ---- maps and sets
MAPS = ['std::map', 'std::unordered_map', 'std::set', 'std::unordered_set']


def mm(*ms):
    return [c + '::' + m for c in MAPS for m in ms]


def key_arg(E, v, a, st):
    x = E.val(a, st)
    if isinstance(x, ExprRef) and x.sort().eq(E.CStr):
        E.oblige(st, bnot(E.is_cnull(x)), 'string constructed from a non-null pointer',
                 a.get('l', 0))
        x = E.cstr_of(x)
    k = E.kproj(x, v.kty)
    want_key(E, k)
    return k


def has(E, v, k):
    if isinstance(v, CMap):
        return bor(*[teq(a, k) for a, b in v.items])
    return sel(v.dom, k)


@H(*mm('find'))
def h_mfind(E, st, e, args):
    l, v = cload(E, e, st)
    k = key_arg(E, v, args[0], st)
    if isinstance(v, CMap):
        v = E.as_map(v)
        E.poke(l, v, st)
    return MapIt(l, bnot(has(E, v, k)), k)


def key_less(E, a, b):
    """the order of the keys of an ordered container (a strict total order)"""
    if a.sort() == E.Str:
        return val_less(E, a, b, None)
    f = Function('keyLt$' + a.sort().name(), a.sort(), a.sort(), BoolSort())
    E.fact(bnot(band(f(a, b), f(b, a))))
    E.fact(bor(f(a, b), f(b, a), teq(a, b)))
    E.fact(bimp(teq(a, b), bnot(f(a, b))))
    return f(a, b)


@H('std::map::key_comp', 'std::set::key_comp')
def h_keycomp(E, st, e, args):
    l, v = cload(E, e, st)
    kty = v.kty

    def less(E, st, args):
        a, b = [E.kproj(E.load(x, st) if isinstance(x, LV) else x, kty) for x in args]
        return key_less(E, a, b)
    return Handler('key_comp', less)


@H('std::map::lower_bound', 'std::map::upper_bound', 'std::set::lower_bound')
def h_mlower(E, st, e, args):
    """the position is not said (it depends on the order), only that it is the key's own if the
    container has it, and that it is not the key's otherwise"""
    l, v = cload(E, e, st)
    k = key_arg(E, v, args[0], st)
    if isinstance(v, CMap):
        v = E.as_map(v)
        E.poke(l, v, st)
    d, ks = dom_of(E, v)
    en = enum(E, d, ks)
    r = E.fresh_int('bound', 0)
    E.fact(r <= en.n)
    c = has(E, v, k)
    want_rank(E, r, ks)
    if e['f']['q'].endswith('upper_bound'):
        E.fact(bimp(c, r == en.idx(k) + 1))
        E.fact(bimp(r < en.n, en.at(r) != k))
        E.fact(bimp(r < en.n, key_less(E, k, en.at(r))))
        return MapIt(l, ile(en.n, r), en.at(r))
    E.fact(bimp(bnot(c), bor(ile(en.n, r), en.at(r) != k)))
    E.fact(bimp(r < en.n, bnot(key_less(E, en.at(r), k))))
    return MapIt(l, band(bnot(c), ile(en.n, r)), bif(c, k, en.at(r)))


@H(*mm('emplace_hint'))
def h_memplace_hint(E, st, e, args):
    E.val(args[0], st)
    return h_memplace(E, st, e, args[1:]).f['first']


@H(*mm('count', 'contains'))
def h_mcount(E, st, e, args):
    l, v = cload(E, e, st)
    k = key_arg(E, v, args[0], st)
    c = has(E, v, k)
    return c if e['f']['q'].endswith('contains') else bif(c, IntVal(1), IntVal(0))


@H('std::map::at', 'std::unordered_map::at')
def h_mat(E, st, e, args):
    l, v = cload(E, e, st)
    k = key_arg(E, v, args[0], st)
    E.oblige(st, has(E, v, k), 'map::at finds the key', e.get('l', 0))
    return l.sub(('v', k))


def map_put(E, v, k, x):
    if isinstance(v, CMap):
        for i, (a, b) in enumerate(v.items):
            if a.eq(k):
                it = list(v.items)
                it[i] = (a, x)
                return CMap(v.t, v.kty, v.vty, it)
        if all(is_false(teq(a, k)) for a, b in v.items):
            return CMap(v.t, v.kty, v.vty, v.items + ((k, x),))
        v = E.as_map(v)
    return Map(v.t, v.kty, v.vty, Store(v.dom, k, TRUE), Store(v.val, k, E.to_term(x, v.vty)))


@H('std::map::operator[]', 'std::unordered_map::operator[]')
def h_midx(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    k = key_arg(E, v, args[0], st)
    c = has(E, v, k)
    if not is_true(c):
        d = E.zero(v.vty)
        nv = map_put(E, v, k, d)
        E.store(l, nv if is_false(c) else E.merge_val(c, v, nv), st, ln)
        if not is_false(c) and not isinstance(v, CMap):
            # one store instead of a conditional map
            old = E.to_term(E.get(v, ('v', k)), v.vty)
            E.store(l, Map(v.t, v.kty, v.vty, Store(v.dom, k, TRUE), Store(
                v.val, k, bif(c, old, E.to_term(d, v.vty)))), st, ln)
    return l.sub(('v', k))


def insert_if_absent(E, st, l, v, k, mk, ln):
    """returns pair(iterator, inserted)"""
    c = has(E, v, k)
    if isinstance(v, CMap):
        v = E.as_map(v)
        E.store(l, v, st, ln)
    if not is_true(c):
        if isinstance(v, SetV):
            nv = SetV(v.t, v.kty, Store(v.dom, k, TRUE))
        else:
            x = E.to_term(mk(), v.vty)
            v = E.load(l, st, ln)
            nv = Map(v.t, v.kty, v.vty, Store(v.dom, k, TRUE),
                     Store(v.val, k, bif(c, E.to_term(E.get(v, ('v', k)), v.vty), x)
                           if not is_false(c) else x))
        E.store(l, nv, st, ln)
    return SV('std::pair', None, {'first': MapIt(l, FALSE, k), 'second': bnot(c)})


@H(*mm('insert'))
def h_minsert(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    if len(args) == 2:
        its = [E.val(a, st) for a in args]
        if isinstance(its[0], MapIt) and not isinstance(its[1], MapIt):
            args = args[1:]
        else:
            raise Unsupported('range insert')
    x = E.val(args[0], st)
    if isinstance(x, CSeq):
        raise Unsupported('insert of an initializer list')
    if isinstance(v, SetV):
        if isinstance(x, ExprRef) and x.sort().eq(E.CStr):
            x = E.cstr_of(x)
        k = E.kproj(x, v.kty)
        want_key(E, k)
        r = insert_if_absent(E, st, l, v, k, None, ln)
    else:
        k = E.kproj(x.f['first'], v.kty)
        want_key(E, k)
        r = insert_if_absent(E, st, l, v, k, lambda: x.f['second'], ln)
    return r


@H('std::set::emplace', 'std::unordered_set::emplace')
def h_semplace(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    x = build(E, v.kty, [E.actual(a, st) for a in args], st)
    k = E.kproj(x, v.kty)
    want_key(E, k)
    return insert_if_absent(E, st, l, v, k, None, ln)


@H('std::map::emplace', 'std::unordered_map::emplace', 'std::map::try_emplace',
   'std::unordered_map::try_emplace')
def h_memplace(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    acts = [E.actual(a, st) for a in args]
    if acts and isinstance(E.aval(acts[0], st), Obj) and \
            E.aval(acts[0], st).kind == 'std::piecewise_construct':
        ks, vs = [[E.aval(a, st).f[str(i)] for i in range(len(E.aval(a, st).f))]
                  for a in acts[1:3]]
        key = build(E, v.kty, ks, st)
    elif e['f']['q'].endswith('try_emplace'):
        key = E.aval(acts[0], st)
        vs = acts[1:]
    elif len(acts) == 2:
        key = build(E, v.kty, acts[:1], st)
        vs = acts[1:]
    elif len(acts) == 1:
        p = E.aval(acts[0], st)
        key, vs = p.f['first'], [p.f['second']]
    else:
        raise Unsupported('emplace with %d arguments' % len(acts))
    k = E.kproj(key, v.kty)
    want_key(E, k)
    vty = v.vty
    return insert_if_absent(E, st, l, v, k, lambda: build(E, vty, vs, st), ln)


@H('std::map::insert_or_assign', 'std::unordered_map::insert_or_assign')
def h_minsoa(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    k = key_arg(E, v, args[0], st)
    x = build(E, v.vty, [E.actual(args[1], st)], st)
    v = E.load(l, st, ln)
    c = has(E, v, k)
    E.store(l, map_put(E, v, k, x), st, ln)
    return SV('std::pair', None, {'first': MapIt(l, FALSE, k), 'second': bnot(c)})


@H(*mm('erase'))
def h_merase(E, st, e, args):
    ln = e.get('l', 0)
    l, v = cload(E, e, st)
    if isinstance(v, CMap):
        v = E.as_map(v)
    if len(args) != 1:
        raise Unsupported('range erase')
    x = E.val(args[0], st)
    if isinstance(x, MapIt):
        E.oblige(st, bnot(x.end), 'erase of a dereferenceable iterator', ln)
        E.oblige(st, sel(v.dom, x.key), 'erase of a valid iterator', ln)
        k = x.key
        r = None
        if not isinstance(v, SetV) or True:
            d, ks = dom_of(E, v)
            r = MapIt(l, E.fresh('itend', BoolSort()), E.fresh('itkey', ks))
    else:
        k = key_arg(E, v, args[0], st)
        r = bif(has(E, v, k), IntVal(1), IntVal(0))
    want_key(E, k)
    nd = Store(v.dom, k, FALSE)
    if isinstance(v, SetV):
        E.store(l, SetV(v.t, v.kty, nd), st, ln)
    else:
        E.store(l, Map(v.t, v.kty, v.vty, nd, v.val), st, ln)
    return r


@H('std::map::(ctor)', 'std::unordered_map::(ctor)', 'std::set::(ctor)', 'std::vector::(ctor)',
   'std::unordered_set::(ctor)')
def h_cctor(E, st, e, args):
    t = E.p.deref(e['t'])
    real = [a for a in args if a['k'] != 'CXXDefaultArgExpr']
    if e.get('copy') or e.get('move'):
        return E.copy_from(args[0], st, e.get('move'))
    if not real:
        return E.default(t, st)
    v = E.val(real[0], st)
    n = E.p.rec(t)
    if isinstance(v, CSeq) and len(real) == 1:
        if n == 'std::vector':
            return v
        kty = E.T(t)['args'][0]['t']
        if n in ('std::set', 'std::unordered_set'):
            r = E.default(t, st)
            for x in v.items:
                r = SetV(t, kty, Store(r.dom, E.kproj(x, kty), TRUE))
            return r
        vty = E.T(t)['args'][1]['t']
        items = []
        for x in v.items:
            k = E.kproj(x.f['first'], kty)
            if any(not is_false(teq(k, a)) for a, b in items):
                raise Unsupported('map literal with undistinguished keys')
            items.append((k, x.f['second']))
        if n == 'std::map' and all(lit_of(E, k) is not None for k, _ in items):
            items.sort(key=lambda x: lit_of(E, x[0]).encode('latin-1', 'replace'))
        return CMap(t, kty, vty, items)
    if isinstance(v, VecIt) and len(real) == 2 and n == 'std::vector':
        w = E.val(real[1], st)
        s = E.peek(v.lv, st)
        if ival(v.idx) == 0 and teq(w.idx, vlen(s)).eq(TRUE):
            return s
        if isinstance(w, VecIt) and w.lv.key() == v.lv.key():
            E.oblige(st, band(ile(IntVal(0), v.idx), ile(v.idx, w.idx), ile(w.idx, vlen(s))),
                     'range is valid', e.get('l', 0))
            return seq_concat(E, CSeq(s.ety, ()), s, v.idx, w.idx)
    if isinstance(v, Ptr) and len(real) >= 2 and n == 'std::vector':
        w = E.val(real[1], st)
        a, b = [[x for g, x in q.alts if E.feasible(st, g)] for q in (v, w)]
        if len(a) == len(b) == 1 and a[0] and b[0] and a[0][0] == b[0][0] == 'lv' and \
                a[0][1] == b[0][1] and len(a[0][2]) == len(b[0][2]) == 1:
            s = st.store[a[0][1]]
            i, j = a[0][2][0][1], b[0][2][0][1]
            if isinstance(s, Seq):
                E.oblige(st, And(i >= 0, i <= j, j <= s.ln), 'range stays within the buffer',
                         e.get('l', 0))
                return slice_seq(E, s, i, j)
    raise Unsupported('construction of %s' % E.p.cs(t)[:60])


def slice_seq(E, s, i, j):
    """elements [i, j) of a sequence"""
    sort = E.seq_sort(s.ety)
    f = Function('slice$' + sort.name(), sort, IntSort(), IntSort(), sort)
    whole = E.to_term(s, None) if False else sort.constructor(0)(s.ln, s.arr)
    r = f(whole, i, j)
    E.fact(bimp(And(i == 0, j == s.ln), r == whole))
    E.fact(bimp(And(0 <= i, i <= j), sort.accessor(0, 0)(r) == j - i))
    return E.seq_of_term(r, s.ety)


@H('std::pair::(ctor)')
def h_pairctor(E, st, e, args):
    t = E.p.deref(e['t'])
    if e.get('copy') or e.get('move'):
        return E.copy_from(args[0], st, e.get('move'))
    T = E.T(t)
    ts = [a['t'] for a in T['args']]
    if not args:
        return SV('std::pair', t, {'first': E.zero(ts[0]), 'second': E.zero(ts[1])})
    if len(args) == 1:
        return E.val(args[0], st)
    vs = [E.actual(a, st) for a in args]
    return SV('std::pair', t, {n: conv_init(E, x, tt, st)
                               for n, x, tt in zip(('first', 'second'), vs, ts)})


def conv_init(E, x, t, st):
    if E.p.is_ref(t):
        return x if isinstance(x, LV) else E.temp(x, st)
    v = E.aval(x, st)
    n = E.p.rec(t)
    if n == 'std::function' and not isinstance(v, Fn):
        return to_fn(E, v)
    if n in STRINGS:
        return build(E, t, [v], st)
    return v


@H('std::make_pair')
def h_mkpair(E, st, e, args):
    t = E.p.deref(e['t'])
    ts = [a['t'] for a in E.T(t)['args']]
    vs = [E.actual(a, st) for a in args]
    return SV('std::pair', t, {n: conv_init(E, x, tt, st)
                               for n, x, tt in zip(('first', 'second'), vs, ts)})


@H('std::make_tuple', 'std::forward_as_tuple', 'std::tie')
def h_tuple(E, st, e, args):
    vs = []
    for a in args:
        if e['f']['q'] == 'std::make_tuple':
            vs.append(E.val(a, st))
        else:
            vs.append(E.alv(E.actual(a, st), st))
    return SV('std::tuple', None, {str(i): v for i, v in enumerate(vs)})


@H('std::tuple::(ctor)')
def h_tuplector(E, st, e, args):
    t = E.p.deref(e['t'])
    if e.get('copy') or e.get('move'):
        return E.copy_from(args[0], st, e.get('move'))
    ts = [a['t'] for a in E.T(t)['args']]
    if len(args) == 1 and len(ts) != 1:
        return E.val(args[0], st)
    vs = [E.actual(a, st) for a in args]
    return SV('std::tuple', t, {str(i): conv_init(E, x, tt, st)
                                for i, (x, tt) in enumerate(zip(vs, ts))})


@H('std::tuple::operator=')
def h_tupassign(E, st, e, args):
    l = E.load(obj(E, e, st), st)
    r = E.val(args[0], st)
    for k, x in zip(sorted(l.f, key=int), r.f.values()):
        dst = l.f[k]
        if isinstance(dst, LV):
            E.store(dst, E.aval(x, st), st)
    return obj(E, e, st)


@H('std::get')
def h_get(E, st, e, args):
    i = None
    for a in E.p.funcs[e['f']['id']].get('targs', []):
        if 'i' in a:
            i = int(a['i'])
            break
    if i is None:
        raise Unsupported('std::get by type')
    l = E.lv(args[0], st)
    v = E.peek(l, st)
    if v.n == 'std::pair':
        return l.sub(('f', ('first', 'second')[i]))
    x = v.f[str(i)]
    if isinstance(x, LV):
        return x
    return l.sub(('f', str(i)))


# ---- ranges
def it_ranks(E, a, b, st):
    """(lo, hi) ranks of a map range"""
    d, ks = dom_of(E, E.peek(a.lv, st))
    en = enum(E, d, ks)

    def rk(i):
        if is_true(i.end):
            return en.n
        # begin(): end == (n == 0), key == at(0)
        if i.key.eq(en.at(IntVal(0))):
            return IntVal(0)
        want_key(E, i.key)
        return bif(i.end, en.n, en.idx(i.key))
    return rk(a), rk(b)


class Range:
    """abstract iteration space: lo..hi, element lvalue and iterator at an index"""

    def __init__(self, lo, hi, elem, it, tag):
        self.lo, self.hi, self.elem, self.it, self.tag = lo, hi, elem, it, tag


def live(E, p, st):
    """alternatives of a pointer that are possible here"""
    if len(p.alts) < 2:
        return p
    return Ptr([(g, x) for g, x in p.alts if E.feasible(st, g)])


def mkrange(E, a, b, st):
    if isinstance(a, VecIt) and isinstance(b, VecIt):
        v = E.peek(a.lv, st)
        return Range(a.idx, b.idx, lambda j: a.lv.sub(('i', j)), lambda j: VecIt(a.lv, j),
                     seqtag(E, v))
    if isinstance(a, MapIt) and isinstance(b, MapIt):
        d, ks = dom_of(E, E.peek(a.lv, st))
        en = enum(E, d, ks)
        lo, hi = it_ranks(E, a, b, st)
        return Range(lo, hi, lambda j: a.lv.sub(('p', en.at(j))),
                     lambda j: MapIt(a.lv, ile(en.n, j), en.at(j)), 'rank:' + ks.name())
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        a, b = live(E, a, st), live(E, b, st)
        null = bor(*[g for g, x in a.alts if x is None])
        strip = lambda p: Ptr([(TRUE, x) for g, x in p.alts if x is not None])  # noqa
        (l, i), (l2, j) = region(E, strip(a)), region(E, strip(b))
        if l.key() != l2.key():
            raise Unsupported('range over two arrays')
        j = bif(null, i, j)    # a null range is empty
        v = E.peek(l, st)
        ety = getattr(v, 'ety', None)
        return Range(i, j, lambda x: l.sub(('i', x)), lambda x: lvptr(l.sub(('i', x))),
                     'idx:' + (E.p.cs(ety) if ety else 'byte'))
    raise Unsupported('range over %s' % type(a).__name__)


def closed(E, st, fn, tag, what, lo, hi):
    """evaluate the Boolean fn(j) at a generic index; returns j -> Bool"""
    J = Int('J!%d' % next(E.cnt))
    s = st.fork(band(ile(lo, J), ilt(J, hi)))
    nf, nq = len(E.facts), len(E.foralls)
    E.indist.append(J)
    try:
        body = fn(J, s)
    finally:
        E.indist.pop()
    for k in st.store:
        if s.store.get(k) is not st.store[k]:
            raise Unsupported('predicate with side effects')
    mine = [f for f in E.facts[nf:] if mentions(f, J)]
    quants = list(E.foralls[nq:])

    inner = set(t for t, h in quants if t != tag)

    def inst(j):
        for f in mine:
            E.fact(substitute(f, (J, j)))
        for t, h in quants:
            if t != tag:
                E.forall(t, lambda x, h=h, j=j: substitute(h(x), (J, j)))
        return TRUE
    if mine or inner:
        done = {}

        def once(j):
            if j.get_id() not in done:
                done[j.get_id()] = j
                return inst(j)
            return TRUE
        E.forall(tag, once)
    return (lambda j: substitute(body, (J, j))), (J, body)


def mentions(f, J):
    seen = set()
    todo = [f]
    jid = J.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == jid:
            return True
        if is_quantifier(x):
            todo.append(x.body())
        else:
            todo += x.children()
    return False


CANON = Int('J!canon')


def first(E, rng, pred, jb, st):
    """least index in [lo,hi) satisfying pred, else hi"""
    J, body = jb
    c = E.caches.setdefault('first', {})
    canon = simplify(substitute(body, (J, CANON)))
    key = (rng.lo.get_id(), rng.hi.get_id(), canon.get_id(), rng.tag)
    if key in c:
        return c[key][0]
    r = E.fresh('first', IntSort())
    lo, hi = rng.lo, rng.hi
    E.fact(bimp(ile(lo, hi), And(lo <= r, r <= hi)))
    E.bounds[r.get_id()] = (0, 1 << 60, r)
    E.fact(bimp(And(lo <= r, r < hi), pred(r)))
    E.forall(rng.tag, lambda j: bimp(And(lo <= j, j < r), bnot(pred(j))))
    c[key] = (r, lo, hi, canon)
    E.interested(rng.tag, r)
    return r


def pred_call(E, p, rng):
    def f(j, s):
        v = E.call_fn(p, [rng.elem(j)], s)
        if isinstance(v, ExprRef) and not is_bool(v):
            v = bnot(teq(v, IntVal(0)))
        return v
    return f


def rng_pred(E, st, e, args, neg=False, byval=False):
    a, b = E.val(args[0], st), E.val(args[1], st)
    rng = mkrange(E, a, b, st)
    if byval:
        x = E.val(args[2], st)
        f = lambda j, s: val_eq(E, E.load(rng.elem(j), s), x, s)  # noqa
    else:
        p = as_fn(E, E.val(args[2], st), st)
        f = pred_call(E, p, rng)
    if neg:
        g = f
        f = lambda j, s: bnot(g(j, s))  # noqa
    pred, jb = closed(E, st, f, rng.tag, e, rng.lo, rng.hi)
    return rng, pred, jb


def as_fn(E, v, st=None):
    if isinstance(v, SV) and v.n:
        ops = [i for i, d in E.p.funcs.items() if d['q'] == v.n + '::operator()' and
               d.get('body') is not None]
        if len(ops) != 1 or st is None:
            raise Unsupported('functor object')
        return FuncRef(ops[0], E.temp(v, st, 'functor'))
    return v


def to_fn(E, v):
    if isinstance(v, Fn):
        return v
    if isinstance(v, (FuncRef, Bound, Handler, Closure)):
        return Fn([(TRUE, v)])
    if isinstance(v, Ptr) and all(x is None for g, x in v.alts):
        return Fn([(TRUE, None)])
    raise Unsupported('function object from %s' % type(v).__name__)


def small(rng):
    a, b = ival(rng.lo), ival(rng.hi)
    return a is not None and b is not None and b - a <= 64


@H('std::find_if', 'std::find_if_not', 'std::find')
def h_find_if(E, st, e, args):
    q = e['f']['q']
    a, b = E.val(args[0], st), E.val(args[1], st)
    rng = mkrange(E, a, b, st)
    r, _ = position(E, st, e, args, q == 'std::find_if_not', q == 'std::find')
    return rng.it(r)


@H('std::any_of', 'std::none_of', 'std::all_of')
def h_any(E, st, e, args):
    q = e['f']['q']
    found = ilt(*position(E, st, e, args, q == 'std::all_of'))
    return found if q == 'std::any_of' else bnot(found)


def position(E, st, e, args, neg=False, byval=False):
    """(position of the first hit, end) of a linear search"""
    from . import loops
    a, b = E.val(args[0], st), E.val(args[1], st)
    rng = mkrange(E, a, b, st)
    if not small(rng):
        snap = E.snapshot()
        E.dry += 1
        try:
            rng2, pred, jb = rng_pred(E, st.fork(), e, args, neg, byval)
        except Unsupported as x:
            E.dry -= 1
            E.restore(snap)
            if 'side effects' not in str(x):
                raise
        except Dead:
            E.dry -= 1
            E.restore(snap)
            raise
        else:
            E.dry -= 1
            E.restore(snap)
            rng, pred, jb = rng_pred(E, st, e, args, neg, byval)
            return first(E, rng, pred, jb, st), rng.hi
    p = E.val(args[2], st) if byval else as_fn(E, E.val(args[2], st), st)
    test = pred_call(E, p, rng)
    idx = E.newroot('rangeidx', rng.lo, st)

    def evcond(z):
        return ilt(z.store[idx], rng.hi)

    def iterate(z):
        j = z.store[idx]
        E.interested(rng.tag, j)
        c = val_eq(E, E.load(rng.elem(j), z), p, z) if byval else test(j, z)
        hit, miss = z.fork(c if not neg else bnot(c)), z.fork(bnot(c) if not neg else c)
        miss.store[idx] = iadd(j, IntVal(1))
        return [Out(k, x) for k, x in (('brk', hit), ('norm', miss)) if E.feasible(x)]
    outs = loops.generic(E, st, evcond, iterate, e.get('l', 0), e, counter=(idx, rng.hi))
    if not outs:
        raise Dead()
    m, _ = E.merge([(o.st, None) for o in outs])
    st.assign(m)
    return st.store.pop(idx), rng.hi


@H('std::remove_if', 'std::remove')
def h_remove_if(E, st, e, args):
    """stable compaction: positions below the result are, in order, the elements to keep"""
    ln = e.get('l', 0)
    byval = e['f']['q'] == 'std::remove'
    a = E.val(args[0], st)
    if not isinstance(a, VecIt):
        raise Unsupported('std::remove_if')
    rng, pred, jb = rng_pred(E, st, e, args, False, byval)
    v = E.as_seq(E.load(a.lv, st, ln))
    lo, hi = rng.lo, rng.hi
    n = E.fresh('kept', IntSort())
    E.bounds[n.get_id()] = (0, 1 << 60, n)
    E.fact(bimp(ile(lo, hi), And(lo <= n, n <= hi)))
    src = Function('src!%d' % next(E.cnt), IntSort(), IntSort())
    pos = Function('pos!%d' % next(E.cnt), IntSort(), IntSort())
    arr = E.fresh('kept', v.arr.sort())

    def moved(j):
        return band(bimp(And(lo <= j, j < n), And(
            j <= src(j), src(j) < hi, bnot(pred(src(j))), arr[j] == v.arr[src(j)],
            pos(src(j)) == j, Or(j + 1 >= n, src(j) < src(j + 1)))),
            bimp(And(lo <= j, j < hi, bnot(pred(j))), And(
                lo <= pos(j), pos(j) < n, pos(j) <= j, src(pos(j)) == j, arr[pos(j)] == v.arr[j])),
            bimp(And(lo <= j, j < hi, pred(j)), n < hi),
            bimp(Or(j < lo, j >= hi, n == hi), arr[j] == v.arr[j]))
    E.forall(rng.tag, moved)
    f = first(E, rng, pred, jb, st)     # nothing moves before the first element to remove
    E.forall(rng.tag, lambda j: bimp(And(lo <= j, j < f), And(arr[j] == v.arr[j], src(j) == j,
                                                             pos(j) == j)))
    E.fact(bimp(f == hi, n == hi))
    E.store(a.lv, Seq(v.ety, v.ln, arr), st, ln)
    return VecIt(a.lv, n)


@H('std::iter_swap')
def h_iter_swap(E, st, e, args):
    ln = e.get('l', 0)
    a, b = [it_deref(E, E.val(x, st), st, ln) for x in args]
    x, y = E.load(a, st, ln), E.load(b, st, ln)
    E.store(a, y, st, ln)
    E.store(b, x, st, ln)
    return None


@H('std::count_if', 'std::count')
def h_count_if(E, st, e, args):
    from . import loops
    q = e['f']['q']
    a, b = E.val(args[0], st), E.val(args[1], st)
    rng = mkrange(E, a, b, st)
    acc = E.newroot('count', IntVal(0), st)
    L = LV([(TRUE, acc, ())])
    p = None if q == 'std::count' else as_fn(E, E.val(args[2], st), st)
    x = E.val(args[2], st) if p is None else None

    def body(s, el):
        c = val_eq(E, E.load(el, s), x, s) if p is None else E.call_fn(p, [el], s)
        E.store(L, iadd(E.load(L, s), bif(c, IntVal(1), IntVal(0))), s)
    loops.run_range(E, st, rng, body, e)
    return st.store.pop(acc)


@H('std::for_each')
def h_for_each(E, st, e, args):
    from . import loops
    a, b = E.val(args[0], st), E.val(args[1], st)
    rng = mkrange(E, a, b, st)
    p = E.val(args[2], st)
    loops.run_range(E, st, rng, lambda s, el: E.call_fn(p, [el], s), e)
    return p


@H('std::accumulate')
def h_accumulate(E, st, e, args):
    from . import loops
    a, b = E.val(args[0], st), E.val(args[1], st)
    rng = mkrange(E, a, b, st)
    init = E.val(args[2], st)
    if not isinstance(init, ExprRef) or not is_int(init):
        raise Unsupported('accumulate of non-integers')
    t = E.p.deref(e['t'])
    acc = E.newroot('acc', init, st)
    L = LV([(TRUE, acc, ())])
    p = E.val(args[3], st) if len(args) > 3 else None

    def body(s, el):
        old = E.load(L, s)
        v = E.call_fn(p, [old, el], s) if p is not None else \
            E.arith('+', old, E.load(el, s), t, s)
        lo, hi = E.int_range(t)
        E.store(L, E.wrap(v, lo, hi, s), s)
    loops.run_range(E, st, rng, body, e)
    return st.store.pop(acc)


# --------------------------------------------------------------------------------- equality
def val_eq(E, a, b, st):
    if isinstance(a, ExprRef) and isinstance(b, ExprRef):
        if a.sort().eq(E.CStr) and b.sort().eq(E.Str):
            return teq(E.cstr_of(a), b)
        if b.sort().eq(E.CStr) and a.sort().eq(E.Str):
            return teq(a, E.cstr_of(b))
        return teq(a, b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return arr_eq(E, a, b)
    if isinstance(a, LV) or isinstance(b, LV):
        return val_eq(E, E.aval(a, st), E.aval(b, st), st)
    if isinstance(a, (Seq, CSeq)) and isinstance(b, (Seq, CSeq)):
        if isinstance(a, CSeq) and isinstance(b, CSeq) and len(a.items) != len(b.items):
            return FALSE
        a, b = E.as_seq(a), E.as_seq(b)
        ln, arr = teq(a.ln, b.ln), teq(a.arr, b.arr)
        if is_f(ln) or is_t(arr):
            return ln
        # vectors within the elements: equal ones are taken to be represented equally
        r = E.fresh('same', BoolSort())
        E.fact(bimp(band(ln, arr), r))
        E.fact(bimp(r, ln))
        w = E.fresh_int('differs', 0)
        E.fact(bimp(band(ln, bnot(r)), band(ilt(w, a.ln), bnot(teq(a.arr[w], b.arr[w])))))
        for tag in sorted({seqtag(E, a), seqtag(E, b)}):
            E.forall(tag, lambda i: bimp(And(r, 0 <= i, i < a.ln), a.arr[i] == b.arr[i]), st)
            E.interested(tag, w)
        return r
    if isinstance(a, SV) and isinstance(b, SV) and a.n == b.n and \
            a.n in ('std::tuple', 'std::pair'):
        return band(*[val_eq(E, a.f[k], b.f[k], st) for k in a.f])
    if isinstance(a, SV) and isinstance(b, SV) and a.n == b.n:
        # root records compare through their own operator==
        for i in E.p.by_q.get('rmw_dds_common::operator==', []) + E.p.by_q.get('operator==', []) + \
                E.p.by_q.get(a.n + '::operator==', []):
            f = E.p.funcs[i]
            ps = [E.p.rec(x['t']) for x in f['params']]
            if f.get('cls') is None and ps == [a.n, a.n]:
                h = E.contracts.get(f['q'])
                if h:
                    return h(E, st, None, [a, b])
                if f.get('body') is not None:
                    return E.inline(i, None, [a, b], st)
            elif f.get('cls') is not None and ps == [a.n] and f.get('body') is not None:
                return E.inline(i, E.temp(a, st), [b], st)
    raise Unsupported('equality of %s' % type(a).__name__)


@H('std::operator==', 'std::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator!=',
   'std::_Rb_tree_iterator::operator==', 'std::_Rb_tree_iterator::operator!=',
   'std::_Rb_tree_const_iterator::operator==', 'std::_Rb_tree_const_iterator::operator!=',
   'std::__detail::operator==', 'std::__detail::operator!=', 'operator==', 'operator!=',
   'std::filesystem::operator==')
def h_eq(E, st, e, args):
    q = e['f']['q']
    neg = q.endswith('!=')
    allargs = e['args']
    if q in ('operator==', 'operator!=') or len(allargs) == 2 and False:
        return root_eq(E, st, e, allargs)
    x, y = E.val(allargs[0], st), E.val(allargs[1], st)
    if is_it(x) and is_it(y):
        c = it_eq(E, x, y)
    elif isinstance(x, (Fn, Ptr)) or isinstance(y, (Fn, Ptr)):
        if isinstance(x, Fn) and isinstance(y, Ptr):
            c = E.is_null(x)
        elif isinstance(y, Fn) and isinstance(x, Ptr):
            c = E.is_null(y)
        elif isinstance(x, SV) and x.n == 'std::unique_ptr':
            c = E.is_null(x.f['p'])
        elif isinstance(y, SV) and y.n == 'std::unique_ptr':
            c = E.is_null(y.f['p'])
        else:
            raise Unsupported('comparison')
    elif isinstance(x, ExprRef) and isinstance(y, ExprRef):
        for v in (x, y):
            if v.sort().eq(E.CStr):
                E.oblige(st, bnot(E.is_cnull(v)), 'string compared with a non-null pointer',
                         e.get('l', 0))
        c = val_eq(E, x, y, st)
    elif isinstance(x, Arr) and isinstance(y, Arr):
        c = arr_eq(E, x, y)
    elif isinstance(x, SV) and isinstance(y, SV) and x.n in ('std::tuple', 'std::pair'):
        c = val_eq(E, x, y, st)
    elif isinstance(x, (Seq, CSeq)) and isinstance(y, (Seq, CSeq)):
        c = val_eq(E, x, y, st)
    else:
        raise Unsupported('comparison of %s' % type(x).__name__)
    return bnot(c) if neg else c


def root_eq(E, st, e, args):
    d = E.p.funcs.get(e['f']['id'])
    if d is None or d.get('body') is None:
        raise Unsupported('operator==')
    return E.inline(e['f']['id'], None, [E.actual(a, st) for a in args], st)


@H('std::rel_ops::operator!=')
def h_relne(E, st, e, args):
    a, b = E.val(args[0], st), E.val(args[1], st)
    return bnot(val_eq(E, a, b, st))


# --------------------------------------------------------------------------------- function
@H('std::function::(ctor)')
def h_fnctor(E, st, e, args):
    if e.get('copy') or e.get('move'):
        return E.copy_from(args[0], st, e.get('move'))
    real = [a for a in args if a['k'] != 'CXXDefaultArgExpr']
    if not real:
        return Fn([(TRUE, None)])
    return to_fn(E, E.val(real[0], st))


@H('std::function::operator=')
def h_fnassign(E, st, e, args):
    l = obj(E, e, st)
    v = E.val(args[0], st)
    E.store(l, to_fn(E, v), st, e.get('l', 0))
    return l


@H('std::function::(conv)')
def h_fnconv(E, st, e, args):
    l, v = cload(E, e, st)
    return bnot(E.is_null(v))


@H('std::function::operator()')
def h_fncall(E, st, e, args):
    l, v = cload(E, e, st)
    return E.call_fn(v, [E.actual(a, st) for a in args], st, e)


@H('std::function::swap', 'std::swap', *cm('swap'))
def h_swap(E, st, e, args):
    a = obj(E, e, st) if 'obj' in e else E.lv(args[0], st)
    b = E.lv(args[-1], st)
    x, y = E.load(a, st), E.load(b, st)
    E.store(a, y, st)
    E.store(b, x, st)
    return None


@H('std::bind')
def h_bind(E, st, e, args):
    f = E.val(args[0], st)
    vs = [E.val(a, st) for a in args[1:]]
    return Fn([(TRUE, Bound(f, vs))])


# --------------------------------------------------------------------------------- unique_ptr
@H('std::unique_ptr::(ctor)')
def h_upctor(E, st, e, args):
    t = E.p.deref(e['t'])
    if e.get('move'):
        return E.copy_from(args[0], st, True)
    p = E.val(args[0], st) if args and args[0]['k'] != 'CXXDefaultArgExpr' else NULLP
    d = Fn([(TRUE, None)])
    dt = E.p.rec(E.T(t)['args'][1]['t'])
    if len(args) > 1 and args[1]['k'] != 'CXXDefaultArgExpr':
        d = to_fn(E, E.val(args[1], st))
    elif dt == 'std::default_delete':
        raise Unsupported('unique_ptr owning heap memory')
    else:
        # functor type with a call operator, default constructed
        rec = E.p.records.get(E.T(E.T(t)['args'][1]['t']).get('rid'))
        if rec and rec.get('call'):
            d = Fn([(TRUE, FuncRef(rec['call'], E.temp(E.zero(E.T(t)['args'][1]['t']), st)))])
        else:
            raise Unsupported('unique_ptr deleter')
    return SV('std::unique_ptr', t, {'p': p, 'd': d})


@H('std::unique_ptr::release')
def h_uprelease(E, st, e, args):
    l, v = cload(E, e, st)
    E.store(l, v.with_('p', NULLP), st)
    return v.f['p']


@H('std::unique_ptr::get')
def h_upget(E, st, e, args):
    l, v = cload(E, e, st)
    return v.f['p']


@H('std::unique_ptr::(conv)')
def h_upconv(E, st, e, args):
    l, v = cload(E, e, st)
    return bnot(E.is_null(v.f['p']))


@H('std::unique_ptr::operator->')
def h_uparrow(E, st, e, args):
    l, v = cload(E, e, st)
    return v.f['p']


@H('std::unique_ptr::operator*')
def h_upderef(E, st, e, args):
    l, v = cload(E, e, st)
    return E.deref(v.f['p'], st, e.get('l', 0))


@H('std::unique_ptr::reset')
def h_upreset(E, st, e, args):
    l, v = cload(E, e, st)
    E.uptr_reset(v, st)
    p = E.val(args[0], st) if args and args[0]['k'] != 'CXXDefaultArgExpr' else NULLP
    E.store(l, v.with_('p', p), st)
    return None


# --------------------------------------------------------------------------------- optional
def opt(E, t, has, v=None):
    if v is None:                       # never read
        ty = E.T(E.p.deref(t))['args'][0]['t']
        try:
            v = NULLP if E.T(ty)['k'] == 'ptr' and not E.is_charptr(ty) or \
                E.p.rec(ty) == 'std::reference_wrapper' else E.fresh_val(ty, 'none')
        except Unsupported:
            v = E.zero(ty)
    return SV('std::optional', t, {'has': has, 'v': v})


def opt_of(E, t, a, st):
    """optional of type t from one argument"""
    if E.p.rec(a['t']) == 'std::nullopt_t':
        return opt(E, t, FALSE)
    v = E.val(a, st)
    if isinstance(v, LV):
        v = E.aval(v, st)
    if isinstance(v, SV) and v.n == 'std::optional':
        return SV('std::optional', t, v.f)
    return opt(E, t, TRUE, conv_init(E, v, E.T(E.p.deref(t))['args'][0]['t'], st))


@H('std::optional::(ctor)')
def h_optctor(E, st, e, args):
    t = E.p.deref(e['t'])
    if e.get('copy') or e.get('move'):
        return E.copy_from(args[0], st, e.get('move'))
    real = [a for a in args if a['k'] != 'CXXDefaultArgExpr']
    if not real:
        return opt(E, t, FALSE)
    if E.p.rec(real[0]['t']) == 'std::in_place_t':
        ty = E.T(t)['args'][0]['t']
        return opt(E, t, TRUE, build(E, ty, [E.actual(a, st) for a in real[1:]], st))
    if len(real) != 1:
        raise Unsupported('optional constructor')
    return opt_of(E, t, real[0], st)


@H('std::make_optional')
def h_mkopt(E, st, e, args):
    t = E.p.deref(e['t'])
    ty = E.T(t)['args'][0]['t']
    return opt(E, t, TRUE, build(E, ty, [E.actual(a, st) for a in args], st))


@H('std::optional::operator=')
def h_optassign(E, st, e, args):
    l = obj(E, e, st)
    old = E.load(l, st)
    E.store(l, opt_of(E, old.t, args[0], st), st, e.get('l', 0))
    return l


@H('std::optional::emplace')
def h_optemplace(E, st, e, args):
    l, v = cload(E, e, st)
    ty = E.T(E.p.deref(v.t))['args'][0]['t']
    E.store(l, opt(E, v.t, TRUE, build(E, ty, [E.actual(a, st) for a in args], st)), st)
    return l.sub(('f', 'v'))


@H('std::optional::reset')
def h_optreset(E, st, e, args):
    l, v = cload(E, e, st)
    E.store(l, opt(E, v.t, FALSE), st)
    return None


@H('std::optional::has_value', 'std::optional::(conv)', 'std::optional::operator bool',
   'std::_Optional_base_impl::_M_is_engaged')
def h_opthas(E, st, e, args):
    l, v = cload(E, e, st)
    return v.f['has']


@H('std::optional::operator*', 'std::optional::value')
def h_optderef(E, st, e, args):
    l, v = cload(E, e, st)
    E.oblige(st, v.f['has'], 'optional has a value', e.get('l', 0))
    return l.sub(('f', 'v'))


@H('std::optional::operator->')
def h_optarrow(E, st, e, args):
    return lvptr(h_optderef(E, st, e, args))


@H('std::optional::value_or')
def h_optor(E, st, e, args):
    l, v = cload(E, e, st)
    d = conv_init(E, E.val(args[0], st), E.T(E.p.deref(v.t))['args'][0]['t'], st)
    return E.merge_val(v.f['has'], v.f['v'], d)


@H('std::reference_wrapper::(ctor)')
def h_rwctor(E, st, e, args):
    if e.get('copy') or e.get('move'):
        return E.copy_from(args[0], st, e.get('move'))
    v = E.val(args[0], st) if E.p.rec(args[0]['t']) == 'std::reference_wrapper' else None
    return v if isinstance(v, Ptr) else lvptr(E.lv(args[0], st))


@H('std::reference_wrapper::get', 'std::reference_wrapper::(conv)')
def h_rwget(E, st, e, args):
    return E.deref(E.val(e['obj'], st), st, e.get('l', 0))


# --------------------------------------------------------------------------------- scope exit
@H('rcpputils::make_scope_exit')
def h_scope(E, st, e, args):
    return Obj('scope_exit', fn=E.val(args[0], st), active=TRUE)


@H('rcpputils::scope_exit::(ctor)')
def h_scopector(E, st, e, args):
    if e.get('move') or e.get('copy'):
        l = E.lv(args[0], st) if E.glv(args[0]) else None
        if l is None:
            return E.ev(args[0], st)
        v = E.load(l, st)
        E.store(l, v.with_(active=FALSE), st)
        return v
    return Obj('scope_exit', fn=E.val(args[0], st), active=TRUE)


@H('rcpputils::scope_exit::cancel')
def h_cancel(E, st, e, args):
    l, v = cload(E, e, st)
    E.store(l, v.with_(active=FALSE), st)
    return None


# --------------------------------------------------------------------------------- locks
@H('std::lock_guard::(ctor)', 'std::unique_lock::(ctor)', 'std::scoped_lock::(ctor)')
def h_lock(E, st, e, args):
    if e.get('move'):
        l = E.lv(args[0], st) if E.glv(args[0]) else None
        if l is None:
            return E.ev(args[0], st)
        v = E.load(l, st)
        E.store(l, v.with_(held=FALSE), st)
        return v
    if not args:
        return Obj('lock', lv=LV([]), held=FALSE)
    m = E.lv(args[0], st)
    if len(args) == 2:
        tag = E.p.rec(args[1]['t'])
        if tag == 'std::defer_lock_t':
            return Obj('lock', lv=m, held=FALSE)
        if tag == 'std::adopt_lock_t':
            return Obj('lock', lv=m, held=TRUE)
        raise Unsupported('lock with tag %s' % tag)
    if len(args) > 2:
        raise Unsupported('multi-mutex lock')
    E.lock(m, st, e.get('l', 0))
    return Obj('lock', lv=m, held=TRUE)


@H('std::unique_lock::lock')
def h_ullock(E, st, e, args):
    l, v = cload(E, e, st)
    E.oblige(st, bnot(v.a['held']), 'lock not already held', e.get('l', 0), kind='lock')
    E.lock(v.a['lv'], st, e.get('l', 0))
    E.store(l, v.with_(held=TRUE), st)
    return None


@H('std::unique_lock::unlock')
def h_ulunlock(E, st, e, args):
    l, v = cload(E, e, st)
    E.oblige(st, v.a['held'], 'unlock of a held lock', e.get('l', 0), kind='lock')
    E.unlock(v.with_(held=TRUE), st)
    E.store(l, v.with_(held=FALSE), st)
    return None


@H('std::unique_lock::owns_lock', 'std::unique_lock::(conv)')
def h_ulowns(E, st, e, args):
    l, v = cload(E, e, st)
    return v.a['held']


@H('std::mutex::lock')
def h_mlock(E, st, e, args):
    E.lock(obj(E, e, st), st, e.get('l', 0))
    return None


@H('std::mutex::unlock')
def h_munlock(E, st, e, args):
    l = obj(E, e, st)
    m = E.peek(l, st)
    E.oblige(st, m.a['held'], 'unlock of a held lock', e.get('l', 0), kind='lock')
    E.poke(l, m.with_(held=FALSE), st)
    return None


# --------------------------------------------------------------------------------- strings
def str_len(E, s):
    if E.native:
        n = Length(s)
        if is_string_value(s):
            return IntVal(len(s.as_string()))
        return n
    f = E.caches.setdefault('strlen', {})
    k = s.get_id()
    if lit_of(E, s) is not None:
        return IntVal(len(lit_of(E, s).encode('latin-1', 'replace')))
    if k not in f:
        F = Function('slen', E.Str, IntSort())
        n = F(s)
        f[k] = (s, n)
        E.fact((n == 0) == (s == E.strlit('')))
        E.range(n, 0, 1 << 60)
    return f[k][1]


def sarg(E, a, st):
    """string-like argument -> Str term"""
    v = E.val(a, st)
    return s_of(E, v, st, a.get('l', 0))


def s_of(E, v, st, line=0):
    if isinstance(v, Ptr):
        v = E.as_cstr(v)
    if isinstance(v, Obj) and v.kind == 'strlit':
        return E.strlit(bytes(c & 255 for c in v.a['v']).split(b'\0')[0].decode('latin1'))
    if isinstance(v, ExprRef):
        if v.sort().eq(E.CStr):
            E.oblige(st, bnot(E.is_cnull(v)), 'string built from a non-null pointer', line)
            h = E.handlers.get('!read_cstr')
            if h:
                h(E, st, v, line)
            return E.cstr_of(v)
        if v.sort().eq(E.Str):
            return v
        if is_int(v) and E.native:
            if ival(v) is not None:
                return StringVal(chr(ival(v) & 255))
            return StrFromCode(v)
    raise Unsupported('string from %s %s' % (type(v).__name__, getattr(v, 'kind', '')))


@H('std::basic_string::(ctor)', 'std::basic_string_view::(ctor)')
def h_strctor(E, st, e, args):
    if e.get('copy') or e.get('move'):
        return E.copy_from(args[0], st, e.get('move'))
    real = [a for a in args if a['k'] != 'CXXDefaultArgExpr' and
            E.p.rec(a['t']) != 'std::allocator']
    if not real:
        return E.strlit('')
    vs = [E.val(a, st) for a in real]
    if len(vs) == 1:
        return s_of(E, vs[0], st, e.get('l', 0))
    h = E.handlers.get('!string_range')
    if h:
        return h(E, st, e, vs)
    raise Unsupported('string constructor')


def concat(E, a, b):
    if E.native:
        return Concat(a, b)
    f = Function('scat', E.Str, E.Str, E.Str)
    return f(a, b)


@H('std::operator+')
def h_strplus(E, st, e, args):
    return concat(E, sarg(E, args[0], st), sarg(E, args[1], st))


@H('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def h_strapp(E, st, e, args):
    l, v = cload(E, e, st)
    if len([a for a in args if a['k'] != 'CXXDefaultArgExpr']) != 1:
        raise Unsupported('append of a substring')
    E.store(l, concat(E, v, sarg(E, args[0], st)), st, e.get('l', 0))
    return l


@H('std::basic_string::operator=', 'std::basic_string::assign')
def h_strassign(E, st, e, args):
    l = obj(E, e, st)
    if len(args) != 1:
        raise Unsupported('assign of a substring')
    v = sarg(E, args[0], st)
    if args[0].get('vk') == 'x':
        E.moved(E.lv(args[0], st), v, st)
    E.store(l, v, st, e.get('l', 0))
    return l


@H('std::basic_string::(conv)')
def h_strview(E, st, e, args):
    l, v = cload(E, e, st)
    return v


@H('std::basic_string::c_str', 'std::basic_string::data')
def h_cstr(E, st, e, args):
    l, v = cload(E, e, st)
    return E.cstr(v)


@H('std::basic_string::size', 'std::basic_string::length')
def h_strsize(E, st, e, args):
    l, v = cload(E, e, st)
    return str_len(E, v)


@H('std::basic_string::empty')
def h_strempty(E, st, e, args):
    l, v = cload(E, e, st)
    return teq(v, E.strlit(''))


@H('std::basic_string::clear')
def h_strclear(E, st, e, args):
    E.store(obj(E, e, st), E.strlit(''), st, e.get('l', 0))
    return None


@H('std::basic_string::compare')
def h_strcompare(E, st, e, args):
    l, v = cload(E, e, st)
    if len(args) == 1:
        o = sarg(E, args[0], st)
        r = E.fresh_int('scmp', -(1 << 31), (1 << 31) - 1)
        E.fact((r == 0) == (v == o))
        return r
    if len(args) == 3:
        p, n = E.val(args[0], st), E.val(args[1], st)
        o = sarg(E, args[2], st)
        E.oblige(st, ile(p, str_len(E, v)), 'substring position within the string', e.get('l', 0))
        r = E.fresh_int('scmp', -(1 << 31), (1 << 31) - 1)
        E.fact((r == 0) == (substr(E, v, p, n) == o))
        return r
    raise Unsupported('string compare')


def starts(E, s, p):
    """s begins with p"""
    if E.native:
        return PrefixOf(p, s)
    a, b = lit_of(E, s), lit_of(E, p)
    if a is not None and b is not None:
        return BoolVal(a.startswith(b))
    if b == '':
        return TRUE
    r = Function('starts_with', E.Str, E.Str, BoolSort())(s, p)
    E.fact(bimp(r, str_len(E, s) >= str_len(E, p)))
    E.fact(bimp(teq(s, p), r))
    return r


def substr(E, s, p, n):
    L = str_len(E, s)
    m = bif(ilt(isub(L, p), n), isub(L, p), n)
    if E.native:
        return SubString(s, p, m)
    r = Function('substr', E.Str, IntSort(), IntSort(), E.Str)(s, p, n)
    E.fact(bimp(And(teq(p, IntVal(0)), L <= n), r == s))
    E.fact(bimp(p <= L, str_len(E, r) == m))
    if ival(p) == 0 and ival(n) is not None:
        def watch(text, t):
            if len(text.encode('latin-1', 'replace')) == ival(n):
                E.fact((r == t) == starts(E, s, t))
        if not hasattr(E, 'lit_watch'):
            E.lit_watch = []
        E.lit_watch.append(watch)
        for text, t in list(E.lits.items()):
            watch(text, t)
    return r


@H('std::basic_string::substr')
def h_substr(E, st, e, args):
    l, v = cload(E, e, st)
    args = [a for a in args if a['k'] != 'CXXDefaultArgExpr']
    p = E.val(args[0], st) if args else IntVal(0)
    n = E.val(args[1], st) if len(args) > 1 else IntVal((1 << 64) - 1)
    E.oblige(st, ile(p, str_len(E, v)), 'substring position within the string', e.get('l', 0))
    return substr(E, v, p, n)


@H('std::basic_string::starts_with')
def h_starts(E, st, e, args):
    l, v = cload(E, e, st)
    return starts(E, v, sarg(E, args[0], st))


NPOS = (1 << 64) - 1


@H('std::basic_string::find')
def h_strfind(E, st, e, args):
    l, v = cload(E, e, st)
    s = sarg(E, args[0], st)
    args = [a for a in args if a['k'] != 'CXXDefaultArgExpr']
    p = E.val(args[1], st) if len(args) > 1 else IntVal(0)
    if len(args) > 2:
        raise Unsupported('find of a buffer')
    if E.native:
        i = IndexOf(v, s, p)
        return If(i < 0, IntVal(NPOS), i)
    i = Function('find', E.Str, E.Str, IntSort(), IntSort())(v, s, p)
    E.fact(Or(i == NPOS, And(p <= i, i + str_len(E, s) <= str_len(E, v))))
    E.fact(bimp(p == 0, (i == 0) == starts(E, v, s)))
    E.bounds[i.get_id()] = (0, NPOS, i)
    return i


@H('std::basic_string::rfind')
def h_strrfind(E, st, e, args):
    l, v = cload(E, e, st)
    s = sarg(E, args[0], st)
    args = [a for a in args if a['k'] != 'CXXDefaultArgExpr']
    p = E.val(args[1], st) if len(args) > 1 else IntVal(NPOS)
    if ival(p) == 0 and len(args) == 2:
        return bif(starts(E, v, s), IntVal(0), IntVal(NPOS))
    raise Unsupported('rfind')


@H('strcmp', 'std::strcmp')
def h_strcmp(E, st, e, args):
    a, b = sarg(E, args[0], st), sarg(E, args[1], st)
    r = E.fresh_int('strcmp', -(1 << 31), (1 << 31) - 1)
    E.fact((r == 0) == (a == b))
    return r


def byte_ptr(E, p, st):
    return isinstance(p, Ptr) and not E.opaque_bytes and all(x and x[0] == 'lv' for g, x in p.alts) \
        and is_bytes(E, p, st)


@H('strncpy', 'std::strncpy')
def h_strncpy(E, st, e, args):
    ln = e.get('l', 0)
    d, s, n = [E.val(a, st) for a in args]
    if not byte_ptr(E, d, st) or not byte_ptr(E, s, st) or ival(n) is None:
        raise Unsupported('strncpy')
    n = ival(n)
    dl, do, da = fixed(E, d, n, st, ln, 'strncpy')
    sl, so, sa = fixed(E, s, n, st, ln, 'strncpy')
    xs, ys = E.arr_items(da), E.arr_items(sa)
    live = TRUE
    for i in range(n):
        live = band(live, bnot(teq(ys[so + i], IntVal(0))))
        xs[do + i] = bif(live, ys[so + i], IntVal(0))
    E.store(dl, Arr(da.n, items=xs), st, ln)
    return d


@H('strncmp', 'std::strncmp')
def h_strncmp(E, st, e, args):
    ln = e.get('l', 0)
    p, q, n = [E.val(a, st) for a in args]
    if byte_ptr(E, p, st) and byte_ptr(E, q, st) and ival(n) is not None:
        n = ival(n)
        pl, po, pa = fixed(E, p, n, st, ln, 'strncmp')
        ql, qo, qa = fixed(E, q, n, st, ln, 'strncmp')
        lt, eq = FALSE, TRUE
        for a, b in reversed(list(zip(E.arr_items(pa)[po:po + n], E.arr_items(qa)[qo:qo + n]))):
            c = band(teq(a, b), bnot(teq(a, IntVal(0))))
            lt = bor(ilt(a, b), band(c, lt))
            eq = bor(band(teq(a, b), teq(a, IntVal(0))), band(c, eq))
        r = E.fresh_int('strncmp', -(1 << 31), (1 << 31) - 1)
        E.fact((r == 0) == eq)
        E.fact((r < 0) == lt)
        return r
    a, b = sarg(E, args[0], st), sarg(E, args[1], st)
    n = E.val(args[2], st)
    if not E.native:
        raise Unsupported('strncmp')
    r = E.fresh_int('strncmp', -(1 << 31), (1 << 31) - 1)
    E.fact((r == 0) == (SubString(a, 0, n) == SubString(b, 0, n)))
    return r


@H('strlen', 'std::strlen')
def h_strlen(E, st, e, args):
    v = E.val(args[0], st)
    return str_len(E, s_of(E, v, st, e.get('l', 0)))


# --------------------------------------------------------------------------------- streams
@H('std::operator<<', 'std::basic_ostream::operator<<', 'std::filesystem::operator<<')
def h_shl(E, st, e, args):
    a = e['args']
    l = E.lv(a[0], st)
    for x in a[1:]:
        v = E.actual(x, st)
        if isinstance(v, LV) and not v.alts[0][1].startswith('g:'):
            try:
                E.load(v, st, e.get('l', 0))
            except Unsupported:
                pass
    return l


@H('std::basic_ostringstream::str', 'std::basic_stringstream::str')
def h_osstr(E, st, e, args):
    return E.fresh('text', E.Str)


@H('std::basic_ostringstream::(ctor)', 'std::basic_stringstream::(ctor)')
def h_osctor(E, st, e, args):
    return Obj('ostream')


@H('std::to_string')
def h_tostring(E, st, e, args):
    E.val(args[0], st)
    return E.fresh('text', E.Str)
