"""Loops: exact unrolling when every guard is concretely decided; otherwise inductive invariants,
inferred from candidate templates (Houdini) and then re-proved as obligations.

Ghost k counts completed iterations.  Every value the body may change (a "carrier") is replaced at
the loop head by an arbitrary value; candidates say how it depends on k.
"""
from .terms import *  # noqa
from .interp import *  # noqa
from . import stdlib

UNROLL = 200
MORE = 12


class Cand:
    """candidate invariant: fn(k, st) -> Bool; func = (leaf, value function of k) if functional"""
    __slots__ = ('name', 'fn', 'func', 'assume')

    def __init__(self, name, fn, func=None, assume=None):
        self.name, self.fn, self.func, self.assume = name, fn, func, assume


class Fold:
    """recursive function over loop indices supplied by a contract: F(0)=init,
    F(k+1)=step(F(k),k)"""

    def __init__(self, E, name, sort, init, step):
        self.f = Function('%s!%d' % (name, next(E.cnt)), IntSort(), sort)
        self.init, self.step, self.name = init, step, name
        self.sort = sort
        E.folds.append(self)
        E.fact(self.f(0) == init)
        self.E = E

    def unfold(self, k):
        self.E.fact(self.f(iadd(k, IntVal(1))) == self.step(self.f(k), k))

    def __call__(self, k):
        return self.f(k)


def run(E, s, st, cv, cond, inc, body, var=None):
    def evcond(z):
        if cv:
            E.ex_DeclStmt(cv, z)
        if cond is None:
            return TRUE
        return E.ev(cond, z)

    def iterate(z):
        """one iteration from a state where the guard holds; returns outcomes, inc applied"""
        E.fr.scopes.append([])
        if var:
            E.ex_DeclStmt(var, z)
        outs = E.leave(E.ex(body, z))
        res = []
        norm = []
        for o in outs:
            if o.k in ('norm', 'cont'):
                norm.append((o.st, None))
            else:
                res.append(o)
        if norm:
            z = E.merge(norm)[0]
            try:
                if inc is not None:
                    E.discard(inc, z)
                res.append(Out('norm', z))
            except Dead:
                pass
        return res
    return generic(E, st, evcond, iterate, s.get('l', 0), s)


def run_do(E, s, st):
    # do B while (c)  ==  B; while (c) B     (break leaves, continue goes to the guard)
    outs = E.ex(s['body'], st)
    res, norm, brk = [], [], []
    for o in outs:
        if o.k in ('norm', 'cont'):
            norm.append((o.st, None))
        elif o.k == 'brk':
            brk.append(Out('norm', o.st))
        else:
            res.append(o)
    if norm:
        z = E.merge(norm)[0]
        res += run(E, s, z, None, s['cond'], None, s['body'])
    return E.merge_outs(res + brk)


def run_range(E, st, rng, body, e):
    idx = E.newroot('rangeidx', rng.lo, st)

    def evcond(z):
        return ilt(z.store[idx], rng.hi)

    def iterate(z):
        j = z.store[idx]
        E.interested(rng.tag, j)
        body(z, rng.elem(j))
        z.store[idx] = iadd(j, IntVal(1))
        return [Out('norm', z)]
    outs = generic(E, st, evcond, iterate, e.get('l', 0), e, counter=(idx, rng.hi))
    if not outs:
        raise Dead()
    m, _ = E.merge([(o.st, None) for o in outs])
    st.assign(m)
    st.store.pop(idx, None)


def generic(E, st, evcond, iterate, line, node, counter=None):
    cur = st
    done, other = [], []
    for it in range(UNROLL):
        un = cmap_range(E, cur)
        if un:
            root, path, obj, n = un
            i = obj.a['i']
            norm = []
            for j in range(n):
                z = cur.fork(teq(obj.a['perm'][i], IntVal(j)))
                if not E.feasible(z):
                    continue
                v = obj.with_(cur=j)
                z.store[root] = E.putpath(z.store[root], path, v) if path else v
                try:
                    c = simplify(evcond(z))
                except Dead:
                    continue
                if not is_true(c):
                    raise Unsupported('loop over an unordered table with an early exit guard')
                for o in iterate(z):
                    if o.k == 'norm':
                        norm.append((o.st, None))
                    elif o.k == 'brk':
                        done.append((o.st, None))
                    else:
                        other.append(o)
            cur = None
            if not norm:
                break
            cur = E.merge(norm)[0]
            continue
        trial = cur.fork()
        try:
            c = evcond(trial)
        except Dead:
            return other + ([Out('norm', E.merge(done)[0])] if done else [])
        c = simplify(c)
        if is_false(c):
            done.append((trial, None))
            break
        if not is_true(c):
            outs = unroll_rest(E, cur, evcond, iterate) if it else None
            if outs is None:
                outs = symbolic(E, cur, evcond, iterate, line, counter)
            for o in outs:
                if o.k == 'norm':
                    done.append((o.st, None))
                else:
                    other.append(o)
            break
        cur = None
        norm = []
        for o in iterate(trial):
            if o.k == 'norm':
                norm.append((o.st, None))
            elif o.k == 'brk':
                done.append((o.st, None))
            else:
                other.append(o)
        if not norm:
            break
        cur = E.merge(norm)[0]
    else:
        raise Unsupported('loop at line %s unrolls too far' % line)
    if done:
        other.append(Out('norm', E.merge(done)[0]))
    return E.merge_outs(other)


def unroll_rest(E, st, evcond, iterate):
    """complete unrolling of a loop that began with concrete guards: the outcomes, or None if the
    guard can still hold after MORE further iterations"""
    snap = E.snapshot()
    obls, ids = len(E.obls), set(E.obl_ids)
    cur = st.fork()
    try:
        res = unroll_from(E, cur, evcond, iterate)
    except Unsupported:
        res = None
    if res is not None:
        E.commit(snap)
        return E.merge_outs(res)
    E.restore(snap)
    del E.obls[obls:]
    E.obl_ids.intersection_update(ids)
    return None


def unroll_from(E, cur, evcond, iterate):
    res = []
    for _ in range(MORE):
        z = cur.fork()
        try:
            c = evcond(z)
        except Dead:
            return res
        ex = z.fork(bnot(c))
        if E.feasible(ex):
            res.append(Out('norm', ex))
        go = z.fork(c)
        if not E.feasible(go):
            return res
        norm = []
        for o in iterate(go):
            if o.k == 'norm':
                norm.append((o.st, None))
            else:
                res.append(Out('norm', o.st) if o.k == 'brk' else o)
        if not norm:
            return res
        cur = E.merge(norm)[0]
    return None


def cmap_range(E, st):
    """an iterator over an unordered table of literals that still has elements to visit"""
    found = []
    for root, v in st.store.items():
        if isinstance(v, Obj) and v.kind == 'cmapit' and v.a['perm'] is not None and \
                v.a['cur'] is None and v.a['i'] < len(v.a['perm']) and root.startswith('__begin'):
            found.append((root, (), v, len(v.a['perm'])))
    return found[-1] if found else None


# ------------------------------------------------------------------------------ carriers
def guarded(E, st, leaves, cands):
    """numbers without a formula of their own that may have one where a flag of the loop is set
    (or is not)"""
    func = {x.func[0] for x in cands if x.func}
    get = lambda z, key: E.getpath(z.store[leaves[key][0]], leaves[key][1])  # noqa
    scal = [key for key in leaves if isinstance(get(st, key), ExprRef)]
    out = []
    for key in scal:
        if key in func or not is_int(get(st, key)):
            continue
        for b in scal:
            if not is_bool(get(st, b)):
                continue
            for F in E.folds:
                if F.sort == IntSort():
                    for pos in (True, False):
                        out.append(Cand('%s: fold %s where %s%s' % (
                            leafname(*leaves[key]), F.name, '' if pos else 'not ',
                            leafname(*leaves[b])), lambda k, z, key=key, b=b, F=F, pos=pos: bimp(
                                get(z, b) if pos else bnot(get(z, b)), teq(get(z, key), F(k)))))
    keep = []
    for c in out:
        if E.valid(st, c.fn(IntVal(0), st), limit=600000):
            keep.append(c)
    return keep


def diff(E, old, new, root, path, out):
    if old is new:
        return
    if isinstance(old, ExprRef) and isinstance(new, ExprRef) and old.eq(new):
        return
    if isinstance(old, SV) and isinstance(new, SV) and old.n == new.n and \
            set(old.f) == set(new.f):
        for k in old.f:
            diff(E, old.f[k], new.f[k], root, path + (('f', k),), out)
        return
    if isinstance(old, VecIt) and isinstance(new, VecIt) and old.lv.key() == new.lv.key() and \
            old.idx.eq(new.idx):
        return
    if isinstance(old, MapIt) and isinstance(new, MapIt) and old.lv.key() == new.lv.key() and \
            old.end.eq(new.end) and old.key.eq(new.key):
        return
    if isinstance(old, Seq) and isinstance(new, Seq) and old.ln.eq(new.ln) and \
            old.arr.eq(new.arr):
        return
    if isinstance(old, Own) and isinstance(new, Own) and old.ln.eq(new.ln) and \
            old.arr.eq(new.arr) and old.null.eq(new.null):
        return
    if isinstance(old, Map) and isinstance(new, Map) and old.dom.eq(new.dom) and \
            old.val.eq(new.val):
        return
    if isinstance(old, SetV) and isinstance(new, SetV) and old.dom.eq(new.dom):
        return
    if isinstance(old, Ptr) and isinstance(new, Ptr) and len(old.alts) == len(new.alts) and \
            all(E.tkey(a[1]) == E.tkey(b[1]) and a[0].eq(b[0])
                for a, b in zip(old.alts, new.alts)):
        return
    if isinstance(old, CSeq) and isinstance(new, CSeq) and len(old.items) == len(new.items) and \
            all(a is b or isinstance(a, ExprRef) and isinstance(b, ExprRef) and a.eq(b)
                for a, b in zip(old.items, new.items)):
        return
    if isinstance(old, Obj) and isinstance(new, Obj) and old.kind == new.kind and \
            all(old.a[k] is new.a[k] or isinstance(old.a[k], ExprRef) and
                isinstance(new.a[k], ExprRef) and old.a[k].eq(new.a[k]) for k in old.a):
        return
    if isinstance(old, Arr) and isinstance(new, Arr):
        if old.term is not None and new.term is not None and old.term.eq(new.term):
            return
        if old.items is not None and new.items is not None and \
                all(a.eq(b) for a, b in zip(old.items, new.items)):
            return
    if isinstance(old, Conflict):
        return
    out[(root, pkey(path))] = (root, path)


def havoc_val(E, v, name):
    if isinstance(v, ExprRef):
        c = E.fresh(name, v.sort())
        return c
    if isinstance(v, CSeq) and not isinstance(v, Seq):
        v = E.as_seq(v)
    if isinstance(v, Seq):
        ln = E.fresh(name + '.ln', IntSort())
        E.nonneg_f(ln)
        return Seq(v.ety, ln, E.fresh(name + '.arr', v.arr.sort()))
    if isinstance(v, Own):
        ln = E.fresh(name + '.ln', IntSort())
        E.nonneg_f(ln)
        return Own(v.ety, E.fresh(name + '.null', BoolSort()), ln,
                   E.fresh(name + '.arr', v.arr.sort()))
    if isinstance(v, CMap):
        v = E.as_map(v)
    if isinstance(v, Map):
        return Map(v.t, v.kty, v.vty, E.fresh(name + '.dom', v.dom.sort()),
                   E.fresh(name + '.val', v.val.sort()))
    if isinstance(v, SetV):
        return SetV(v.t, v.kty, E.fresh(name + '.dom', v.dom.sort()))
    if isinstance(v, Arr):
        if v.items is not None and not E.opaque_bytes:
            return Arr(v.n, items=[E.fresh(name, IntSort()) for _ in v.items])
        return Arr(v.n, term=E.fresh(name, E.arr_sort(v.n)[0]))
    if isinstance(v, VecIt):
        return VecIt(v.lv, E.fresh(name + '.idx', IntSort()))
    if isinstance(v, MapIt):
        return MapIt(v.lv, E.fresh(name + '.end', BoolSort()), E.fresh(name + '.key',
                                                                       v.key.sort()))
    if isinstance(v, Obj) and v.kind == 'mutex':
        return Obj('mutex', held=E.fresh(name + '.held', BoolSort()),
                   epoch=E.fresh(name + '.epoch', IntSort()))
    if isinstance(v, Obj) and v.kind == 'ifstream':
        return v.with_(pos=E.fresh(name + '.pos', IntSort()), ok=E.fresh(name + '.ok', BoolSort()))
    if isinstance(v, SV) and v.n not in ('std::unique_ptr',):
        return SV(v.n, v.t, {k: havoc_val(E, x, name + '.' + k) for k, x in v.f.items()})
    if isinstance(v, Conflict):
        return v
    if isinstance(v, Ptr) and ptr_parts(v):
        return ptr_at(v, E.fresh(name + '.idx', IntSort()))
    raise Unsupported('loop changes a %s (%s)' % (type(v).__name__, name))


def index_of(v):
    """position of a counter, iterator or pointer into an array"""
    if isinstance(v, ExprRef) and is_int(v):
        return v
    if isinstance(v, VecIt):
        return v.idx
    if isinstance(v, Ptr):
        x = ptr_parts(v)
        return x[2] if x else None
    return None


def ptr_parts(v):
    """(alternatives, region, index) of a pointer into one array, else None; alternatives keep the
    guard and mark the null pointer by None"""
    got = [x for g, x in v.alts if x is not None]
    if not got or any(x[0] != 'lv' or not x[2] or x[2][-1][0] != 'i' for x in got):
        return None
    x = got[0]
    if any(y[1] != x[1] or pkey(y[2][:-1]) != pkey(x[2][:-1]) for y in got):
        return None
    idx = None
    for g, y in reversed(v.alts):
        if y is not None:
            i = y[2][-1][1]
            idx = i if idx is None or idx.eq(i) else bif(g, i, idx)
    return [(g, x is not None) for g, x in v.alts], (x[1], x[2][:-1]), idx


def ptr_at(v, idx):
    al, (root, path), _ = ptr_parts(v)
    return Ptr([(g, ('lv', root, path + (('i', idx),)) if live else None) for g, live in al])


def ptr_lv(v):
    _, (root, path), _ = ptr_parts(v)
    return LV([(TRUE, root, path)])


def leafname(root, path):
    return root.split('#')[0] + ''.join('.' + str(b) if isinstance(b, str) else '[]'
                                        for a, b in path)


def havoc(E, st, leaves, func, k):
    h = st.fork()
    vals = {}
    for key, (root, path) in leaves.items():
        v0 = E.getpath(h.store[root], path)
        if key in func:
            v = func[key](k)
        else:
            v = havoc_val(E, v0, 'L_' + leafname(root, path))
        vals[key] = v
        h.store[root] = E.putpath(h.store[root], path, v) if path else v
    return h


def leaf_cands(E, key, root, path, v0, h, k, st0, hterms):
    """template candidates for one carrier"""
    out = []
    nm = leafname(root, path)
    at = lambda st: E.getpath(st.store[root], path)  # noqa

    def add(name, fn, func=None):
        out.append(Cand(nm + ': ' + name, fn, (key, func) if func else None))

    def eqv(name, f, mk=None):
        """v == f(k) for scalar carriers"""
        add(name, lambda k, st: teq(at(st), f(k)), f)
    if isinstance(v0, ExprRef):
        eqv('unchanged', lambda k: v0)
        if is_int(v0):
            eqv('+k', lambda k: iadd(v0, k))
            eqv('-k', lambda k: isub(v0, k))
            for F in E.folds:
                if F.sort == IntSort():
                    eqv('fold ' + F.name, lambda k, F=F: F(k))
                    eqv('start+fold ' + F.name, lambda k, F=F: iadd(v0, F(k)))
                if F.sort == BoolSort():
                    eqv('fold as 0/1 ' + F.name,
                        lambda k, F=F: bif(F(k), IntVal(1), IntVal(0)))
            add('>=0', lambda k, st: ile(IntVal(0), at(st)))
            add('>= start', lambda k, st: ile(v0, at(st)))
            add('<= start', lambda k, st: ile(at(st), v0))
            add('<= start+k', lambda k, st: ile(at(st), iadd(v0, k)))
            for b in (1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64):
                add('< %d' % b, lambda k, st, b=b: ilt(at(st), IntVal(b)))
            for b in hterms:
                add('<= ' + str(b)[:30], lambda k, st, b=b: ile(at(st), b))
        elif is_bool(v0):
            for F in E.folds:
                if F.sort == BoolSort():
                    eqv('fold ' + F.name, lambda k, F=F: F(k))
                    eqv('not fold ' + F.name, lambda k, F=F: bnot(F(k)))
                    eqv('start or fold ' + F.name, lambda k, F=F: bor(v0, F(k)))
                    eqv('start and not fold ' + F.name,
                        lambda k, F=F: band(v0, bnot(F(k))))
            eqv('k>0', lambda k: k > 0)
            eqv('k==0', lambda k: k == 0)
        else:
            for F in E.folds:
                if F.sort == v0.sort():
                    eqv('fold ' + F.name, lambda k, F=F: F(k))
    elif isinstance(v0, VecIt):
        add('+k', lambda k, st: teq(at(st).idx, iadd(v0.idx, k)),
            lambda k: VecIt(v0.lv, iadd(v0.idx, k)))
        add('>=0', lambda k, st: ile(IntVal(0), at(st).idx))
        n = stdlib.vlen(E.peek(v0.lv, st0))
        for F in E.folds:
            if F.sort == IntSort():
                add('start+fold ' + F.name, lambda k, st, F=F: teq(at(st).idx, iadd(v0.idx, F(k))),
                    lambda k, F=F: VecIt(v0.lv, iadd(v0.idx, F(k))))
        add('<=size', lambda k, st: ile(at(st).idx, n))
    elif isinstance(v0, Ptr) and ptr_parts(v0):
        i0 = ptr_parts(v0)[2]
        ix = lambda st: ptr_parts(at(st))[2]  # noqa
        add('+k', lambda k, st: teq(ix(st), iadd(i0, k)), lambda k: ptr_at(v0, iadd(i0, k)))
        add('-k', lambda k, st: teq(ix(st), isub(i0, k)), lambda k: ptr_at(v0, isub(i0, k)))
        for F in E.folds:
            if F.sort == IntSort():
                add('start+fold ' + F.name, lambda k, st, F=F: teq(ix(st), iadd(i0, F(k))),
                    lambda k, F=F: ptr_at(v0, iadd(i0, F(k))))
        add('>=0', lambda k, st: ile(IntVal(0), ix(st)))
        add('<= start', lambda k, st: ile(ix(st), i0))
        for b in hterms:
            add('<= ' + str(b)[:30], lambda k, st, b=b: ile(ix(st), b))
            add('>= ' + str(b)[:30], lambda k, st, b=b: ile(b, ix(st)))
    elif isinstance(v0, MapIt):
        d, ks = stdlib.dom_of(E, E.peek(v0.lv, st0))
        en = stdlib.enum(E, d, ks)
        lo, _ = stdlib.it_ranks(E, v0, v0, st0)
        add('rank', lambda k, st: band(teq(at(st).end, ile(en.n, iadd(lo, k))),
                                       bor(at(st).end, teq(at(st).key, en.at(iadd(lo, k)))),
                                       ile(iadd(lo, k), en.n)),
            lambda k: MapIt(v0.lv, ile(en.n, iadd(lo, k)), en.at(iadd(lo, k))))
    elif isinstance(v0, (Seq, CSeq)):
        s0 = E.as_seq(v0)
        add('unchanged', lambda k, st: band(teq(vseq(E, at(st)).ln, s0.ln),
                                            teq(vseq(E, at(st)).arr, s0.arr)), lambda k: s0)
        add('len unchanged', lambda k, st: teq(vseq(E, at(st)).ln, s0.ln))
        add('len+k', lambda k, st: teq(vseq(E, at(st)).ln, iadd(s0.ln, k)))
        for F in E.folds:
            if F.sort == IntSort():
                add('len fold ' + F.name, lambda k, st, F=F: teq(vseq(E, at(st)).ln,
                                                                iadd(s0.ln, F(k))))
    elif isinstance(v0, Own):
        add('null unchanged', lambda k, st: teq(at(st).null, v0.null))
        add('not null', lambda k, st: bnot(at(st).null))
        add('len unchanged', lambda k, st: teq(at(st).ln, v0.ln))
    elif isinstance(v0, Obj) and v0.kind == 'mutex':
        add('unchanged', lambda k, st: band(teq(at(st).a['held'], v0.a['held']),
                                            teq(at(st).a['epoch'], v0.a['epoch'])),
            lambda k: v0)
        add('held unchanged', lambda k, st: teq(at(st).a['held'], v0.a['held']))
    elif isinstance(v0, Arr):
        t0 = E.arr_term(v0) if E.opaque_bytes else None
        if t0 is not None:
            add('unchanged', lambda k, st: teq(E.arr_term(at(st)), t0), lambda k: v0)
    elif isinstance(v0, SetV):
        add('unchanged', lambda k, st: teq(at(st).dom, v0.dom), lambda k: v0)
    elif isinstance(v0, (Map, CMap)):
        m0 = E.as_map(v0)
        add('dom unchanged', lambda k, st: teq(E.as_map(at(st)).dom, m0.dom))
    for hook in E.cand_hooks:
        out += hook(E, nm, root, path, v0, at, k, st0) or []
    return out


def vseq(E, v):
    return E.as_seq(v)


def bound_terms(c, created):
    """loop-invariant integer terms compared in the guard"""
    out = []
    todo = [c]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_app(x):
            if x.num_args() == 2 and x.arg(0).sort() == IntSort() and x.sort() == BoolSort():
                for y in x.children():
                    if not any_new(y, created):
                        out.append(y)
            else:
                todo += x.children()
    return out[:4]


def any_new(t, start):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_app(x):
            d = x.decl()
            if d.kind() == Z3_OP_UNINTERPRETED:
                n = d.name()
                if '!' in n:
                    try:
                        if int(n.rsplit('!', 1)[1]) >= start:
                            return True
                    except ValueError:
                        pass
            todo += x.children()
        elif is_quantifier(x):
            todo.append(x.body())
    return False


def symbolic(E, st, evcond, iterate, line, counter):
    start = next(E.cnt)
    E.loop_depth = getattr(E, 'loop_depth', 0) + 1
    try:
        return symbolic2(E, st, evcond, iterate, line, counter, start)
    finally:
        E.loop_depth -= 1


def norm_state(outs):
    return [o for o in outs if o.k == 'norm']


def interest_k(E, st, leaves, k):
    """register k as an index of interest for whatever the loop iterates over"""
    for key, (root, path) in leaves.items():
        v0 = E.getpath(st.store[root], path)
        if isinstance(v0, VecIt):
            E.interested(stdlib.seqtag(E, E.peek(v0.lv, st)), iadd(v0.idx, k))
        elif isinstance(v0, Ptr) and ptr_parts(v0):
            v = E.peek(ptr_lv(v0), st)
            if getattr(v, 'ety', None):
                E.interested(stdlib.seqtag(E, v), iadd(ptr_parts(v0)[2], k))
        elif isinstance(v0, MapIt):
            d, ks = stdlib.dom_of(E, E.peek(v0.lv, st))
            lo, _ = stdlib.it_ranks(E, v0, v0, st)
            stdlib.enum(E, d, ks)
            stdlib.want_rank(E, iadd(lo, k), ks)
            stdlib.want_rank(E, iadd(lo, iadd(k, IntVal(1))), ks)
    for F in E.folds:
        F.unfold(k)


def iter_tags(E, st, leaves):
    """tags of the terms that can stand for an iteration of this loop"""
    r = set()
    for key, (root, path) in leaves.items():
        v0 = E.getpath(st.store[root], path)
        if isinstance(v0, VecIt) and ival(v0.idx) == 0:
            r.add(stdlib.seqtag(E, E.peek(v0.lv, st)))
        elif isinstance(v0, Ptr) and ptr_parts(v0) and ival(ptr_parts(v0)[2]) == 0:
            v = E.peek(ptr_lv(v0), st)
            if getattr(v, 'ety', None):
                r.add(stdlib.seqtag(E, v))
        elif isinstance(v0, MapIt):
            d, ks = stdlib.dom_of(E, E.peek(v0.lv, st))
            r.add('rank:' + ks.name())
    return sorted(r) or ['*']


class NotFinal(Unsupported):
    """an iteration can change this value and the loop goes on"""

    def __init__(self, key):
        Unsupported.__init__(self, 'a value the guard depends on')
        self.key = key


def guards(E, st, leaves, evcond, key, root, path):
    """the guard depends on this number or flag"""
    snap = E.snapshot()
    E.dry += 1
    try:
        h = havoc(E, st, {**leaves, key: (root, path)}, {}, IntVal(0))
        x = E.getpath(h.store[root], path)
        c = evcond(h)
        return isinstance(c, ExprRef) and stdlib.mentions(c, x)
    except (Dead, Unsupported):
        return False
    finally:
        E.dry -= 1
        E.restore(snap)


def set_once(E, st, root, path):
    """a flag, a number or a pointer (not one into an array the loop walks) that may turn out to be
    changed only by the last iteration: the guard is false once it has another value"""
    v = E.getpath(st.store[root], path)
    if isinstance(v, ExprRef):
        return is_bool(v) or is_int(v)
    return isinstance(v, Ptr) and not ptr_parts(v) and len(v.alts) == 1


def changed(E, v, v0):
    if isinstance(v0, ExprRef):
        return bnot(teq(v, v0))
    x0 = v0.alts[0][1]
    if not isinstance(v, Ptr):
        raise Unsupported('loop changes a %s' % type(v).__name__)
    return bor(*[g for g, x in v.alts if (x is None) != (x0 is None) or
                 x is not None and E.tkey(x) != E.tkey(x0)])


def split_finals(E, z, outs, finals, evcond):
    """an iteration that changes one of these values must make the guard false; the loop then
    ends there"""
    res = []
    for o in outs:
        if o.k != 'norm':
            res.append(o)
            continue
        ch = FALSE
        for key, (root, path, v0) in finals.items():
            c = changed(E, E.getpath(o.st.store[root], path), v0)
            if is_false(c):
                continue
            ch = bor(ch, c)
            b = o.st.fork(c)
            if E.feasible(b) and not E.valid(b, bnot(evcond(b))):
                raise NotFinal(key)
        if is_false(ch):
            res.append(o)
            continue
        a = o.st.fork(bnot(ch))
        if E.feasible(a):
            for root, path, v0 in finals.values():
                a.store[root] = E.putpath(a.store[root], path, v0) if path else v0
            settle(E, z, a)
            res.append(Out('norm', a))
        b = o.st.fork(ch)
        if E.feasible(b):
            evcond(b)
            res.append(Out('brk', b))
    return res


def settle(E, z, a):
    """puts back the values that are as before on this path (they were changed together with the
    flag, on the other one)"""
    new = {}
    for root in z:
        if root in a.store:
            diff(E, z[root], a.store[root], root, (), new)
    for root, path in new.values():
        v, v0 = E.getpath(a.store[root], path), E.getpath(z[root], path)
        try:
            if isinstance(v, ExprRef) and isinstance(v0, ExprRef):
                same = v.sort() == v0.sort() and E.valid(a, teq(v, v0))
            elif isinstance(v, Ptr) and isinstance(v0, Ptr) and len(v0.alts) == 1:
                same = E.valid(a, bnot(changed(E, v, v0)))
            else:
                continue
        except Unsupported:
            continue
        if same:
            a.store[root] = E.putpath(a.store[root], path, v0) if path else v0


def houdini(E, st, evcond, iterate, leaves, cands, k):
    """the largest subset of the candidates that one iteration preserves"""
    for _ in range(40):
        snap = E.snapshot()
        E.dry += 1
        E.indist.append(k)
        bad = []
        try:
            h = havoc(E, st, leaves, {}, k)
            interest_k(E, st, leaves, k)
            assume(E, cands, k, h)
            try:
                c = evcond(h)
                outs = norm_state(iterate(h.fork(c)))
            except Dead:
                outs = []
            k1 = iadd(k, IntVal(1))
            for o in outs:
                live = [x for x in cands if x not in bad]
                bad += refute(E, o.st, live, k1)
        finally:
            E.indist.pop()
            E.dry -= 1
            E.restore(snap)
        if not bad:
            return cands
        cands = [x for x in cands if x not in bad]
    raise Unsupported('invariant inference does not stabilise')


def built(E, st, evcond, iterate, leaves, cands, k, start):
    """sequences to which every iteration appends one element that depends on k alone: candidate
    `contents = what was there, then element(0), element(1), ...`.  The array behind a sequence has
    no meaning from its length on, so the state before the loop may hold the final array already"""
    seqs = [key for key, (root, path) in leaves.items()
            if isinstance(E.getpath(st.store[root], path), (Seq, CSeq))]
    if not seqs:
        return []
    func = {}
    for x in cands:
        if x.func and x.func[0] not in func:
            func[x.func[0]] = x.func[1]
    got = {}
    snap = E.snapshot()
    E.dry += 1
    E.indist.append(k)
    try:
        h = havoc(E, st, leaves, func, k)
        interest_k(E, st, leaves, k)
        assume(E, cands, k, h)
        try:
            outs = norm_state(iterate(h.fork(evcond(h))))
        except Dead:
            outs = []
        for key in seqs:
            root, path = leaves[key]
            v = E.getpath(h.store[root], path)
            for o in outs:
                w = E.getpath(o.st.store[root], path)
                if isinstance(w, Seq) and is_app(w.arr) and w.arr.decl().kind() == Z3_OP_STORE and \
                        w.arr.arg(0).eq(v.arr) and w.arr.arg(1).eq(v.ln):
                    t = w.arr.arg(2)
                    if key not in got or got[key] is not None and got[key].eq(t):
                        got[key] = t
                        continue
                got[key] = None
    finally:
        E.indist.pop()
        E.dry -= 1
        E.restore(snap)
    out = []
    j = Int('j!bu')
    for key, t in got.items():
        if t is None or any_new(substitute(t, (k, IntVal(0))), start):
            continue
        root, path = leaves[key]
        v0 = E.as_seq(E.getpath(st.store[root], path))
        if ival(v0.ln) == 0 and is_app(t) and t.decl().kind() == Z3_OP_SELECT and \
                t.arg(1).eq(k) and t.arg(0).sort() == v0.arr.sort() and \
                not any_new(t.arg(0), start):
            arr = t.arg(0)
        elif ival(v0.ln) == 0:
            arr = Lambda([j], substitute(t, (k, j)))
        else:
            arr = Lambda([j], If(j < v0.ln, v0.arr[j], substitute(t, (k, j - v0.ln))))
        st.store[root] = E.putpath(st.store[root], path, Seq(v0.ety, v0.ln, arr)) if path \
            else Seq(v0.ety, v0.ln, arr)

        def holds(kk, s, root=root, path=path, arr=arr, v0=v0, t=t):
            w = E.getpath(s.store[root], path)
            if not isinstance(w, Seq):
                raise Unsupported('built sequence')
            g = teq(w.ln, iadd(v0.ln, kk))
            if w.arr.eq(arr):
                return g
            if is_app(w.arr) and w.arr.decl().kind() == Z3_OP_STORE and w.arr.arg(0).eq(arr):
                i = w.arr.arg(1)
                return band(g, ile(v0.ln, i),
                            teq(w.arr.arg(2), substitute(t, (k, isub(i, v0.ln)))))
            return band(g, teq(w.arr, arr))
        out.append(Cand(leafname(root, path) + ': built element by element', holds,
                        (key, lambda kk, v0=v0, arr=arr: Seq(v0.ety, iadd(v0.ln, kk), arr))))
    return out


def stuck(E, st, evcond, iterate, leaves, cands, k, start):
    """flags and counters that stay as they are until the first iteration with a certain property
    (one that can be told from k alone) and never return to the value they had: ghost F = the first
    such iteration (none says there is no such one), candidate `as before the loop iff k <= F`;
    other values changed together with them: candidate `what iteration F gave them`"""
    func = {}
    for x in cands:
        if x.func and x.func[0] not in func:
            func[x.func[0]] = x.func[1]
    out = []
    get = lambda z, key: E.getpath(z.store[leaves[key][0]], leaves[key][1])  # noqa
    new = lambda t: any_new(substitute(t, (k, IntVal(0))), start)  # noqa
    flags = [key for key in leaves if key not in func and
             isinstance(get(st, key), ExprRef) and (is_bool(get(st, key)) or is_int(get(st, key)))]
    scal = [key for key in leaves if key not in func and
            isinstance(get(st, key), (ExprRef, VecIt, Arr))]
    for key in flags:
        snap = E.snapshot()
        E.dry += 1
        E.indist.append(k)
        ch, sets, tags = None, {}, []
        try:
            same = {x: (lambda kk, v=get(st, x): v) for x in scal}
            h = havoc(E, st, leaves, {**same, **func}, k)
            interest_k(E, st, leaves, k)
            npc = len(h.pc)
            outs = norm_state(iterate(h.fork(evcond(h))))
            tags = [t for t, ids in E.interest_ids.items() if k.get_id() in ids]
            ch = FALSE
            for o in outs:
                c = bnot(teq(get(o.st, key), get(st, key)))
                ch = bor(ch, band(c, *o.st.pc[npc:]))
            for u in scal:
                if u != key and len(outs) == 1:
                    x, y = get(outs[0].st, u), get(st, u)
                    if type(x) is type(y):
                        sets[u] = x
        except (Dead, Unsupported):
            ch = None
        finally:
            E.indist.pop()
            E.dry -= 1
            E.restore(snap)
        if ch is None or is_true(ch) or is_false(ch) or new(ch):
            continue
        F = E.fresh('F', IntSort())
        none = E.fresh('none', BoolSort())
        E.bounds[F.get_id()] = (0, 1 << 60, F)
        at = lambda j, ch=ch: substitute(ch, (k, j))  # noqa
        E.fact(F >= 0)
        E.fact(bor(none, at(F)))
        for tag in iter_tags(E, st, leaves):
            E.forall(tag, lambda j, F=F, none=none, at=at: bimp(
                And(0 <= j, bor(none, j < F)), bnot(at(j))), st)
        for tag in tags:
            E.interested(tag, F)
        nm = leafname(*leaves[key])
        before = lambda kk, F=F, none=none: bor(none, kk <= F)  # noqa
        out.append(Cand(nm + ': as before up to the first such iteration',
                        lambda kk, z, key=key, b=before: teq(
                            teq(get(z, key), get(st, key)), b(kk))))
        if is_int(get(st, key)):
            out.append(Cand(nm + ': only grows', lambda kk, z, key=key: ile(
                get(st, key), get(z, key))))
        for u, x in sets.items():
            y = get(st, u)
            if isinstance(x, VecIt):
                if x.lv.key() != y.lv.key() or new(x.idx):
                    continue
                f = lambda kk, z, u=u, x=x, y=y, b=before, F=F: teq(  # noqa
                    get(z, u).idx, If(b(kk), y.idx, substitute(x.idx, (k, F))))
            else:
                if isinstance(x, Arr):
                    if not E.opaque_bytes:
                        continue
                    x, y = E.arr_term(x), E.arr_term(y)
                if not isinstance(x, ExprRef) or x.sort() != y.sort() or new(x):
                    continue
                f = lambda kk, z, u=u, x=x, y=y, b=before, F=F: teq(  # noqa
                    E.arr_term(get(z, u)) if isinstance(get(z, u), Arr) else get(z, u),
                    If(b(kk), y, substitute(x, (k, F))))
            out.append(Cand(leafname(*leaves[u]) + ': what that iteration of %s gave it' % nm, f))
    return out


def symbolic2(E, st, evcond, iterate, line, counter, start):
    k = E.fresh('k', IntSort())
    E.bounds[k.get_id()] = (0, 1 << 60, k)
    E.fact(k >= 0)
    # -- 1. carriers
    leaves = {}
    finals = {}
    notfinal = set()
    plain = iterate

    def iterate(z):
        if not finals:
            return plain(z)
        was = dict(z.store)
        return split_finals(E, was, plain(z), finals, evcond)
    if counter:
        leaves[(counter[0], ())] = (counter[0], ())
    for _ in range(30):
        snap = E.snapshot()
        E.dry += 1
        E.indist.append(k)
        try:
            h = havoc(E, st, leaves, {}, k)
            interest_k(E, st, leaves, k)
            h0 = dict(h.store)
            new = {}
            try:
                c = evcond(h)
                b = h.fork(c)
                gterms = c
                outs = iterate(b)
            except Dead:
                outs = []
            except NotFinal as x:
                notfinal.add(x.key)
                finals.pop(x.key)
                continue
            for o in outs:
                if o.k == 'norm':
                    for root in h0:
                        if root in o.st.store:
                            diff(E, h0[root], o.st.store[root], root, (), new)
        finally:
            E.indist.pop()
            E.dry -= 1
            E.restore(snap)
        new = {a: b for a, b in new.items() if a not in leaves and not covered(a, leaves)}
        last = {a: b for a, b in new.items() if a not in finals and a not in notfinal and
                set_once(E, st, *b)}
        for a, b in list(last.items()):
            if isinstance(E.getpath(st.store[b[0]], b[1]), ExprRef) and \
                    not guards(E, st, leaves, evcond, a, *b):
                del last[a]
                notfinal.add(a)
        if last:
            finals.update({a: b + (E.getpath(st.store[b[0]], b[1]),) for a, b in last.items()})
            continue
        if not new:
            break
        leaves = {a: b for a, b in leaves.items() if not covered(a, new)}
        leaves.update(new)
    else:
        raise Unsupported('loop carriers do not stabilise')
    # -- 2. candidates
    hterms = []
    try:
        hterms = bound_terms(gterms, start)
    except NameError:
        pass
    if counter:
        hterms.append(counter[1])
    cands = []
    for hook in E.pre_loop_hooks:
        hook(E, st, leaves)
    for key, (root, path) in leaves.items():
        v0 = E.getpath(st.store[root], path)
        cands += leaf_cands(E, key, root, path, v0, None, k, st, hterms)
    for b in hterms:
        for key, (root, path) in leaves.items():
            pass
    for hook in getattr(E, 'loop_hooks', []):
        cands += hook(E, st, leaves, k) or []
    keep = []
    for c in cands:
        try:
            if E.valid(st, c.fn(IntVal(0), st), limit=600000):
                keep.append(c)
        except Unsupported:
            pass
    cands = keep
    # -- 3. Houdini
    cands = houdini(E, st, evcond, iterate, leaves, cands, k)
    extra = built(E, st, evcond, iterate, leaves, cands, k, start)
    more = stuck(E, st, evcond, iterate, leaves, cands, k, start) + \
        guarded(E, st, leaves, cands)
    if more:
        cands = houdini(E, st, evcond, iterate, leaves, cands + more, k)
    if extra:
        cands = houdini(E, st, evcond, iterate, leaves, cands + extra, k)
        cands.sort(key=lambda c: c not in extra)
    func = {}
    for x in cands:
        if x.func and x.func[0] not in func:
            func[x.func[0]] = x.func[1]
    if getattr(E, 'trace', False) and not E.dry:
        print('loop at line', line, 'carriers', [leafname(*leaves[a]) for a in leaves])
        for x in cands:
            print('    inv', x.name)
    # -- 4. the verified iteration
    for x in cands:
        E.oblige(st, x.fn(IntVal(0), st), 'loop invariant holds initially (%s)' % x.name, line,
                 'invariant')
    E.indist.append(k)
    try:
        nf, nq = len(E.facts), len(E.foralls)
        h = havoc(E, st, leaves, func, k)
        interest_k(E, st, leaves, k)
        assume(E, cands, k, h)
        hpc = len(h.pc)
        h0store = set(h.store)
        c = TRUE
        try:
            e = h.fork()
            c = evcond(e)
            ex = e.fork(bnot(c))
            outs = iterate(e.fork(c))
        except Dead:
            ex, outs = None, []
        k1 = iadd(k, IntVal(1))
        res, done = [], []
        exits, norms = [], []
        for o in outs:
            if o.k == 'norm':
                norms.append(band(*o.st.pc[hpc:]))
                if E.noleak:
                    for x, live in o.st.store.items():
                        if x.startswith('$tok:') and x not in h0store and not is_false(live):
                            E.oblige(o.st, bnot(live), 'an allocated string has an owner at the '
                                     'end of the iteration', line, 'ownership')
                for x in cands:
                    E.oblige(o.st, x.fn(k1, o.st), 'loop invariant preserved (%s)' % x.name, line,
                             'invariant')
            else:
                exits.append(band(*o.st.pc[hpc:]))
                if o.k == 'brk':
                    done.append(o.st)
                else:
                    res.append(o)
        facts_k = [f for f in E.facts[nf:] if stdlib.mentions(f, k)]
    finally:
        E.indist.pop()
    # earlier iterations took none of the exits, and the guard held
    if exits or ex is not None and norms and composite(c):
        ec = bnot(band(bnot(bor(*exits)), bor(*norms)))
        sub = []
        if any_new(substitute(ec, (k, IntVal(0))), start):
            sub = facts_k
        pre = tuple(st.pc)
        def none_taken(j):
            return bimp(And(0 <= j, j < k), band(
                bnot(substitute(ec, (k, j))), *[substitute(f, (k, j)) for f in sub]))
        for tag in iter_tags(E, st, leaves):
            E.forall(tag, none_taken, st)
        lits = [ival(b) for b in hterms if is_int(b) and ival(b) is not None]
        lits = [b for b in lits if 0 < b <= 64]
        for j in range(max(lits, default=0)):
            E.fact(none_taken(IntVal(j)), st)
    if ex is not None and E.feasible(ex):
        done.append(ex)
    for s in done:
        res.append(Out('norm', s))
    res = [o for o in res if E.feasible(o.st)]
    return E.merge_outs(res)


def composite(c):
    """a guard that says more than `the end is not reached`"""
    while is_not(c):
        c = c.arg(0)
    return is_and(c) or is_or(c) or is_app(c) and c.decl().kind() in (Z3_OP_ITE, Z3_OP_IMPLIES)


def covered(key, leaves):
    """a prefix of key's path is itself a carrier"""
    root, p = key
    return any((root, p[:i]) in leaves for i in range(len(p)))


def assume(E, cands, k, h):
    for x in cands:
        if x.assume:
            x.assume(k, h)
        else:
            E.fact(x.fn(k, h), h)


def refute(E, st, cands, k1):
    """candidates not preserved"""
    goals = []
    bad = []
    for x in cands:
        try:
            goals.append((x, x.fn(k1, st)))
        except Unsupported:
            bad.append(x)
    while goals:
        conj = band(*[g for _, g in goals])
        if is_true(conj):
            return bad
        E.sync()
        E.solver.set('rlimit', 8000000)
        E.solver.set('timeout', 20000)
        E.solver.push()
        E.solver.add(*st.pc)
        E.solver.add(bnot(conj))
        r = E.solver.check()
        m = E.solver.model() if r == sat else None
        E.solver.pop()
        E.stats['queries'] += 1
        if r == unsat:
            return bad
        drop = []
        if m is not None:
            for x, g in goals:
                if is_false(m.eval(g, model_completion=True)):
                    drop.append(x)
        if not drop:
            for x, g in goals:
                if not E.valid(st, g, limit=3000000):
                    drop.append(x)
            if not drop:
                return bad
        bad += drop
        goals = [(x, g) for x, g in goals if x not in drop]
    return bad
