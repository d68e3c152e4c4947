"""Symbolic semantics of the dumped C++ AST: statements, expressions, calls by inlining of internal
helpers or by contract, obligations and facts.  Library models live in stdlib.py, loops in loops.py.
"""
import itertools
import time
from .terms import *  # noqa


_accmemo = {}


class St:
    __slots__ = ('pc', 'store')

    def __init__(self, pc=(), store=None):
        self.pc = pc
        self.store = store if store is not None else {}

    def fork(self, c=None):
        pc = self.pc
        if c is not None and not is_true(c):
            pc = pc + (c,)
        return St(pc, dict(self.store))

    def assign(self, o):
        self.pc, self.store = o.pc, o.store


class Out:
    __slots__ = ('k', 'st', 'v', 'label')

    def __init__(self, k, st, v=None, label=None):
        self.k, self.st, self.v, self.label = k, st, v, label


class Dead(Exception):
    """evaluation reached a state that cannot continue (noreturn call)"""


class Frame:
    def __init__(self, fid, this=None, name=''):
        self.fid, self.this, self.name = fid, this, name
        self.env = {}
        self.scopes = []
        self.temps = []


class Oblig:
    __slots__ = ('name', 'pc', 'goal', 'nf', 'line', 'fn', 'kind')

    def __init__(self, name, pc, goal, nf, line, fn, kind):
        self.name, self.pc, self.goal, self.nf, self.line, self.fn, self.kind = \
            name, pc, goal, nf, line, fn, kind


OWNED = {('rcutils_string_array_s', 'data'), ('rmw_topic_endpoint_info_array_s', 'info_array'),
         ('rmw_names_and_types_s', 'types')}


PLAIN = ('std::pair', 'std::tuple')
STRINGS = ('std::basic_string', 'std::basic_string_view')


class Eng:
    def __init__(self, prog, native_strings=False, opaque_bytes=True):
        self.p = prog
        self.native = native_strings
        self.opaque_bytes = opaque_bytes
        self.facts = []
        self.fact_ids = {}
        self.foralls = []      # (tag, fn)
        self.interest = {}     # tag -> list of terms
        self.interest_ids = {}
        self.obls = []
        self.obl_ids = set()
        self.cnt = itertools.count(1)
        self.rootcnt = itertools.count(1)
        self.dry = 0
        self.frames = []
        self.handlers = {}
        self.const_lits = {}
        self.contracts = {}
        self.folds = []
        self.cand_hooks = []
        self.pre_loop_hooks = []
        self.sorts = {}
        self.sortcnt = itertools.count(1)
        self.bounds = {}       # ast id -> (lo, hi, term)
        self.lits = {}
        self.caches = {}
        self.used = {}         # functions under contract / inlined
        self.assumed = {}      # environment contracts used
        self.access_hook = None
        self.own_hook = None   # ownership discipline on stores
        self.noleak = False
        self.drop = set()      # kinds of obligations this contract is not about (assumed)
        self.call_stack = []
        self.stats = {'queries': 0, 'qtime': 0.0}
        self.solver = Solver()
        self.solver_n = 0
        self.indist = []
        self.noncopy = set()
        self.Str = StringSort() if native_strings else DeclareSort('Str')
        d = Datatype('CStr')
        d.declare('cnull')
        d.declare('cstr', ('cs', self.Str))
        self.CStr = d.create()
        self.Opq = DeclareSort('Opq')
        self.opq_null = Const('opq_null', self.Opq)
        from . import stdlib, roslib, graphlib  # noqa
        stdlib.install(self)

    # ---------------------------------------------------------------- facts and obligations
    def fact(self, f, st=None):
        if st is not None and st.pc:
            f = bimp(band(*st.pc), f)
        if is_true(f):
            return
        i = f.get_id()
        if i in self.fact_ids:
            return
        self.fact_ids[i] = len(self.facts)
        self.facts.append(f)

    def forall(self, tag, fn, st=None):
        """fn(term) -> Bool, holds for every term of that tag (under st's path condition)"""
        g = band(*st.pc) if st is not None else TRUE
        h = (lambda j, fn=fn, g=g: bimp(g, fn(j)))
        self.foralls.append((tag, h))
        if tag == '*':
            for tg, ts in list(self.interest.items()):
                if tg.startswith('idx:') or tg.startswith('rank:'):
                    for t in list(ts):
                        self.fact(h(t))
            return
        for t in list(self.interest.get(tag, ())):
            self.fact(h(t))

    def interested(self, tag, term):
        ids = self.interest_ids.setdefault(tag, {})
        i = term.get_id()
        if i in ids:
            return
        lst = self.interest.setdefault(tag, [])
        ids[i] = len(lst)
        lst.append(term)
        for t, h in list(self.foralls):
            if t == tag or t == '*' and (tag.startswith('idx:') or tag.startswith('rank:')):
                self.fact(h(term))

    def snapshot(self):
        self.sync()
        self.solver.push()
        return (len(self.facts), len(self.foralls),
                {k: len(v) for k, v in self.interest.items()}, self.solver_n,
                {k: dict(v) for k, v in self.caches.items()})

    def restore(self, s):
        nf, nq, ni, sn, ca = s
        for i in [i for i, n in self.fact_ids.items() if n >= nf]:
            del self.fact_ids[i]
        del self.facts[nf:]
        del self.foralls[nq:]
        for k in list(self.interest):
            n = ni.get(k, 0)
            del self.interest[k][n:]
            ids = self.interest_ids[k]
            for i in [i for i, m in ids.items() if m >= n]:
                del ids[i]
        self.caches = ca
        self.solver.pop()
        self.solver_n = sn

    def commit(self, s):
        """keep what was learned since the snapshot"""
        self.solver.pop()
        self.solver_n = s[3]

    def sync(self):
        for f in self.facts[self.solver_n:]:
            self.solver.add(f)
        self.solver_n = len(self.facts)

    def check(self, *conds, limit=400000):
        """quick satisfiability of facts + conds; bounded by solver steps, not by the clock, so
        that a loaded machine gives the same answers"""
        conds = [c for c in conds if not is_true(c)]
        for c in conds:
            if is_false(c):
                return unsat
        self.sync()
        t = time.time()
        self.solver.set('rlimit', limit)
        self.solver.set('timeout', 10000)
        self.solver.push()
        self.solver.add(*conds)
        r = self.solver.check()
        self.solver.pop()
        self.stats['queries'] += 1
        self.stats['qtime'] += time.time() - t
        return r

    def valid(self, st, c, limit=400000):
        if is_true(c):
            return True
        return self.check(*st.pc, bnot(c), limit=limit) == unsat

    def feasible(self, st, c=TRUE):
        return self.check(*st.pc, c) != unsat

    def oblige(self, st, goal, name, line=0, kind='safety'):
        """the verifier must prove goal under st's path condition"""
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        if not self.dry and kind not in self.drop:
            key = (name, goal.get_id(), tuple(c.get_id() for c in st.pc))
            if key not in self.obl_ids:
                self.obl_ids.add(key)
                fn = self.call_stack[-1] if self.call_stack else ''
                self.obls.append(Oblig(name, st.pc, goal, len(self.facts), line, fn, kind))
        self.fact(goal, st)

    def fresh(self, name, sort):
        n = '%s!%d' % (name, next(self.cnt))
        if self.indist:
            # inside a loop body or a predicate: a choice per iteration
            return Function(n, *([b.sort() for b in self.indist] + [sort]))(*self.indist)
        return Const(n, sort)

    def nonneg_f(self, ln):
        self.range(ln, 0, 1 << 60)

    def fresh_int(self, name, lo=None, hi=None):
        v = self.fresh(name, IntSort())
        self.range(v, lo, hi)
        return v

    def range(self, v, lo, hi):
        if ival(v) is not None:
            return
        i = v.get_id()
        if lo is not None:
            self.fact(v >= lo)
        if hi is not None:
            self.fact(v <= hi)
        o = self.bounds.get(i)
        if o:
            lo = o[0] if lo is None else (lo if o[0] is None else max(lo, o[0]))
            hi = o[1] if hi is None else (hi if o[1] is None else min(hi, o[1]))
        self.bounds[i] = (lo, hi, v)

    def interval(self, t, depth=0):
        x = ival(t)
        if x is not None:
            return x, x
        b = self.bounds.get(t.get_id())
        if b:
            return b[0], b[1]
        if depth > 12:
            return None, None
        rec = lambda a: self.interval(a, depth + 1)  # noqa
        if is_add(t):
            lo = hi = 0
            for a in t.children():
                x, y = rec(a)
                lo = None if lo is None or x is None else lo + x
                hi = None if hi is None or y is None else hi + y
            return lo, hi
        if is_sub(t) and t.num_args() == 2:
            a, b = rec(t.arg(0)), rec(t.arg(1))
            return (None if a[0] is None or b[1] is None else a[0] - b[1],
                    None if a[1] is None or b[0] is None else a[1] - b[0])
        if is_app_of(t, Z3_OP_ITE):
            a, b = rec(t.arg(1)), rec(t.arg(2))
            return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                    None if a[1] is None or b[1] is None else max(a[1], b[1]))
        if is_app_of(t, Z3_OP_MUL) and t.num_args() == 2:
            a, b = rec(t.arg(0)), rec(t.arg(1))
            if None in a or None in b:
                return None, None
            ps = [x * y for x in a for y in b]
            return min(ps), max(ps)
        if is_app_of(t, Z3_OP_IDIV):
            a, b = rec(t.arg(0)), rec(t.arg(1))
            if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] > 0:
                return (0 if b[1] is None else a[0] // b[1],
                        None if a[1] is None else a[1] // b[0])
            return None, None
        if is_app_of(t, Z3_OP_MOD):
            b = rec(t.arg(1))
            if b[0] is not None and b[0] > 0:
                return 0, (None if b[1] is None else b[1] - 1)
        return None, None

    # ---------------------------------------------------------------- types and sorts
    def T(self, t):
        return self.p.types[t]

    def int_range(self, t):
        T = self.T(t)
        if T['k'] == 'enum':
            bits, sg = T.get('bits', 32), T.get('signed', False)
        else:
            bits, sg = INTS[self.p.cs(t)]
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)

    def is_int(self, t):
        T = self.T(t)
        return T['k'] == 'enum' or (T['k'] == 'builtin' and self.p.cs(t) in INTS)

    def is_bool_t(self, t):
        return self.p.cs(t) == 'bool'

    def is_charptr(self, t):
        T = self.T(t)
        return T['k'] == 'ptr' and self.p.cs(T['to']) == 'char'

    def byte_arr(self, t):
        """length if t is a fixed array of bytes"""
        T = self.T(t)
        if T['k'] == 'array' and self.p.cs(T['of']) == 'unsigned char':
            return T['size']
        if T['k'] == 'record' and T['n'] == 'std::array' and \
                self.p.cs(T['args'][0]['t']) == 'unsigned char':
            return int(T['args'][1]['i'])
        return None

    def arr_sort(self, n):
        k = ('B', n)
        if k not in self.sorts:
            if self.opaque_bytes:
                s = DeclareSort('Bytes%d' % n)
                f = Function('byte%d' % n, s, IntSort(), IntSort())
                self.sorts[k] = (s, None, [lambda x, i=i, f=f: f(x, IntVal(i)) for i in range(n)])
            else:
                d = Datatype('Bytes%d' % n)
                d.declare('mk', *[('b%d' % i, IntSort()) for i in range(n)])
                s = d.create()
                self.sorts[k] = (s, s.constructor(0), [s.accessor(0, i) for i in range(n)])
        return self.sorts[k]

    def rec_fields(self, t):
        T = self.T(t)
        return self.p.records[T['rid']]['fields']

    def sort(self, t):
        """z3 sort used when a value of program type t is stored in a term"""
        t = self.p.deref(t)
        key = self.p.cs(t)
        if key in self.sorts:
            return self.sorts[key]
        T = self.T(t)
        if self.is_bool_t(t):
            s = BoolSort()
        elif self.is_int(t):
            s = IntSort()
        elif T['k'] == 'ptr':
            s = self.CStr if self.is_charptr(t) else self.Opq
        elif self.byte_arr(t) is not None:
            s = self.arr_sort(self.byte_arr(t))[0]
        elif T['k'] == 'record':
            n = T['n']
            if n in STRINGS:
                s = self.Str
            elif n in ('std::set', 'std::unordered_set'):
                s = ArraySort(self.sort(T['args'][0]['t']), BoolSort())
            elif n == 'std::vector':
                s = self.seq_sort(T['args'][0]['t'])
            elif n in ('std::function', 'std::mutex', 'std::shared_ptr'):
                s = self.Opq
            elif n.startswith('std::') and n not in PLAIN:
                raise Unsupported('no sort for ' + key)
            else:
                d = Datatype('R_' + n.replace('::', '_') + '_%d' % next(self.sortcnt))
                fs = []
                for i, f in enumerate(self.rec_fields(t)):
                    if (n, f['n']) in OWNED:
                        fs.append(('f%d' % i, self.own_sort(self.T(f['t'])['to'])))
                    else:
                        fs.append(('f%d' % i, self.sort(f['t'])))
                d.declare('mk', *fs)
                s = d.create()
        else:
            s = self.Opq
        self.sorts[key] = s
        return s

    def seq_sort(self, ety):
        k = ('seq', self.p.cs(ety))
        if k not in self.sorts:
            d = Datatype('Seq_%d' % next(self.sortcnt))
            d.declare('mk', ('ln', IntSort()), ('arr', ArraySort(IntSort(), self.sort(ety))))
            self.sorts[k] = d.create()
        return self.sorts[k]

    def own_sort(self, ety):
        k = ('own', self.p.cs(ety))
        if k not in self.sorts:
            d = Datatype('Own_%d' % next(self.sortcnt))
            d.declare('mk', ('null', BoolSort()), ('ln', IntSort()),
                      ('arr', ArraySort(IntSort(), self.sort(ety))))
            self.sorts[k] = d.create()
        return self.sorts[k]

    def acc(self, s, i, term):
        """accessor i of a single-constructor datatype, simplified"""
        c = s.constructor(0)
        while True:
            if is_app(term) and term.decl().eq(c):
                return term.arg(i)
            if is_app_of(term, Z3_OP_ITE):
                key = (i, term.get_id())
                r = _accmemo.get(key)
                if r is None:
                    r = (bif(term.arg(0), self.acc(s, i, term.arg(1)),
                             self.acc(s, i, term.arg(2))), term)
                    _accmemo[key] = r
                return r[0]
            return s.accessor(0, i)(term)

    def from_term(self, term, t):
        t = self.p.deref(t)
        T = self.T(t)
        if self.is_bool_t(t):
            return term
        if self.is_int(t):
            self.ranges_of(term, t)
            return term
        n = self.byte_arr(t)
        if n is not None:
            return Arr(n, term=term)
        if T['k'] == 'ptr':
            return term
        if T['k'] == 'record':
            n = T['n']
            s = self.sort(t)
            if n in STRINGS:
                return term
            if n in ('std::set', 'std::unordered_set'):
                return SetV(t, T['args'][0]['t'], term)
            if n == 'std::vector':
                return self.seq_of_term(term, T['args'][0]['t'])
            if s.eq(self.Opq):
                return term
            f = {}
            for i, fd in enumerate(self.rec_fields(t)):
                x = self.acc(s, i, term)
                if (n, fd['n']) in OWNED:
                    ety = self.T(fd['t'])['to']
                    os_ = self.own_sort(ety)
                    ln = self.acc(os_, 1, x)
                    self.nonneg(ln)
                    f[fd['n']] = Own(ety, self.acc(os_, 0, x), ln, self.acc(os_, 2, x))
                else:
                    f[fd['n']] = self.from_term(x, fd['t'])
            return SV(n, t, f)
        return term

    def ranges_of(self, term, t):
        if ival(term) is not None or term.get_id() in self.bounds and \
                term.get_id() in self.caches.setdefault('rng', {}):
            return
        if is_app_of(term, Z3_OP_ITE):
            self.ranges_of(term.arg(1), t)
            self.ranges_of(term.arg(2), t)
            return
        self.caches.setdefault('rng', {})[term.get_id()] = term
        lo, hi = self.int_range(t)
        self.range(term, lo, hi)

    def nonneg(self, ln):
        if ival(ln) is None:
            c = self.caches.setdefault('nn', {})
            if ln.get_id() in c:
                return
            c[ln.get_id()] = ln
            self.range(ln, 0, (1 << 60))

    def seq_of_term(self, term, ety):
        s = self.seq_sort(ety)
        ln = self.acc(s, 0, term)
        self.nonneg(ln)
        return Seq(ety, ln, self.acc(s, 1, term))

    def to_term(self, v, t):
        t = self.p.deref(t)
        T = self.T(t)
        if isinstance(v, Conflict):
            raise Unsupported('use of an unmergeable value (%s)' % v.why)
        if isinstance(v, ExprRef):
            return v
        if isinstance(v, Ptr) and T['k'] == 'ptr':
            if self.is_charptr(t):
                return self.as_cstr(v)
            r = None
            for g, x in reversed(v.alts):
                y = self.opq_null if x is None else x[1] if x[0] == 'opq' else None
                if y is None:
                    raise Unsupported('pointer stored in a container')
                r = y if r is None else bif(g, y, r)
            return r
        if isinstance(v, Arr):
            return self.arr_term(v)
        if isinstance(v, SetV):
            return v.dom
        if isinstance(v, (Seq, CSeq)):
            v = self.as_seq(v)
            return self.seq_sort(v.ety).constructor(0)(v.ln, v.arr)
        if isinstance(v, SV):
            s = self.sort(t)
            xs = []
            for fd in self.rec_fields(t):
                x = v.f[fd['n']]
                if isinstance(x, Own):
                    xs.append(self.own_sort(x.ety).constructor(0)(x.null, x.ln, x.arr))
                else:
                    xs.append(self.to_term(x, fd['t']))
            # mk(acc0(t), acc1(t), ...) -> t
            c = s.constructor(0)
            if xs and all(is_app(x) and x.num_args() == 1 and x.decl().eq(s.accessor(0, i))
                          for i, x in enumerate(xs)):
                b = xs[0].arg(0)
                if all(x.arg(0).eq(b) for x in xs):
                    return b
            return c(*xs)
        if isinstance(v, Fn) or isinstance(v, Obj):
            return self.fresh('opq', self.Opq)
        raise Unsupported('to_term %r as %s' % (type(v).__name__, self.p.cs(t)))

    def arr_term(self, a):
        if a.term is None:
            s, mk, accs = self.arr_sort(a.n)
            if mk is not None:
                # mk(acc0(t),...,accN(t)) -> t
                b = a.items[0].arg(0) if is_app(a.items[0]) and a.items[0].num_args() == 1 else None
                if b is not None and b.sort().eq(s) and \
                        all(accs[i](b).eq(x) for i, x in enumerate(a.items)):
                    return b
                return mk(*a.items)
            c = self.caches.setdefault('arr', {})
            key = tuple(x.get_id() for x in a.items)
            if key not in c:
                t = self.fresh('bytes', s)
                for i, x in enumerate(a.items):
                    self.fact(accs[i](t) == x)
                c[key] = (t, a.items)
            return c[key][0]
        return a.term

    def arr_items(self, a):
        if a.items is None:
            s, mk, accs = self.arr_sort(a.n)
            if mk is not None and is_app(a.term) and a.term.decl().eq(mk):
                return a.term.children()
            xs = [f(a.term) for f in accs]
            for x in xs:
                self.range(x, 0, 255)
            return xs
        return list(a.items)

    def as_seq(self, v):
        if isinstance(v, CSeq):
            s = self.sort(v.ety)
            arr = K(IntSort(), self.fresh('pad', s))
            for i, x in enumerate(v.items):
                arr = Store(arr, IntVal(i), self.to_term(x, v.ety))
            return Seq(v.ety, IntVal(len(v.items)), arr)
        return v

    def lit_at(self, x):
        """text of a constant array that was initialised with a string literal, for a pointer to
        its first character"""
        if x[0] == 'lv' and x[1] in self.const_lits and len(x[2]) == 1 and \
                x[2][0][0] == 'i' and ival(x[2][0][1]) == 0:
            return self.const_lits[x[1]]

    def as_cstr(self, v):
        """char pointer value -> CStr term"""
        if isinstance(v, ExprRef):
            return v
        if isinstance(v, Ptr):
            r = None
            for g, x in reversed(v.alts):
                if x is None:
                    y = self.CStr.cnull
                elif x[0] == 'cstr':
                    y = x[1]
                elif self.lit_at(x) is not None:
                    y = self.CStr.cstr(self.strlit(self.lit_at(x)))
                else:
                    raise Unsupported('char pointer into a buffer used as a string')
                r = y if r is None else bif(g, y, r)
            return r
        raise Unsupported('char pointer expected')

    def cstr(self, s):
        return self.CStr.cstr(s)

    def is_cnull(self, c):
        if is_app(c) and c.decl().eq(self.CStr.constructor(1)):
            return FALSE
        if is_app(c) and c.decl().eq(self.CStr.constructor(0)):
            return TRUE
        if is_app_of(c, Z3_OP_ITE):
            return bif(c.arg(0), self.is_cnull(c.arg(1)), self.is_cnull(c.arg(2)))
        return self.CStr.recognizer(0)(c)

    def cstr_of(self, c):
        if is_app(c) and c.decl().eq(self.CStr.constructor(1)):
            return c.arg(0)
        if is_app_of(c, Z3_OP_ITE):
            a, b = c.arg(1), c.arg(2)
            if is_true(self.is_cnull(a)):
                return self.cstr_of(b)
            if is_true(self.is_cnull(b)):
                return self.cstr_of(a)
            return bif(c.arg(0), self.cstr_of(a), self.cstr_of(b))
        return self.CStr.accessor(1, 0)(c)

    def strlit(self, s):
        if self.native:
            return StringVal(s)
        if s not in self.lits:
            t = Const('lit$%d$%s' % (len(self.lits), ''.join(c if c.isalnum() else '_' for c in s)),
                      self.Str)
            self.lits[s] = t
            self.lit_text = getattr(self, 'lit_text', {})
            self.lit_text[t.get_id()] = s
            if s:
                # the empty string is a literal of every program (length facts refer to it)
                self.strlit('')
            for f in list(getattr(self, 'lit_watch', [])):
                f(s, t)
        return self.lits[s]

    def lit_facts(self):
        ts = list(self.lits.values())
        return [Distinct(*ts)] if len(ts) > 1 else []

    # ---------------------------------------------------------------- fresh / zero values
    def fresh_val(self, t, name='v'):
        """arbitrary value of type t"""
        t = self.p.deref(t)
        T = self.T(t)
        if self.is_int(t):
            lo, hi = self.int_range(t)
            return self.fresh_int(name, lo, hi)
        if T['k'] == 'record':
            n = T['n']
            if n == 'rmw_gid_s' or not n.startswith('std::') or n in PLAIN:
                if T.get('lambda'):
                    raise Unsupported('fresh lambda')
                f = {}
                for fd in self.rec_fields(t):
                    if (n, fd['n']) in OWNED:
                        ety = self.T(fd['t'])['to']
                        f[fd['n']] = Own(ety, self.fresh(name + '.null', BoolSort()),
                                         self.fresh_int(name + '.ln', 0, 1 << 60),
                                         self.fresh(name + '.arr',
                                                    ArraySort(IntSort(), self.sort(ety))))
                    else:
                        f[fd['n']] = self.fresh_val(fd['t'], name + '.' + fd['n'])
                return SV(n, t, f)
            if n == 'std::vector':
                ety = T['args'][0]['t']
                return Seq(ety, self.fresh_int(name + '.ln', 0, 1 << 60),
                           self.fresh(name + '.arr', ArraySort(IntSort(), self.sort(ety))))
            if n in ('std::map', 'std::unordered_map'):
                return self.fresh_map(t, name)
            if n in ('std::set', 'std::unordered_set'):
                return SetV(t, T['args'][0]['t'], self.fresh(name + '.dom', self.sort(t)))
            if n == 'std::mutex':
                return Obj('mutex', held=FALSE, epoch=self.fresh_int('epoch', 0))
        return self.from_term(self.fresh(name, self.sort(t)), t)

    def kproj_sort(self, kty):
        if self.p.rec(kty) == 'rmw_gid_s':
            return self.arr_sort(16)[0]
        return self.sort(kty)

    def kproj(self, v, kty):
        """key value -> key term"""
        if self.p.rec(kty) == 'rmw_gid_s':
            return self.arr_term(v.f['data'])
        return self.to_term(v, kty)

    def kval(self, k, kty):
        """key term -> key value"""
        if self.p.rec(kty) == 'rmw_gid_s':
            t = self.p.deref(kty)
            return SV('rmw_gid_s', t, {
                'implementation_identifier': self.fresh('implid', self.CStr),
                'data': Arr(16, term=k)})
        return self.from_term(k, kty)

    def fresh_map(self, t, name):
        T = self.T(t)
        kty, vty = T['args'][0]['t'], T['args'][1]['t']
        self.check_cmp(T)
        ks = self.kproj_sort(kty)
        return Map(t, kty, vty, self.fresh(name + '.dom', ArraySort(ks, BoolSort())),
                   self.fresh(name + '.val', ArraySort(ks, self.sort(vty))))

    def empty_map(self, t):
        T = self.T(t)
        kty, vty = T['args'][0]['t'], T['args'][1]['t']
        self.check_cmp(T)
        ks = self.kproj_sort(kty)
        return Map(t, kty, vty, K(ks, FALSE),
                   K(ks, self.fresh('pad', self.sort(vty))))

    def check_cmp(self, T):
        if T['n'] == 'std::map' or T['n'] == 'std::set':
            c = self.p.rec(T['args'][2 if T['n'] == 'std::map' else 1]['t'])
            if c not in ('std::less', 'rmw_dds_common::Compare_rmw_gid_t'):
                raise Unsupported('ordered container with comparator %s' % c)

    def zero(self, t):
        """value-initialised value"""
        t = self.p.deref(t)
        T = self.T(t)
        if self.is_bool_t(t):
            return FALSE
        if self.is_int(t):
            return IntVal(0)
        if T['k'] == 'ptr':
            return self.CStr.cnull if self.is_charptr(t) else NULLP
        n = self.byte_arr(t)
        if n is not None:
            return Arr(n, items=[IntVal(0)] * n)
        if T['k'] == 'record':
            n = T['n']
            if n.startswith('std::') and n not in PLAIN:
                return self.default(t)
            f = {}
            for fd in self.rec_fields(t):
                if (n, fd['n']) in OWNED:
                    ety = self.T(fd['t'])['to']
                    f[fd['n']] = self.null_own(ety)
                else:
                    f[fd['n']] = self.zero(fd['t'])
            return SV(n, t, f)
        raise Unsupported('zero of ' + T['s'])

    def null_own(self, ety):
        return Own(ety, TRUE, IntVal(0), K(IntSort(), self.const('pad0', self.sort(ety))))

    def const(self, name, sort):
        return Const('%s_%s' % (name, sort.name()), sort)

    def default(self, t, st=None):
        """default-initialised value (scalars indeterminate)"""
        t = self.p.deref(t)
        T = self.T(t)
        if T['k'] == 'record':
            n = T['n']
            if n in STRINGS:
                return self.strlit('')
            if n == 'std::vector':
                return CSeq(T['args'][0]['t'], [])
            if n in ('std::map', 'std::unordered_map'):
                return self.empty_map(t)
            if n in ('std::set', 'std::unordered_set'):
                self.check_cmp(T)
                return SetV(t, T['args'][0]['t'], K(self.sort(T['args'][0]['t']), FALSE))
            if n == 'std::function':
                return Fn([(TRUE, None)])
            if n == 'std::mutex':
                return Obj('mutex', held=FALSE, epoch=IntVal(0))
            if n == 'std::unique_ptr':
                return SV('std::unique_ptr', t, {'p': NULLP, 'd': Fn([(TRUE, None)])})
            if n == 'std::optional':
                from .stdlib import opt
                return opt(self, t, FALSE)
            if n == 'std::basic_ostringstream' or n == 'std::basic_stringstream':
                return Obj('ostream')
            if n == 'std::filesystem::path':
                return self.path_lit('')
            if n == 'std::error_code':
                return self.fresh('errc', IntSort())
            if n.startswith('std::') and n not in PLAIN + ('std::array',):
                raise Unsupported('default construction of ' + T['s'])
            if self.byte_arr(t) is None:
                f = {}
                for fd in self.rec_fields(t):
                    if (n, fd['n']) in OWNED:
                        ety = self.T(fd['t'])['to']
                        f[fd['n']] = Own(ety, self.fresh('un.null', BoolSort()),
                                         self.fresh_int('un.ln', 0, 1 << 60),
                                         self.fresh('un.arr', ArraySort(IntSort(), self.sort(ety))))
                    elif fd.get('init') is not None:
                        f[fd['n']] = self.ev(fd['init'], st if st is not None else St())
                    else:
                        f[fd['n']] = self.default(fd['t'], st)
                return SV(n, t, f)
        if T['k'] == 'array' and self.byte_arr(t) is None:
            ety = T['of']
            if self.p.cs(ety) == 'char':
                return Seq(ety, IntVal(T['size']), self.fresh('chars', ArraySort(IntSort(),
                                                                                IntSort())))
            return CSeq(ety, [self.default(ety, st) for _ in range(T['size'])])
        return self.fresh_val(t, 'uninit')

    # ---------------------------------------------------------------- store access
    def newroot(self, name, val, st):
        r = '%s#%d' % (name, next(self.rootcnt))
        st.store[r] = val
        return r

    def temp(self, val, st, name='tmp'):
        return LV([(TRUE, self.newroot(name, val, st), ())])

    def get(self, v, el):
        k, x = el
        if isinstance(v, Conflict):
            raise Unsupported('use of an unmergeable value (%s)' % v.why)
        if k == 'f':
            if isinstance(v, SV):
                if x not in v.f:
                    raise Unsupported('field %s of %s' % (x, v.n))
                return v.f[x]
        elif k == 'i':
            if isinstance(v, (Seq, Own)):
                if isinstance(v, Own) and ival(x) is None and self.T(v.ety)['k'] == 'record':
                    from . import stdlib
                    self.interested(stdlib.seqtag(self, v), x)
                return self.from_term(sel(v.arr, x), v.ety)
            if isinstance(v, CSeq):
                i = ival(x)
                if i is None:
                    return self.get(self.as_seq(v), el)
                if not 0 <= i < len(v.items):
                    raise Unsupported('index out of a concrete sequence')
                return v.items[i]
            if isinstance(v, Arr):
                xs = self.arr_items(v)
                i = ival(x)
                if i is not None:
                    if not 0 <= i < v.n:
                        raise Unsupported('index out of a byte array')
                    return xs[i]
                r = xs[-1]
                for j in reversed(range(v.n - 1)):
                    r = bif(teq(x, IntVal(j)), xs[j], r)
                return r
            if isinstance(v, Obj) and v.kind == 'cbuf':
                from . import roslib
                return roslib.cbuf_char(self, v, x)
        elif k == 'v':
            if isinstance(v, Map):
                return self.from_term(sel(v.val, x), v.vty)
            if isinstance(v, CMap):
                for a, b in v.items:
                    if a.eq(x):
                        return b
        elif k == 'p':
            if isinstance(v, (Map, CMap)):
                return SV('std::pair', None, {'first': self.kval(x, v.kty),
                                              'second': self.get(v, ('v', x))})
            if isinstance(v, SetV):
                return self.from_term(x, v.kty)
        raise Unsupported('access %s of %s' % (el, type(v).__name__))

    def put(self, v, el, new):
        k, x = el
        if isinstance(v, Conflict):
            raise Unsupported('use of an unmergeable value')
        if k == 'f' and isinstance(v, SV):
            old = v.f.get(x)
            if isinstance(old, Own) and not isinstance(new, Own):
                new = self.ptr_to_own(old, new)
            return v.with_(x, new)
        if k == 'i':
            if isinstance(v, CSeq):
                i = ival(x)
                if i is None:
                    return self.put(self.as_seq(v), el, new)
                it = list(v.items)
                if not 0 <= i < len(it):
                    raise Unsupported('index out of a concrete sequence')
                it[i] = new
                return CSeq(v.ety, it)
            if isinstance(v, Seq):
                return Seq(v.ety, v.ln, Store(v.arr, x, self.to_term(new, v.ety)))
            if isinstance(v, Own):
                return Own(v.ety, v.null, v.ln, Store(v.arr, x, self.to_term(new, v.ety)))
            if isinstance(v, Arr):
                xs = self.arr_items(v)
                i = ival(x)
                if i is not None:
                    xs[i] = new
                else:
                    xs = [bif(teq(x, IntVal(j)), new, y) for j, y in enumerate(xs)]
                return Arr(v.n, items=xs)
            if isinstance(v, Obj) and v.kind == 'cbuf':
                if ival(x) == 0 and ival(new) == 0:
                    return Obj('cbuf', n=v.a['n'], s=self.strlit(''), cnt=IntVal(0), ok=TRUE)
                raise Unsupported('store of a character inside a text buffer')
        if k == 'v':
            if isinstance(v, Map):
                return Map(v.t, v.kty, v.vty, v.dom, Store(v.val, x, self.to_term(new, v.vty)))
            if isinstance(v, CMap):
                return CMap(v.t, v.kty, v.vty,
                            [(a, new if a.eq(x) else b) for a, b in v.items])
        if k == 'p' and isinstance(v, (Map, CMap)):
            return self.put(v, ('v', x), new.f['second'])
        raise Unsupported('update %s of %s' % (el, type(v).__name__))

    def ptr_to_own(self, old, new):
        if isinstance(new, Ptr) and all(x is None for g, x in new.alts):
            return self.null_own(old.ety)
        raise Unsupported('assignment of a non-null pointer to an owning field')

    def getpath(self, v, path):
        for el in path:
            v = self.get(v, el)
        return v

    def putpath(self, v, path, new):
        if not path:
            return new
        return self.put(v, path[0], self.putpath(self.get(v, path[0]), path[1:], new)
                        if len(path) > 1 else new)

    def bounds_check(self, st, g, root, path, line):
        v = st.store.get(root)
        if v is None:
            raise Unsupported('use of an object outside its lifetime (%s)' % root)
        for n, el in enumerate(path):
            if el[0] == 'i':
                x = el[1]
                if isinstance(v, Seq):
                    c = band(ile(IntVal(0), x), ilt(x, v.ln))
                    if not is_int_value(x):
                        self.interested('idx:' + self.p.cs(v.ety), x)
                elif isinstance(v, Own):
                    c = band(bnot(v.null), ile(IntVal(0), x), ilt(x, v.ln))
                elif isinstance(v, CSeq):
                    c = band(ile(IntVal(0), x), ilt(x, IntVal(len(v.items))))
                elif isinstance(v, Arr):
                    c = band(ile(IntVal(0), x), ilt(x, IntVal(v.n)))
                elif isinstance(v, Obj) and v.kind == 'cbuf':
                    c = band(ile(IntVal(0), x), ilt(x, v.a['n']))
                else:
                    c = TRUE
                if not is_true(c):
                    self.oblige(st, bimp(g, c), 'index within bounds', line)
            elif el[0] in 'pv' and isinstance(v, Map):
                c = sel(v.dom, el[1])
                if not is_true(c):
                    self.oblige(st, bimp(g, c), 'map key present', line)
            if n < len(path) - 1:
                v = self.get(v, el)

    def load(self, lv, st, line=0):
        r = None
        for g, root, path in reversed(lv.alts):
            if self.access_hook:
                self.access_hook(self, st, g, root, path, 'read', line)
            self.bounds_check(st, g, root, path, line)
            v = self.getpath(st.store[root], path)
            if isinstance(v, Own):
                v = Ptr([(v.null, None), (bnot(v.null), ('lv', root, path + (('i', IntVal(0)),)))])
            if isinstance(v, Conflict):
                raise Unsupported('use of an unmergeable value (%s)' % v.why)
            r = v if r is None else self.merge_val(g, v, r)
        if r is None:
            raise Unsupported('load through an empty pointer')
        return r

    def peek(self, lv, st):
        """specification-level read"""
        r = None
        for g, root, path in reversed(lv.alts):
            v = self.getpath(st.store[root], path)
            r = v if r is None else self.merge_val(g, v, r)
        return r

    def store(self, lv, val, st, line=0):
        for g, root, path in lv.alts:
            if self.access_hook:
                self.access_hook(self, st, g, root, path, 'write', line)
            self.bounds_check(st, g, root, path, line)
            if self.own_hook:
                self.own_hook(self, st, g, root, path, val, line)
            old = st.store[root]
            new = self.putpath(old, path, val)
            st.store[root] = new if is_true(g) else self.merge_val(g, new, old)

    def poke(self, lv, val, st):
        for g, root, path in lv.alts:
            old = st.store[root]
            new = self.putpath(old, path, val)
            st.store[root] = new if is_true(g) else self.merge_val(g, new, old)

    # ---------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if is_true(c):
            return a
        if is_false(c):
            return b
        try:
            return self._merge(c, a, b)
        except Unsupported as e:
            return Conflict(str(e))
        except Z3Exception as e:
            return Conflict(str(e))

    def _merge(self, c, a, b):
        if isinstance(a, Conflict):
            return a
        if isinstance(b, Conflict):
            return b
        if isinstance(a, ExprRef) and isinstance(b, ExprRef):
            return bif(c, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, ExprRef) and a.sort().eq(self.CStr):
                try:
                    return bif(c, a, self.as_cstr(b))
                except Unsupported:
                    a = Ptr([(TRUE, ('cstr', a))])
            elif isinstance(b, ExprRef) and b.sort().eq(self.CStr):
                try:
                    return bif(c, self.as_cstr(a), b)
                except Unsupported:
                    b = Ptr([(TRUE, ('cstr', b))])
            if isinstance(a, ExprRef):
                a = Ptr([(TRUE, ('opq', a))])
            if isinstance(b, ExprRef):
                b = Ptr([(TRUE, ('opq', b))])
            return Ptr(self.merge_alts(c, a.alts, b.alts, self.tkey))
        if type(a) is not type(b):
            if isinstance(a, (Seq, CSeq)) and isinstance(b, (Seq, CSeq)):
                return self._merge(c, self.as_seq(a), self.as_seq(b))
            if isinstance(a, (Map, CMap)) and isinstance(b, (Map, CMap)):
                return self._merge(c, self.as_map(a), self.as_map(b))
            raise Unsupported('merge %s/%s' % (type(a).__name__, type(b).__name__))
        if isinstance(a, SV):
            if a.n != b.n or set(a.f) != set(b.f):
                raise Unsupported('merge of different structs')
            if a.n == 'std::optional' and (is_f(a.f['has']) or is_f(b.f['has'])):
                return SV(a.n, a.t, {'has': bif(c, a.f['has'], b.f['has']),
                                     'v': (b if is_f(a.f['has']) else a).f['v']})
            return SV(a.n, a.t, {k: self._merge(c, a.f[k], b.f[k]) if a.f[k] is not b.f[k]
                                 else a.f[k] for k in a.f})
        if isinstance(a, Seq):
            return Seq(a.ety, bif(c, a.ln, b.ln), bif(c, a.arr, b.arr))
        if isinstance(a, CSeq):
            if len(a.items) == len(b.items):
                return CSeq(a.ety, [self._merge(c, x, y) for x, y in zip(a.items, b.items)])
            return self._merge(c, self.as_seq(a), self.as_seq(b))
        if isinstance(a, Own):
            return Own(a.ety, bif(c, a.null, b.null), bif(c, a.ln, b.ln), bif(c, a.arr, b.arr))
        if isinstance(a, Arr):
            if a.items is not None and b.items is not None:
                return Arr(a.n, items=[bif(c, x, y) for x, y in zip(a.items, b.items)])
            return Arr(a.n, term=bif(c, self.arr_term(a), self.arr_term(b)))
        if isinstance(a, Map):
            return Map(a.t, a.kty, a.vty, bif(c, a.dom, b.dom), bif(c, a.val, b.val))
        if isinstance(a, CMap):
            if len(a.items) == len(b.items) and \
                    all(x[0].eq(y[0]) for x, y in zip(a.items, b.items)):
                return CMap(a.t, a.kty, a.vty, [(x[0], self._merge(c, x[1], y[1]))
                                                for x, y in zip(a.items, b.items)])
            return self._merge(c, self.as_map(a), self.as_map(b))
        if isinstance(a, SetV):
            return SetV(a.t, a.kty, bif(c, a.dom, b.dom))
        if isinstance(a, Fn):
            return Fn(self.merge_alts(c, a.alts, b.alts, id))
        if isinstance(a, LV):
            return LV([(g, r, p) for g, (r, p) in self.merge_alts(
                c, [(g, (r, p)) for g, r, p in a.alts], [(g, (r, p)) for g, r, p in b.alts],
                lambda x: (x[0], pkey(x[1])))])
        if isinstance(a, VecIt):
            return VecIt(self._merge(c, a.lv, b.lv), bif(c, a.idx, b.idx))
        if isinstance(a, MapIt):
            return MapIt(self._merge(c, a.lv, b.lv), bif(c, a.end, b.end),
                         bif(c, a.key, b.key))
        if isinstance(a, Obj):
            if a.kind != b.kind:
                raise Unsupported('merge of different library objects')
            d = {}
            for k in a.a:
                x, y = a.a[k], b.a[k]
                d[k] = x if x is y or x == y and not isinstance(x, ExprRef) else \
                    self._merge(c, x, y)
            return Obj(a.kind, **d)
        if a == b:
            return a
        raise Unsupported('merge of %s' % type(a).__name__)

    def tkey(self, x):
        if x is None:
            return None
        if x[0] == 'lv':
            return ('lv', x[1], pkey(x[2]))
        return (x[0], x[1].get_id())

    def merge_alts(self, c, A, B, key):
        d = {}
        order = []
        for cond, alts in ((c, A), (bnot(c), B)):
            for g, x in alts:
                g2 = band(cond, g)
                if is_false(g2):
                    continue
                k = key(x)
                if k in d:
                    d[k] = (bor(d[k][0], g2), x)
                else:
                    d[k] = (g2, x)
                    order.append(k)
        if len(order) == 1:
            return [(TRUE, d[order[0]][1])]
        return [d[k] for k in order]

    def as_map(self, v):
        if isinstance(v, CMap):
            m = self.empty_map(v.t)
            for k, x in v.items:
                m = Map(m.t, m.kty, m.vty, Store(m.dom, k, TRUE),
                        Store(m.val, k, self.to_term(x, v.vty)))
            return m
        return v

    def merge(self, items):
        """items: list of (St, value); returns merged (St, value)"""
        if len(items) == 1:
            return items[0]
        pcs = [s.pc for s, _ in items]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n].eq(pcs[0][n]) for p in pcs):
            n += 1
        pre = pcs[0][:n]
        rests = [band(*p[n:]) for p in pcs]
        o = bor(*rests)
        if not is_true(o):
            o = self.simp_or(o, rests)
        pc = pre if is_true(o) else pre + (o,)
        st = St(pc, {})
        keys = {}
        for s, _ in items:
            for k in s.store:
                keys[k] = 1
        for k in keys:
            val = None
            for (s, _), g in reversed(list(zip(items, rests))):
                if k in s.store or k.startswith('$tok'):
                    v = s.store.get(k, FALSE)
                    val = v if val is None else self.merge_val(g, v, val)
            st.store[k] = val
        val = items[-1][1]
        for (s, v), g in reversed(list(zip(items, rests))[:-1]):
            if v is None and val is None:
                continue
            val = self.merge_val(g, v, val)
        return st, val

    def simp_or(self, o, rests):
        # a cheap propositional simplification: complementary path conditions disappear
        if len(rests) <= 12:
            s = Solver()
            s.set('rlimit', 100000)
            s.add(Not(o))
            if s.check() == unsat:
                return TRUE
        return o

    # ---------------------------------------------------------------- expressions
    def glv(self, e):
        if e['k'] == 'Cleanups' and e['e']['k'] != 'MaterializeTemporaryExpr':
            return self.glv(e['e'])
        return e.get('vk') in ('l', 'x')

    def actual(self, e, st):
        """argument: LV for glvalues, value otherwise"""
        if e['k'] in ('CXXDefaultArgExpr', 'Cleanups') and not self.glv(e):
            return self.actual(e['e'], st)
        if self.glv(e):
            return self.lv(e, st)
        return self.ev(e, st)

    def val(self, e, st):
        """value of e, loading glvalues"""
        if self.glv(e):
            return self.load(self.lv(e, st), st, e.get('l', 0))
        return self.ev(e, st)

    def aval(self, a, st):
        return self.load(a, st) if isinstance(a, LV) else a

    def alv(self, a, st):
        return a if isinstance(a, LV) else self.temp(a, st)

    @property
    def fr(self):
        return self.frames[-1]

    def lookup(self, d):
        for f in (self.fr,):
            if d['id'] in f.env:
                return f.env[d['id']]
        return None

    def lv(self, e, st):
        k = e['k']
        m = getattr(self, 'lv_' + k, None)
        if m is None:
            if not self.glv(e):
                return self.temp(self.ev(e, st), st)
            raise Unsupported('lvalue %s at line %s' % (k, e.get('l')))
        return m(e, st)

    def lv_Cleanups(self, e, st):
        return self.with_temps(lambda: self.lv(e['e'], st), st)

    def lv_DeclRefExpr(self, e, st):
        d = e['d']
        r = self.lookup(d)
        if r is not None:
            return r
        if d['dk'] in ('Function', 'CXXMethod'):
            return self.temp(FuncRef(d['id']), st)
        if d.get('global') or d['id'] in self.p.globals:
            return self.global_lv(d, st)
        for f in reversed(self.frames):
            if d['id'] in f.env:
                return f.env[d['id']]
        raise Unsupported('unknown variable ' + d['n'])

    def global_lv(self, d, st):
        g = self.p.globals[d['id']]
        q = g.get('q') or g['n']
        root = 'g:%s:%d' % (q, d['id'])
        if root not in st.store:
            if q.startswith('std::placeholders'):
                v = Obj('placeholder', n=int(q.split('_')[-1]))
            elif q in ('std::piecewise_construct', 'std::nothrow', 'std::ignore'):
                v = Obj(q)
            else:
                T = self.T(g['t'])
                if not T.get('const') and not g.get('constexpr'):
                    raise Unsupported('mutable global ' + q)
                if g.get('init') is None:
                    raise Unsupported('global without initialiser ' + q)
                s2 = St((), st.store)
                v = self.ev(g['init'], s2)
            st.store[root] = v
        return LV([(TRUE, root, ())])

    def lv_MemberExpr(self, e, st):
        if e['d']['dk'] in ('CXXMethod',):
            raise Unsupported('member function reference')
        if e['d'].get('global'):
            return self.global_lv(e['d'], st)
        if e['arrow']:
            base = self.deref(self.val(e['b'], st), st, e.get('l', 0))
        else:
            base = self.lv(e['b'], st) if self.glv(e['b']) else \
                self.temp(self.ev(e['b'], st), st)
        return base.sub(('f', e['m']))

    def deref(self, p, st, line=0):
        if isinstance(p, LV):
            return p
        if isinstance(p, ExprRef) and p.sort().eq(self.CStr):
            raise Unsupported('dereference of a string pointer')
        if isinstance(p, VecIt):
            return p.lv.sub(('i', p.idx))
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %s' % type(p).__name__)
        alts = []
        nullg = FALSE
        for g, x in p.alts:
            if x is None:
                nullg = bor(nullg, g)
            elif x[0] == 'lv':
                alts.append((g, x[1], x[2]))
            elif not self.feasible(st, g):
                continue
            else:
                raise Unsupported('dereference of an opaque pointer')
        if not is_false(nullg):
            self.oblige(st, bnot(nullg), 'pointer not null', line)
        if not alts:
            raise Dead()
        if len(alts) == 1:
            alts = [(TRUE,) + tuple(alts[0][1:])]
        return LV(alts)

    def lv_UnaryOperator(self, e, st):
        op = e['op']
        if op == '*':
            p = self.val(e['e'], st)
            if isinstance(p, Obj) and p.kind == 'thisptr':
                return p.a['lv']
            if isinstance(p, (FuncRef,)):
                return self.temp(p, st)
            return self.deref(p, st, e.get('l', 0))
        if op in ('++', '--') and not e.get('post'):
            l = self.lv(e['e'], st)
            self.incdec(e, l, st)
            return l
        if op in ('__extension__',):
            return self.lv(e['e'], st)
        raise Unsupported('lvalue unary ' + op)

    def lv_ArraySubscriptExpr(self, e, st):
        b, i = e['c']
        if self.T(b['t'])['k'] != 'ptr':
            b, i = i, b
        p = self.val(b, st)
        x = self.val(i, st)
        q = self.ptr_add(p, x, st, e.get('l', 0))
        return self.deref(q, st, e.get('l', 0))

    def ptr_add(self, p, n, st, line=0):
        if isinstance(p, VecIt):
            return VecIt(p.lv, iadd(p.idx, n))
        if not isinstance(p, Ptr):
            raise Unsupported('pointer arithmetic on %s' % type(p).__name__)
        alts = []
        for g, x in p.alts:
            if x is None:
                if ival(n) == 0:
                    alts.append((g, None))
                else:
                    self.oblige(st, bor(bnot(g), teq(n, IntVal(0))), 'pointer not null', line)
                    alts.append((g, None))
            elif x[0] == 'lv' and x[2] and x[2][-1][0] == 'i':
                alts.append((g, ('lv', x[1], x[2][:-1] + (('i', iadd(x[2][-1][1], n)),))))
            else:
                raise Unsupported('pointer arithmetic outside an array')
        return Ptr(alts)

    def lv_ImplicitCastExpr(self, e, st):
        ck = e['ck']
        if ck in ('NoOp', 'LValueBitCast'):
            return self.lv(e['e'], st)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.lv(e['e'], st)
        raise Unsupported('lvalue cast ' + ck)

    lv_CXXStaticCastExpr = lv_CXXConstCastExpr = lv_CXXFunctionalCastExpr = lv_CStyleCastExpr = \
        lv_ImplicitCastExpr

    def lv_CXXReinterpretCastExpr(self, e, st):
        return self.lv(e['e'], st)

    def lv_MaterializeTemporaryExpr(self, e, st):
        v = self.ev(e['e'], st) if not self.glv(e['e']) else self.load(self.lv(e['e'], st), st)
        r = self.temp(v, st)
        if not e.get('ext') and self.fr.temps:
            self.fr.temps[-1].append(r.alts[0][1])
        elif e.get('ext') and self.needs_dtor(v):
            self.fr.scopes[-1].append(r.alts[0][1])
        return r

    def lv_CXXBindTemporaryExpr(self, e, st):
        return self.temp(self.ev(e['e'], st), st)

    def lv_ConditionalOperator(self, e, st):
        return self.cond_op(e, st, self.lv)

    def lv_BinaryOperator(self, e, st):
        op = e['op']
        if op == '=':
            return self.assign(e, st)
        if op == ',':
            self.discard(e['a'], st)
            return self.lv(e['b'], st)
        if op in ('.*', '->*'):
            base = self.lv(e['a'], st) if op == '.*' else \
                self.deref(self.val(e['a'], st), st, e.get('l', 0))
            m = self.val(e['b'], st)
            if not isinstance(m, Obj) or m.kind != 'memptr':
                raise Unsupported('member pointer %s' % type(m).__name__)
            return base.sub(('f', m.a['m']))
        raise Unsupported('lvalue binary ' + op)

    def lv_CompoundAssignOperator(self, e, st):
        l = self.lv(e['a'], st)
        ln = e.get('l', 0)
        old = self.load(l, st, ln)
        b = self.val(e['b'], st)
        op = e['op'][:-1]
        if isinstance(old, (Ptr, VecIt)):
            new = self.ptr_add(old, b if op == '+' else isub(IntVal(0), b), st, ln)
        else:
            x = self.conv_int(old, e['a']['t'], e['clt'], st, ln)
            r = self.arith(op, x, b, e['ct'], st, ln)
            new = self.conv_int(r, e['ct'], e['a']['t'], st, ln)
        self.store(l, new, st, ln)
        return l

    def lv_CallExpr(self, e, st):
        r = self.call(e, st)
        if not isinstance(r, LV):
            if r is None:
                raise Unsupported('void call used as lvalue')
            return self.temp(r, st)
        return r

    lv_CXXMemberCallExpr = lv_CXXOperatorCallExpr = lv_CallExpr

    def lv_StringLiteral(self, e, st):
        return self.temp(Obj('strlit', v=e['v']), st)

    def ev_StringLiteral(self, e, st):
        return Obj('strlit', v=e['v'])

    def lv_PredefinedExpr(self, e, st):
        return self.temp(Obj('strlit', v=[]), st)

    def lv_CXXStdInitializerListExpr(self, e, st):
        return self.temp(self.ev(e, st), st)

    def lv_InitListExpr(self, e, st):
        if e.get('transparent') or len(e['c']) == 1:
            return self.lv(e['c'][0], st)
        raise Unsupported('lvalue init list')

    def lv_CXXDefaultArgExpr(self, e, st):
        return self.lv(e['e'], st)

    # -- rvalues
    def ev(self, e, st):
        if e is None:
            return None
        if 'cv' in e and e['k'] not in ('CXXMemberCallExpr',):
            return self.const_int(e['cv'], e['t'])
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            if self.glv(e):
                return self.load(self.lv(e, st), st, e.get('l', 0))
            raise Unsupported('expression %s at line %s' % (k, e.get('l')))
        return m(e, st)

    def const_int(self, s, t):
        if self.is_bool_t(t):
            return BoolVal(s not in ('0', 'false'))
        return IntVal(int(s))

    def ev_Cleanups(self, e, st):
        return self.with_temps(lambda: self.ev(e['e'], st), st)

    def with_temps(self, fn, st):
        self.fr.temps.append([])
        try:
            r = fn()
        except Dead:
            self.fr.temps.pop()
            raise
        ts = self.fr.temps.pop()
        for root in reversed(ts):
            if root in st.store and self.needs_dtor(st.store[root]):
                self.destroy(root, st)
        return r

    def ev_IntegerLiteral(self, e, st):
        return IntVal(int(e['v']))

    ev_CharacterLiteral = ev_IntegerLiteral

    def ev_CXXBoolLiteralExpr(self, e, st):
        return BoolVal(bool(e['v']))

    def ev_CXXNullPtrLiteralExpr(self, e, st):
        return NULLP

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_CXXThisExpr(self, e, st):
        this = self.fr.this
        if this is None:
            raise Unsupported('this outside a member function')
        return lvptr(this)

    def ev_DeclRefExpr(self, e, st):
        d = e['d']
        if d['dk'] == 'EnumConstant':
            return IntVal(int(d['v']))
        return self.load(self.lv(e, st), st, e.get('l', 0))

    def ev_MemberExpr(self, e, st):
        if self.glv(e):
            return self.load(self.lv(e, st), st, e.get('l', 0))
        b = self.ev(e['b'], st)
        return self.get(b, ('f', e['m']))

    def ev_ImplicitCastExpr(self, e, st):
        ck = e['ck']
        x = e['e']
        ln = e.get('l', 0)
        if ck == 'LValueToRValue':
            return self.load(self.lv(x, st), st, ln)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
            return self.ev(x, st) if not self.glv(x) else self.load(self.lv(x, st), st, ln)
        if ck == 'BitCast' or ck == 'ReinterpretMemberPointer':
            return self.ev(x, st)
        if ck == 'IntegralCast' or ck == 'BooleanToSignedIntegral':
            return self.conv_int(self.ev(x, st), x['t'], e['t'], st, ln)
        if ck == 'IntegralToBoolean':
            v = self.ev(x, st)
            return v if is_bool(v) else bnot(teq(v, IntVal(0)))
        if ck == 'PointerToBoolean' or ck == 'MemberPointerToBoolean':
            return bnot(self.is_null(self.ev(x, st)))
        if ck == 'NullToPointer':
            self.ev(x, st)
            return NULLP
        if ck == 'ArrayToPointerDecay':
            if x['k'] == 'StringLiteral':
                return self.cstr(self.strlit(bytes(c & 255 for c in x['v']).decode('latin1')))
            l = self.lv(x, st)
            v0 = self.peek(l, st) if len(l.alts) == 1 else None
            if isinstance(v0, Obj) and v0.kind == 'strlit':
                return self.cstr(self.strlit(bytes(c & 255 for c in v0.a['v']).decode('latin1')))
            return lvptr(l.sub(('i', IntVal(0))))
        if ck == 'FunctionToPointerDecay':
            v = self.val(x, st)
            return v
        if ck == 'ToVoid':
            self.discard(x, st)
            return None
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            return self.ev(x, st)
        raise Unsupported('cast %s at line %s' % (ck, ln))

    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXConstCastExpr = \
        ev_CXXReinterpretCastExpr = ev_ImplicitCastExpr

    def ev_BuiltinBitCastExpr(self, e, st):
        raise Unsupported('bit cast')

    def conv_int(self, v, t0, t1, st, ln=0):
        if self.is_bool_t(t1):
            return v if is_bool(v) else bnot(teq(v, IntVal(0)))
        if not self.is_int(t1):
            raise Unsupported('conversion to ' + self.T(t1)['s'])
        if is_bool(v):
            return bif(v, IntVal(1), IntVal(0))
        lo, hi = self.int_range(t1)
        return self.wrap(v, lo, hi, st)

    def wrap(self, v, lo, hi, st):
        x = ival(v)
        m = hi - lo + 1
        if x is not None:
            return IntVal((x - lo) % m + lo)
        a, b = self.interval(v)
        if a is not None and b is not None and a >= lo and b <= hi:
            return v
        if self.valid(st, And(v >= lo, v <= hi)):
            return v
        if a is not None and b is not None and a >= lo - m and b <= hi + m:
            return If(v < lo, v + m, If(v > hi, v - m, v))
        if lo == 0:
            r = v % m
        else:
            r = (v - lo) % m + lo
        return r

    def arith(self, op, a, b, t, st, ln=0):
        T = self.T(t)
        if is_bool(a):
            a = bif(a, IntVal(1), IntVal(0))
        if is_bool(b):
            b = bif(b, IntVal(1), IntVal(0))
        if not self.is_int(t):
            raise Unsupported('arithmetic on ' + T['s'])
        lo, hi = self.int_range(t)
        if op == '+':
            r = iadd(a, b)
        elif op == '-':
            r = isub(a, b)
        elif op == '*':
            x, y = ival(a), ival(b)
            r = IntVal(x * y) if x is not None and y is not None else a * b
        elif op in ('/', '%'):
            self.oblige(st, bnot(teq(b, IntVal(0))), 'divisor not zero', ln)
            la, ha = self.interval(a)
            lb, hb = self.interval(b)
            if la is None or la < 0 or lb is None or lb < 0:
                if not self.valid(st, And(a >= 0, b >= 0)):
                    raise Unsupported('signed division')
            x, y = ival(a), ival(b)
            if x is not None and y:
                return IntVal(x // y if op == '/' else x % y)
            r = a / b if op == '/' else a % b
            return r
        elif op in ('&', '|', '^', '<<', '>>'):
            x, y = ival(a), ival(b)
            if x is not None and y is not None:
                r = IntVal({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if y < 64 else 0,
                            '>>': x >> y}[op])
            elif op == '<<' and y is not None:
                r = a * (1 << y)
            elif op == '>>' and y is not None:
                r = a / (1 << y)
            elif op == '&' and y is not None and (y & (y + 1)) == 0 and lo == 0:
                r = a % (y + 1)
            else:
                bits = (hi - lo + 1).bit_length() - 1
                A, B = Int2BV(a, bits), Int2BV(b, bits)
                r = {'&': A & B, '|': A | B, '^': A ^ B}.get(op)
                if r is None:
                    raise Unsupported('shift')
                r = BV2Int(r, is_signed=lo < 0)
        else:
            raise Unsupported('operator ' + op)
        if lo < 0:
            a_, b_ = self.interval(r)
            if not (a_ is not None and b_ is not None and a_ >= lo and b_ <= hi):
                self.oblige(st, band(ile(IntVal(lo), r), ile(r, IntVal(hi))),
                            'no signed overflow', ln)
            return r
        return self.wrap(r, lo, hi, st)

    def is_null(self, v):
        if isinstance(v, Ptr):
            return bor(*[g for g, x in v.alts if x is None] +
                       [band(g, self.is_cnull(x[1])) for g, x in v.alts if x and x[0] == 'cstr'] +
                       [band(g, teq(x[1], self.opq_null)) for g, x in v.alts
                        if x and x[0] == 'opq'])
        if isinstance(v, Fn):
            return bor(*[g for g, x in v.alts if x is None])
        if isinstance(v, FuncRef):
            return FALSE
        if isinstance(v, ExprRef):
            if v.sort().eq(self.CStr):
                return self.is_cnull(v)
            if v.sort().eq(self.Opq):
                return teq(v, self.opq_null)
        raise Unsupported('null test of %s' % type(v).__name__)

    def ptr_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and all(t is None for g, t in x.alts):
                return self.is_null(y)
        if isinstance(a, ExprRef) and isinstance(b, ExprRef):
            if a.sort().eq(self.Opq):
                return teq(a, b)
            raise Unsupported('comparison of string pointers')
        if isinstance(a, VecIt) and isinstance(b, VecIt) and a.lv.key() == b.lv.key():
            return teq(a.idx, b.idx)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == 'memptr':
            return BoolVal(a.a['m'] == b.a['m'])
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            r = []
            for g, x in a.alts:
                for h, y in b.alts:
                    c = band(g, h)
                    if is_false(c):
                        continue
                    if x is None or y is None:
                        if x is None and y is None:
                            r.append(c)
                        elif (x or y)[0] != 'lv':
                            raise Unsupported('pointer comparison')
                        continue
                    if x[0] == 'lv' and y[0] == 'lv':
                        if x[1] != y[1]:
                            continue
                        if pkey(x[2]) == pkey(y[2]):
                            r.append(c)
                            continue
                        if len(x[2]) == len(y[2]) and pkey(x[2][:-1]) == pkey(y[2][:-1]) and \
                                x[2][-1][0] == 'i' and y[2][-1][0] == 'i':
                            r.append(band(c, teq(x[2][-1][1], y[2][-1][1])))
                            continue
                    raise Unsupported('pointer comparison')
            return bor(*r)
        raise Unsupported('pointer comparison')

    def ev_UnaryOperator(self, e, st):
        op = e['op']
        ln = e.get('l', 0)
        if op == '!':
            v = self.ev(e['e'], st)
            return bnot(v)
        if op == '&':
            x = e['e']
            if x['k'] == 'DeclRefExpr' and x['d']['dk'] in ('Function', 'CXXMethod'):
                return FuncRef(x['d']['id'])
            if x['k'] == 'DeclRefExpr' and x['d']['dk'] == 'Field':
                return Obj('memptr', m=x['d'].get('n') or x['d']['q'].split('::')[-1])
            return lvptr(self.lv(x, st))
        if op == '-':
            return self.arith('-', IntVal(0), self.ev(e['e'], st), e['t'], st, ln)
        if op == '+':
            return self.ev(e['e'], st)
        if op == '~':
            v = self.ev(e['e'], st)
            lo, hi = self.int_range(e['t'])
            return isub(IntVal(-1), v) if lo < 0 else isub(IntVal(hi), v)
        if op in ('++', '--'):
            l = self.lv(e['e'], st)
            return self.incdec(e, l, st)
        if op == '__extension__':
            return self.val(e['e'], st)
        if op == '*':
            return self.load(self.lv(e, st), st, ln)
        raise Unsupported('unary ' + op)

    def incdec(self, e, l, st):
        """returns the old value"""
        ln = e.get('l', 0)
        old = self.load(l, st, ln)
        d = IntVal(1) if e['op'] == '++' else IntVal(-1)
        t = e['e']['t']
        if isinstance(old, (Ptr, VecIt)):
            new = self.ptr_add(old, d, st, ln)
        else:
            new = self.arith('+' if e['op'] == '++' else '-', old, IntVal(1), t, st, ln)
        self.store(l, new, st, ln)
        return old

    def ev_CompoundAssignOperator(self, e, st):
        return self.load(self.lv(e, st), st, e.get('l', 0))

    def ev_BinaryOperator(self, e, st):
        op = e['op']
        ln = e.get('l', 0)
        if op in ('&&', '||'):
            a = self.ev(e['a'], st)
            if is_false(a) and op == '&&' or is_true(a) and op == '||':
                return a
            c = a if op == '&&' else bnot(a)
            if is_true(c):
                return self.ev(e['b'], st)
            s2 = st.fork(c)
            try:
                b = self.ev(e['b'], s2)
            except Dead:
                st.pc = st.pc + (bnot(c),)
                return BoolVal(op != '&&')
            if all(s2.store.get(k) is st.store.get(k) for k in st.store):
                # no effect on existing objects: keep the state, drop the fork
                for k in s2.store:
                    st.store.setdefault(k, s2.store[k])
                return band(a, b) if op == '&&' else bor(a, b)
            s1 = st.fork(bnot(c))
            m, v = self.merge([(s2, b), (s1, BoolVal(op != '&&'))])
            st.assign(m)
            return v
        if op == ',':
            self.discard(e['a'], st)
            return self.ev(e['b'], st)
        if op == '=':
            return self.load(self.assign(e, st), st, ln)
        a = self.ev(e['a'], st)
        b = self.ev(e['b'], st)
        return self.binop(op, a, b, e['t'], st, ln, e)

    def binop(self, op, a, b, t, st, ln=0, e=None):
        if op in ('==', '!='):
            if isinstance(a, ExprRef) and isinstance(b, ExprRef) and \
                    not a.sort().eq(self.CStr) and not a.sort().eq(self.Opq):
                if is_bool(a) != is_bool(b):
                    a = bif(a, IntVal(1), IntVal(0)) if is_bool(a) else a
                    b = bif(b, IntVal(1), IntVal(0)) if is_bool(b) else b
                c = teq(a, b)
            else:
                c = self.ptr_eq(a, b)
            return c if op == '==' else bnot(c)
        if op in ('<', '<=', '>', '>='):
            if isinstance(a, (Ptr, VecIt)):
                a, b = self.ptr_indices(a, b)
            if is_bool(a):
                a = bif(a, IntVal(1), IntVal(0))
            if is_bool(b):
                b = bif(b, IntVal(1), IntVal(0))
            return {'<': lambda: ilt(a, b), '<=': lambda: ile(a, b), '>': lambda: ilt(b, a),
                    '>=': lambda: ile(b, a)}[op]()
        if isinstance(a, (Ptr, VecIt)) or isinstance(b, (Ptr, VecIt)):
            if op == '+':
                if isinstance(b, (Ptr, VecIt)):
                    a, b = b, a
                return self.ptr_add(a, b, st, ln)
            if op == '-':
                if isinstance(b, (Ptr, VecIt)):
                    x, y = self.ptr_indices(a, b)
                    return isub(x, y)
                return self.ptr_add(a, isub(IntVal(0), b), st, ln)
        return self.arith(op, a, b, t, st, ln)

    def ptr_indices(self, a, b):
        if isinstance(a, VecIt) and isinstance(b, VecIt):
            return a.idx, b.idx
        if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1:
            x, y = a.alts[0][1], b.alts[0][1]
            if x and y and x[0] == y[0] == 'lv' and x[1] == y[1] and \
                    pkey(x[2][:-1]) == pkey(y[2][:-1]):
                return x[2][-1][1], y[2][-1][1]
        raise Unsupported('pointer difference')

    def assign(self, e, st):
        ln = e.get('l', 0)
        v = self.ev(e['b'], st) if not self.glv(e['b']) else \
            self.load(self.lv(e['b'], st), st, ln)
        l = self.lv(e['a'], st)
        self.store(l, v, st, ln)
        return l

    def ev_ConditionalOperator(self, e, st):
        return self.cond_op(e, st, self.ev)

    def cond_op(self, e, st, f):
        c = self.ev(e['cond'], st)
        if is_true(c):
            return f(e['a'], st)
        if is_false(c):
            return f(e['b'], st)
        items = []
        for g, x in ((c, e['a']), (bnot(c), e['b'])):
            s = st.fork(g)
            if not self.feasible(s):
                continue
            try:
                items.append((s, f(x, s)))
            except Dead:
                pass
        if not items:
            raise Dead()
        m, v = self.merge(items)
        st.assign(m)
        return v

    def ev_CXXConstructExpr(self, e, st):
        return self.construct(e, st)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def ev_CXXBindTemporaryExpr(self, e, st):
        return self.ev(e['e'], st)

    def ev_MaterializeTemporaryExpr(self, e, st):
        return self.ev(e['e'], st)

    def ev_CXXDefaultArgExpr(self, e, st):
        return self.ev(e['e'], st)

    def ev_CXXDefaultInitExpr(self, e, st):
        return self.ev(e['e'], st)

    def ev_ImplicitValueInitExpr(self, e, st):
        return self.zero(e['t'])

    def ev_CXXScalarValueInitExpr(self, e, st):
        return self.zero(e['t'])

    def ev_InitListExpr(self, e, st):
        t = self.p.deref(e['t'])
        T = self.T(t)
        if self.byte_arr(t) is not None:
            n = self.byte_arr(t)
            c = e['c']
            if len(c) == 1 and c[0]['k'] == 'InitListExpr':
                return self.ev(c[0], st)
            xs = [self.ev(x, st) for x in c]
            if len(xs) == 1 and isinstance(xs[0], Arr):
                return xs[0]
            return Arr(n, items=xs + [IntVal(0)] * (n - len(xs)))
        if T['k'] == 'array':
            xs = [self.val(x, st) for x in e['c']]
            while len(xs) < T['size']:
                xs.append(self.zero(T['of']))
            return CSeq(T['of'], xs)
        if T['k'] == 'record':
            if e.get('transparent'):
                return self.val(e['c'][0], st)
            if T['n'] == 'std::array':
                return self.val(e['c'][0], st)
            f = {}
            fds = self.rec_fields(t)
            n = T['n']
            for i, fd in enumerate(fds):
                if i < len(e['c']):
                    v = self.val(e['c'][i], st)
                    if (n, fd['n']) in OWNED and not isinstance(v, Own):
                        ety = self.T(fd['t'])['to']
                        v = self.ptr_to_own(self.null_own(ety), v)
                    f[fd['n']] = v
                else:
                    f[fd['n']] = self.zero(fd['t'])
            return SV(n, t, f)
        if not e['c']:
            return self.zero(t)
        return self.val(e['c'][0], st)

    def ev_CXXStdInitializerListExpr(self, e, st):
        x = e['e']
        while x['k'] in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr'):
            x = x['e']
        return self.ev(x, st)

    def ev_LambdaExpr(self, e, st):
        caps = []
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = self.fr.this
                continue
            if c['byref']:
                caps.append((c['d']['id'], True, self.lv(c['init'], st)))
            else:
                caps.append((c['d']['id'], False, self.val(c['init'], st)))
        f = e['f']['id']
        if 'specs' in e:
            f = tuple(x['id'] for x in e['specs'])
        return Fn([(TRUE, Closure(e['rid'], f, caps, this))])

    def ev_SourceLocExpr(self, e, st):
        return self.cstr(self.strlit(''))

    def ev_PredefinedExpr(self, e, st):
        return self.cstr(self.strlit(''))

    def ev_CXXThrowExpr(self, e, st):
        self.oblige(st, FALSE, 'no exception thrown', e.get('l', 0))
        raise Dead()

    def ev_CallExpr(self, e, st):
        r = self.call(e, st)
        if isinstance(r, LV) and not self.glv(e):
            r = self.load(r, st, e.get('l', 0))
        return r

    ev_CXXMemberCallExpr = ev_CXXOperatorCallExpr = ev_CallExpr

    def discard(self, e, st):
        if e['k'] == 'Cleanups':
            return self.with_temps(lambda: self.discard(e['e'], st), st)
        if e['k'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and \
                e.get('ck') == 'ToVoid':
            return self.discard(e['e'], st)
        if self.glv(e):
            if e['k'] == 'DeclRefExpr':
                return
            self.lv(e, st)
        else:
            v = self.ev(e, st)
            if v is not None and not isinstance(v, LV) and self.needs_dtor(v):
                r = self.newroot('tmp', v, st)
                self.destroy(r, st)

    # ---------------------------------------------------------------- calls
    def obj_lv(self, e, st):
        """object argument of a member or member-operator call"""
        if 'obj' in e:
            if e.get('arrow'):
                return self.deref(self.val(e['obj'], st), st, e.get('l', 0))
            return self.lv(e['obj'], st)
        return self.lv(e['args'][0], st)

    def call(self, e, st):
        f = e.get('f')
        if f is None:
            fn = self.val(e['callee'], st)
            args = [self.actual(a, st) for a in e['args']]
            return self.call_fn(fn, args, st, e)
        q = f['q']
        h = self.handlers.get(q)
        if h is None and q in self.contracts:
            h = self.contracts[q]
        if h is not None:
            member = 'cls' in f and not f.get('static') and ('obj' in e or 'oper' in e)
            args = e['args'][1:] if member and 'obj' not in e else e['args']
            try:
                return h(self, st, e, args)
            except Dead:
                raise
        d = self.p.funcs.get(f['id'])
        if d is None or d.get('body') is None:
            if d is not None and (d.get('defaulted') or d.get('implicit')) and \
                    f.get('n') == 'operator=':
                src = self.val(e['args'][1] if 'obj' not in e else e['args'][0], st)
                l = self.obj_lv(e, st)
                self.store(l, src, st, e.get('l', 0))
                return l
            raise Unsupported('call of %s (line %s)' % (q, e.get('l')))
        if q.startswith('std::') or q.startswith('__gnu_cxx'):
            raise Unsupported('no contract for %s' % q)
        this = None
        args = e['args']
        if 'cls' in f and not f.get('static'):
            this = self.obj_lv(e, st)
            if 'obj' not in e:
                args = args[1:]
            if f.get('n') == 'operator()':
                fn = self.peek(this, st)
                if isinstance(fn, (Fn, Handler)):
                    acts = [self.actual(a, st) for a in args]
                    return self.call_fn(fn, acts, st, e)
        acts = [self.actual(a, st) for a in args]
        return self.inline(f['id'], this, acts, st)

    def inline(self, fid, this, acts, st, env=None):
        d = self.p.funcs[fid]
        if self.call_stack.count(d['q']) > 3 or len(self.call_stack) > 40:
            raise Unsupported('recursion through ' + d['q'])
        self.used[d['q']] = self.used.get(d['q'], 0) + 1
        fr = Frame(fid, this, d['q'])
        if env:
            fr.env.update(env)
        mine = set()
        if len(acts) < len(d['params']):
            raise Unsupported('missing arguments')
        fr.varargs = acts[len(d['params']):]
        for p, a in zip(d['params'], acts):
            if self.p.is_ref(p['t']):
                l = a if isinstance(a, LV) else self.temp(a, st, p['n'] or 'arg')
                fr.env[p['id']] = l
            else:
                v = self.load(a, st) if isinstance(a, LV) else a
                r = self.newroot(p['n'] or 'arg', v, st)
                mine.add(r)
                fr.env[p['id']] = LV([(TRUE, r, ())])
        self.frames.append(fr)
        self.call_stack.append(d['q'])
        keep = set(st.store)
        try:
            fr.scopes.append([])
            outs = self.exec_body(d['body'], st.fork())
        finally:
            self.frames.pop()
            self.call_stack.pop()
        rets = []
        for o in outs:
            if o.k in ('ret', 'norm'):
                rets.append((o.st, o.v))
            else:
                raise Unsupported('%s leaves function %s' % (o.k, d['q']))
        if not rets:
            raise Dead()
        m, v = self.merge(rets)
        st.assign(m)
        # drop dead locals (keep whatever the result may refer to)
        refs = self.roots_in(v)
        for k in list(st.store):
            if k not in keep and k not in refs and '#' in k and not k.startswith('$'):
                if any(k in self.roots_in(x) for n, x in st.store.items() if n != k and
                       (n in keep or n in refs)):
                    continue
                del st.store[k]
        for r in mine:
            if r not in refs:
                st.store.pop(r, None)
        return v

    def roots_in(self, v, depth=0):
        if isinstance(v, LV):
            return {r for g, r, p in v.alts}
        if isinstance(v, Ptr):
            return {x[1] for g, x in v.alts if x and x[0] == 'lv'}
        if isinstance(v, (VecIt, MapIt)):
            return self.roots_in(v.lv)
        if isinstance(v, SV):
            r = set()
            for x in v.f.values():
                if not isinstance(x, ExprRef):
                    r |= self.roots_in(x)
            return r
        if isinstance(v, CSeq):
            r = set()
            for x in v.items:
                if not isinstance(x, ExprRef):
                    r |= self.roots_in(x)
            return r
        if isinstance(v, Fn):
            r = set()
            for g, x in v.alts:
                if isinstance(x, Closure):
                    for i, byref, c in x.caps:
                        r |= self.roots_in(c)
                    if x.this is not None:
                        r |= self.roots_in(x.this)
                elif isinstance(x, Bound):
                    r |= self.roots_in(x.fn)
                    for a in x.args:
                        r |= self.roots_in(a)
            return r
        if isinstance(v, Obj):
            r = set()
            for x in v.a.values():
                if not isinstance(x, (ExprRef, str, int, list)):
                    r |= self.roots_in(x)
            return r
        return set()

    def call_fn(self, fn, args, st, e=None):
        """call of a callable value"""
        if isinstance(fn, (FuncRef, Handler)):
            return self.call_target(fn, args, st, e)
        if isinstance(fn, Ptr):
            raise Unsupported('call through an opaque function pointer')
        if isinstance(fn, ExprRef):
            raise Unsupported('call through an opaque callable')
        if not isinstance(fn, Fn):
            raise Unsupported('call of %s' % type(fn).__name__)
        items = []
        for g, x in fn.alts:
            s = st.fork(g)
            if not is_true(g) and not self.feasible(s):
                continue
            if x is None:
                self.oblige(s, FALSE, 'callable not empty', (e or {}).get('l', 0))
                continue
            try:
                items.append((s, self.call_target(x, args, s, e)))
            except Dead:
                pass
        if not items:
            raise Dead()
        m, v = self.merge(items)
        st.assign(m)
        return v

    def call_target(self, x, args, st, e=None):
        if isinstance(x, Closure):
            env = {}
            for i, byref, c in x.caps:
                env[i] = c if byref else self.temp(c, st, 'cap')
            f = x.f
            if isinstance(f, tuple):
                want = (e or {}).get('f', {}).get('id')
                if want in f:
                    f = want
                else:
                    sig = {tuple(self.p.cs(self.p.deref(p['t'])) for p in self.p.funcs[i]['params'])
                           for i in f}
                    if len(sig) != 1:
                        raise Unsupported('generic lambda with %d instantiations' % len(sig))
                    f = f[0]
            return self.inline(f, x.this, args, st, env)
        if isinstance(x, FuncRef):
            d = self.p.funcs[x.id]
            h = self.handlers.get('&' + d['q'])
            if h:
                return h(self, st, args)
            if d.get('body') is not None:
                return self.inline(x.id, x.this, args, st)
            raise Unsupported('call of %s by pointer' % d['q'])
        if isinstance(x, Bound):
            real = []
            for a in x.args:
                if isinstance(a, Obj) and a.kind == 'placeholder':
                    real.append(args[a.a['n'] - 1])
                else:
                    real.append(a)
            return self.call_fn(x.fn, real, st, e)
        if isinstance(x, Handler):
            return x.fn(self, st, args)
        raise Unsupported('call of ' + type(x).__name__)

    def construct(self, e, st):
        t = self.p.deref(e['t'])
        f = e['f']
        q = f['q']
        n = self.p.rec(t)
        h = self.handlers.get(q)
        if h is not None:
            return h(self, st, e, e['args'])
        if e.get('copy') or e.get('move'):
            d = self.p.funcs.get(f['id'])
            if d is None or d.get('body') is None or d.get('implicit') or d.get('defaulted') or \
                    (n or '').startswith('std::'):
                return self.copy_from(e['args'][0], st, e.get('move'))
        if n and n.startswith('std::') and n not in PLAIN:
            if not e['args'] or all(a['k'] == 'CXXDefaultArgExpr' for a in e['args']):
                return self.default(t, st)
            raise Unsupported('construction of %s' % self.p.cs(t)[:80])
        d = self.p.funcs.get(f['id'])
        if not e['args'] and (d is None or d.get('implicit') or d.get('defaulted') or
                              d.get('body') is None):
            if e.get('zero') or e.get('list'):
                return self.zero_default(t, st)
            return self.default(t, st)
        if d is None or d.get('body') is None:
            raise Unsupported('constructor %s' % q)
        return self.run_ctor(f['id'], t, [self.actual(a, st) for a in e['args']], st)

    def zero_default(self, t, st):
        z = self.zero(t)
        if isinstance(z, SV):
            g = dict(z.f)
            for fd in self.rec_fields(t):
                if fd.get('init') is not None:
                    g[fd['n']] = self.ev(fd['init'], st)
            return SV(z.n, z.t, g)
        return z

    def run_ctor(self, fid, t, acts, st):
        d = self.p.funcs[fid]
        obj = self.default(t, st)
        this = self.temp(obj, st, 'obj')
        self.used[d['q']] = self.used.get(d['q'], 0) + 1
        fr = Frame(fid, this, d['q'])
        for p, a in zip(d['params'], acts):
            if self.p.is_ref(p['t']):
                fr.env[p['id']] = a if isinstance(a, LV) else self.temp(a, st, p['n'])
            else:
                v = self.load(a, st) if isinstance(a, LV) else a
                fr.env[p['id']] = self.temp(v, st, p['n'])
        self.frames.append(fr)
        self.call_stack.append(d['q'])
        fr.scopes.append([])
        fr.temps.append([])
        try:
            for i in d.get('inits', []):
                if i.get('deleg') or i.get('base'):
                    raise Unsupported('delegating constructor')
                if i.get('e') is not None:
                    v = self.val(i['e'], st)
                    self.poke(this.sub(('f', i['m'])), v, st)
            outs = self.exec_body(d['body'], st.fork())
        finally:
            self.frames.pop()
            self.call_stack.pop()
        m, _ = self.merge([(o.st, None) for o in outs])
        st.assign(m)
        root = this.alts[0][1]
        return st.store.pop(root)

    def copy_from(self, a, st, move=False):
        if not self.glv(a):
            return self.ev(a, st)
        l = self.lv(a, st)
        v = self.load(l, st, a.get('l', 0))
        if move:
            self.moved(l, v, st)
        else:
            self.check_copy(v, st)
        return v

    def check_copy(self, v, st):
        if isinstance(v, SV):
            for x in v.f.values():
                if isinstance(x, Own) and not is_true(x.null) and not self.valid(st, x.null):
                    raise Unsupported('copy of a structure owning a buffer')
                if isinstance(x, SV):
                    self.check_copy(x, st)

    def moved(self, l, v, st):
        """source of a move: valid but unspecified"""
        if isinstance(v, SV) and v.n == 'std::unique_ptr':
            self.poke(l, v.with_('p', NULLP), st)
        elif isinstance(v, (Seq, CSeq)):
            ety = v.ety
            self.poke(l, Seq(ety, self.fresh_int('moved.ln', 0, 1 << 60),
                             self.fresh('moved.arr', ArraySort(IntSort(), self.sort(ety)))), st)
        elif isinstance(v, ExprRef) and v.sort().eq(self.Str):
            self.poke(l, self.fresh('moved', self.Str), st)
        elif isinstance(v, (Map, CMap)):
            self.poke(l, self.fresh_map(v.t, 'moved'), st)
        elif isinstance(v, SV) and v.n and not v.n.startswith('std::'):
            for k, x in v.f.items():
                if not isinstance(x, Own):
                    self.moved(l.sub(('f', k)), x, st)

    # ---------------------------------------------------------------- destructors
    def needs_dtor(self, v):
        if isinstance(v, Obj) and v.kind in ('lock', 'scope_exit'):
            return True
        if isinstance(v, SV):
            if v.n == 'std::unique_ptr':
                return True
        return False

    def destroy(self, root, st):
        v = st.store[root]
        if isinstance(v, Obj) and v.kind == 'lock':
            self.unlock(v, st)
        elif isinstance(v, Obj) and v.kind == 'scope_exit':
            a = v.a['active']
            if not is_false(a):
                s1 = st.fork(a)
                items = []
                if self.feasible(s1):
                    try:
                        self.call_fn(v.a['fn'], [], s1)
                        items.append((s1, None))
                    except Dead:
                        pass
                if not is_true(a):
                    items.append((st.fork(bnot(a)), None))
                if not items:
                    raise Dead()
                m, _ = self.merge(items)
                st.assign(m)
        elif isinstance(v, SV) and v.n == 'std::unique_ptr':
            self.uptr_reset(v, st)
        st.store.pop(root, None)

    def uptr_reset(self, v, st):
        isn = self.is_null(v.f['p'])
        if is_true(isn):
            return
        items = []
        s1 = st.fork(bnot(isn))
        if self.feasible(s1):
            p = v.f['p']
            if isinstance(p, Ptr):
                alts = [(g, x) for g, x in p.alts if x is not None]
                if len(alts) == 1:
                    alts = [(TRUE, alts[0][1])]
                p = Ptr(alts)
            try:
                self.call_fn(v.f['d'], [p], s1)
                items.append((s1, None))
            except Dead:
                pass
        if not is_false(isn):
            items.append((st.fork(isn), None))
        if not items:
            raise Dead()
        m, _ = self.merge(items)
        st.assign(m)

    # locks: value of a mutex is Obj('mutex', held, epoch)
    def lock(self, mlv, st, line=0):
        m = self.peek(mlv, st)
        self.oblige(st, bnot(m.a['held']), 'lock not already held', line, kind='lock')
        self.poke(mlv, m.with_(held=TRUE, epoch=iadd(m.a['epoch'], IntVal(1))), st)

    def unlock(self, v, st):
        held = v.a['held']
        m = self.peek(v.a['lv'], st)
        if is_true(held):
            self.poke(v.a['lv'], m.with_(held=FALSE), st)
        elif not is_false(held):
            self.poke(v.a['lv'], m.with_(held=bif(held, FALSE, m.a['held'])), st)

    # ---------------------------------------------------------------- statements
    def exec_body(self, s, st):
        return self.ex(s, st)

    def ex(self, s, st):
        if s is None:
            return [Out('norm', st)]
        m = getattr(self, 'ex_' + s['k'], None)
        if m is None:
            if 'vk' in s or s['k'] == 'Cleanups':
                try:
                    self.discard(s, st)
                except Dead:
                    return []
                return [Out('norm', st)]
            raise Unsupported('statement %s at line %s' % (s['k'], s.get('l')))
        try:
            return m(s, st)
        except Dead:
            return []

    def ex_NullStmt(self, s, st):
        return [Out('norm', st)]

    def seq_stmts(self, stmts, st):
        """run a statement list with forward goto"""
        outs = []
        cur = st
        pend = []   # goto outcomes waiting for a later label
        for i, s in enumerate(stmts):
            lab = s
            labels = []
            while lab and lab['k'] == 'LabelStmt':
                labels.append(lab['label'])
                lab = lab['sub']
            if labels:
                take = [p for p in pend if p.label in labels]
                pend = [p for p in pend if p.label not in labels]
                items = ([(cur, None)] if cur is not None else []) + [(p.st, None) for p in take]
                if items:
                    cur = self.merge(items)[0]
            if cur is None:
                # labels nested deeper are not entered from outside
                continue
            res = self.ex(lab if labels else s, cur)
            cur = None
            norm = []
            for o in res:
                if o.k == 'norm':
                    norm.append((o.st, None))
                elif o.k == 'goto':
                    pend.append(o)
                else:
                    outs.append(o)
            if norm:
                cur = self.merge(norm)[0]
        if cur is not None:
            outs.append(Out('norm', cur))
        return outs + pend

    def ex_LabelStmt(self, s, st):
        return self.ex(s['sub'], st)

    def ex_CompoundStmt(self, s, st):
        self.fr.scopes.append([])
        outs = self.seq_stmts(s['c'], st)
        return self.leave(outs)

    def leave(self, outs):
        sc = self.fr.scopes.pop()
        if not sc:
            return outs
        res = []
        for o in outs:
            try:
                for root in reversed(sc):
                    if root in o.st.store and self.needs_dtor(o.st.store[root]):
                        self.destroy(root, o.st)
                res.append(o)
            except Dead:
                pass
        return res

    def ex_DeclStmt(self, s, st):
        for d in s['d']:
            self.declare(d, st)
        return [Out('norm', st)]

    def declare(self, d, st):
        t = d['t']
        if d.get('static') and not self.T(t).get('const') and not d.get('constexpr'):
            raise Unsupported('mutable static local ' + d['n'])
        if self.p.is_ref(t):
            l = self.with_temps_ext(d, st)
            self.fr.env[d['id']] = l
        else:
            v = None
            if d.get('init') is not None:
                v = self.ev_init(d['init'], t, st)
            else:
                v = self.default(t, st)
            r = self.newroot(d['n'] or 'anon', v, st)
            T = self.T(t)
            x = d.get('init')
            if T['k'] == 'array' and x is not None and x['k'] == 'StringLiteral' and \
                    (T.get('const') or d.get('constexpr') or self.T(T['of']).get('const')):
                self.const_lits[r] = bytes(c & 255 for c in x['v']).decode('latin1')
            self.fr.env[d['id']] = LV([(TRUE, r, ())])
            if self.needs_dtor(v):
                self.fr.scopes[-1].append(r)
        if d.get('bindings'):
            base = self.fr.env[d['id']]
            for i, b in enumerate(d['bindings']):
                self.bind(base, i, b, st)

    def bind(self, base, i, b, st):
        v = self.peek(base, st)
        if isinstance(v, SV):
            names = ['first', 'second'] if v.n == 'std::pair' else \
                [fd['n'] for fd in self.rec_fields(v.t)] if not v.n.startswith('std::') else \
                list(v.f)
            self.fr.env[b['id']] = base.sub(('f', names[i]))
            if b.get('hold'):
                self.fr.env[b['hold']['id']] = base.sub(('f', names[i]))
        else:
            raise Unsupported('structured binding')

    def with_temps_ext(self, d, st):
        e = d['init']
        return self.lv(e, st) if self.glv(e) else self.temp(self.ev(e, st), st, d['n'])

    def ev_init(self, e, t, st):
        v = self.val(e, st)
        if self.glv(e):
            self.check_copy(v, st)
        T = self.T(t)
        if T['k'] == 'array' and isinstance(v, Obj) and v.kind == 'strlit':
            xs = [IntVal(c) for c in v.a['v']] + [IntVal(0)] * (T['size'] - len(v.a['v']))
            return self.as_seq(CSeq(T['of'], xs))
        return v

    def ex_ReturnStmt(self, s, st):
        e = s.get('e')
        if e is None:
            return [Out('ret', st)]
        rt = self.p.funcs[self.fr.fid]['ret']
        if e['k'] == 'Cleanups' and not self.p.is_ref(rt):
            v = self.with_temps(lambda: self.ret_val(e['e'], rt, st), st)
        else:
            v = self.ret_val(e, rt, st)
        return [Out('ret', st, v)]

    def ret_val(self, e, rt, st):
        if self.p.is_ref(rt):
            return self.lv(e, st)
        return self.val(e, st) if self.p.cs(rt) != 'void' else self.discard(e, st)

    def ex_IfStmt(self, s, st):
        self.fr.scopes.append([])
        if s.get('init'):
            o = self.ex(s['init'], st)
            st = o[0].st
        if s.get('cv'):
            self.ex_DeclStmt(s['cv'], st)
        c = self.ev(s['cond'], st)
        outs = []
        if is_true(c):
            outs = self.ex(s['then'], st)
        elif is_false(c):
            outs = self.ex(s['else'], st) if s.get('else') else [Out('norm', st)]
        else:
            for g, b in ((c, s['then']), (bnot(c), s.get('else'))):
                s2 = st.fork(g)
                if not self.feasible(s2):
                    continue
                outs += self.ex(b, s2) if b else [Out('norm', s2)]
            outs = self.merge_outs(outs)
        return self.leave(outs)

    def merge_outs(self, outs):
        """merge outcomes of the same kind (and label)"""
        groups = {}
        for o in outs:
            groups.setdefault((o.k, o.label), []).append(o)
        res = []
        for (k, lab), os_ in groups.items():
            if len(os_) == 1 or k == 'ret' and any(isinstance(o.v, LV) for o in os_):
                res += os_
            else:
                st, v = self.merge([(o.st, o.v) for o in os_])
                res.append(Out(k, st, v, lab))
        return res

    def ex_GotoStmt(self, s, st):
        return [Out('goto', st, label=s['label'])]

    def ex_BreakStmt(self, s, st):
        return [Out('brk', st)]

    def ex_ContinueStmt(self, s, st):
        return [Out('cont', st)]

    def ex_SwitchStmt(self, s, st):
        self.fr.scopes.append([])
        if s.get('init'):
            st = self.ex(s['init'], st)[0].st
        v = self.ev(s['cond'], st)
        body = s['body']
        stmts = body['c'] if body['k'] == 'CompoundStmt' else [body]
        # flatten case labels
        flat = []
        for x in stmts:
            labs = []
            while x and x['k'] in ('CaseStmt', 'DefaultStmt'):
                labs.append(x)
                x = x['sub']
            flat.append((labs, x))
        conds = []
        allc = []
        for labs, x in flat:
            for l in labs:
                if l['k'] == 'CaseStmt':
                    if l.get('rhs'):
                        raise Unsupported('case range')
                    allc.append(teq(v, self.ev(l['lhs'], st)))
        for labs, x in flat:
            g = []
            for l in labs:
                if l['k'] == 'CaseStmt':
                    g.append(teq(v, self.ev(l['lhs'], st)))
                else:
                    g.append(bnot(bor(*allc)))
            conds.append(bor(*g))
        outs = []
        cur = None
        for (labs, x), g in zip(flat, conds):
            items = [(cur, None)] if cur is not None else []
            if labs and not is_false(g):
                s2 = st.fork(g)
                if self.feasible(s2):
                    items.append((s2, None))
            if not items:
                cur = None
                continue
            cur = self.merge(items)[0]
            norm = []
            for o in self.ex(x, cur):
                if o.k == 'norm':
                    norm.append((o.st, None))
                else:
                    outs.append(o)
            cur = self.merge(norm)[0] if norm else None
        res = []
        norm = [(cur, None)] if cur is not None else []
        if not any(l['k'] == 'DefaultStmt' for labs, x in flat for l in labs):
            s2 = st.fork(bnot(bor(*allc)))
            if self.feasible(s2):
                norm.append((s2, None))
        for o in outs:
            if o.k == 'brk':
                norm.append((o.st, None))
            else:
                res.append(o)
        if norm:
            res.append(Out('norm', self.merge(norm)[0]))
        return self.leave(res)

    def ex_CXXTryStmt(self, s, st):
        # library calls are taken not to throw, except where their contract says so
        return self.ex(s['try'], st)

    def ex_ForStmt(self, s, st):
        from . import loops
        self.fr.scopes.append([])
        if s.get('init'):
            o = self.ex(s['init'], st)
            if not o:
                self.fr.scopes.pop()
                return []
            st = o[0].st
        outs = loops.run(self, s, st, s.get('cv'), s.get('cond'), s.get('inc'), s['body'])
        return self.leave(outs)

    def ex_WhileStmt(self, s, st):
        from . import loops
        return loops.run(self, s, st, s.get('cv'), s['cond'], None, s['body'])

    def ex_DoStmt(self, s, st):
        c = s['cond']
        if c.get('cv') in ('0', 'false') or c['k'] == 'CXXBoolLiteralExpr' and not c['v']:
            outs = self.ex(s['body'], st)
            return self.merge_outs([Out('norm', o.st) if o.k in ('brk', 'cont') else o
                                    for o in outs])
        if c['k'] in ('ImplicitCastExpr',) and c['e'].get('v') == '0':
            outs = self.ex(s['body'], st)
            return self.merge_outs([Out('norm', o.st) if o.k in ('brk', 'cont') else o
                                    for o in outs])
        from . import loops
        return loops.run_do(self, s, st)

    def ex_CXXForRangeStmt(self, s, st):
        from . import loops
        self.fr.scopes.append([])
        if s.get('init'):
            st = self.ex(s['init'], st)[0].st
        self.ex_DeclStmt(s['rangevar'], st)
        self.ex_DeclStmt(s['begin'], st)
        self.ex_DeclStmt(s['end'], st)
        outs = loops.run(self, s, st, None, s['cond'], s['inc'], s['body'], s['var'])
        return self.leave(outs)
