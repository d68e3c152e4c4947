"""Sorts, program types and symbolic values of the verification-condition generator.

Machine integers are mathematical integers with explicit range facts; unsigned operations that
may leave their range get an explicit wrap, signed ones an obligation (see interp.py).
"""
import json
from z3 import *  # noqa

set_param('smt.random_seed', 0)


class Unsupported(Exception):
    """The current source uses a construct outside the verifier's reach."""


TRUE = BoolVal(True)
FALSE = BoolVal(False)


def is_t(b):
    return b is TRUE or is_true(b)


def is_f(b):
    return b is FALSE or is_false(b)


def bnot(a):
    if is_true(a):
        return FALSE
    if is_false(a):
        return TRUE
    if is_not(a):
        return a.arg(0)
    return Not(a)


def band(*xs):
    out = []
    seen = set()
    for x in xs:
        if is_false(x):
            return FALSE
        if is_true(x):
            continue
        if is_and(x):
            ys = x.children()
        else:
            ys = [x]
        for y in ys:
            i = y.get_id()
            if i not in seen:
                seen.add(i)
                out.append(y)
    for y in out:
        if bnot(y).get_id() in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return And(*out)


def bor(*xs):
    out = []
    seen = set()
    for x in xs:
        if is_true(x):
            return TRUE
        if is_false(x):
            continue
        ys = x.children() if is_or(x) else [x]
        for y in ys:
            i = y.get_id()
            if i not in seen:
                seen.add(i)
                out.append(y)
    for y in out:
        if bnot(y).get_id() in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Or(*out)


def bimp(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return TRUE
    return Implies(a, b)


def bif(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if is_bool(a):
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return bnot(c)
        if is_true(a):
            return bor(c, b)
        if is_false(a):
            return band(bnot(c), b)
        if is_true(b):
            return bor(bnot(c), a)
        if is_false(b):
            return band(c, a)
    if is_not(c):
        return bif(c.arg(0), b, a)
    # If(c, If(c, x, y), b) -> If(c, x, b)
    if is_app_of(a, Z3_OP_ITE) and a.arg(0).eq(c):
        a = a.arg(1)
    if is_app_of(b, Z3_OP_ITE) and b.arg(0).eq(c):
        b = b.arg(2)
    if a.eq(b):
        return a
    return If(c, a, b)


def ival(x):
    """python int of a constant Int term, or None"""
    if is_int_value(x):
        return x.as_long()
    return None


def mkint(x):
    return IntVal(x) if isinstance(x, int) else x


def iadd(a, b):
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return IntVal(x + y)
    if x == 0:
        return b
    if y == 0:
        return a
    if y is not None and is_add(a) and a.num_args() == 2 and ival(a.arg(1)) is not None:
        return iadd(a.arg(0), IntVal(ival(a.arg(1)) + y))
    return a + b


def isub(a, b):
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return IntVal(x - y)
    if y is not None:
        return iadd(a, IntVal(-y))
    if a.eq(b):
        return IntVal(0)
    return a - b


def ile(a, b):
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return BoolVal(x <= y)
    if a.eq(b):
        return TRUE
    return a <= b


def ilt(a, b):
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return BoolVal(x < y)
    if a.eq(b):
        return FALSE
    return a < b


def is_lit(x):
    return is_const(x) and x.decl().kind() == Z3_OP_UNINTERPRETED and \
        x.decl().name().startswith('lit$')


def teq(a, b):
    if a.eq(b):
        return TRUE
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return BoolVal(x == y)
    if is_bool(a):
        if is_true(a):
            return b
        if is_true(b):
            return a
        if is_false(a):
            return bnot(b)
        if is_false(b):
            return bnot(a)
    if is_string_value(a) and is_string_value(b):
        return BoolVal(a.as_string() == b.as_string())
    if is_lit(a) and is_lit(b):
        return FALSE
    if is_app_of(a, Z3_OP_ITE) and (a.arg(1).eq(b) or a.arg(2).eq(b)) and \
            ival(a.arg(1)) is not None and ival(a.arg(2)) is not None:
        if ival(a.arg(1)) != ival(a.arg(2)):
            return a.arg(0) if a.arg(1).eq(b) else bnot(a.arg(0))
    return a == b


_selmemo = {}


def sel(arr, i):
    """select with read-over-write, read-over-ite and beta reduction"""
    while True:
        if is_app_of(arr, Z3_OP_STORE):
            j = arr.arg(1)
            if j.eq(i):
                return arr.arg(2)
            c = teq(j, i)
            if is_true(c):
                return arr.arg(2)
            if is_false(c):
                arr = arr.arg(0)
                continue
            key = (arr.get_id(), i.get_id())
            r = _selmemo.get(key)
            if r is None:
                r = (bif(c, arr.arg(2), sel(arr.arg(0), i)), arr, i)
                _selmemo[key] = r
            return r[0]
        if is_app_of(arr, Z3_OP_ITE):
            key = (arr.get_id(), i.get_id())
            r = _selmemo.get(key)
            if r is None:
                r = (bif(arr.arg(0), sel(arr.arg(1), i), sel(arr.arg(2), i)), arr, i)
                _selmemo[key] = r
            return r[0]
        if is_app_of(arr, Z3_OP_CONST_ARRAY):
            return arr.arg(0)
        if is_quantifier(arr) and arr.is_lambda():
            return substitute_vars(arr.body(), i)
        return Select(arr, i)


# ------------------------------------------------------------------------------------------------
class Prog:
    """one dumped translation unit"""

    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = {int(k): v for k, v in d['funcs'].items()}
        self.types = {int(k): v for k, v in d['types'].items()}
        self.records = {int(k): v for k, v in d['records'].items()}
        self.globals = {int(k): v for k, v in d['globals'].items()}
        self.by_q = {}
        for i, f in self.funcs.items():
            self.by_q.setdefault(f['q'], []).append(i)
        self.by_s = {}
        for i, t in self.types.items():
            self.by_s.setdefault(self.cs(i), i)
        self.rec_t = {r['n']: r['t'] for r in self.records.values()}
        self.roles(d)

    def roles(self, d):
        """The contracts speak of the private state of the graph cache by role (the writers, the
        readers, the participants, the callback, the mutex).  The role of a field follows from its
        type - and, for the two maps of endpoints, from its name, else from the order of
        declaration - so that the contracts do not depend on what the private fields are called."""
        for r in self.records.values():
            if r['n'] == 'rmw_dds_common::GraphCache' and 'fields' in r:
                break
        else:
            return
        want, ends = {}, []
        for f in r['fields']:
            s = self.types[f['t']]['s'] + ' ' + self.cs(self.deref(f['t']))
            if 'mutex' in s:
                want.setdefault('mutex_', []).append(f)
            elif 'ParticipantInfo' in s:
                want.setdefault('participants_', []).append(f)
            elif 'EntityInfo' in s:
                ends.append(f)
            elif 'function<' in s:
                want.setdefault('on_change_callback_', []).append(f)
        if len(ends) == 2:
            a, b = ends
            low = [x['n'].lower() for x in ends]
            if ('reader' in low[0] or 'sub' in low[0]) and 'reader' not in low[1]:
                a, b = b, a
            want['data_writers_'], want['data_readers_'] = [a], [b]
        names = {fs[0]['id']: n for n, fs in want.items() if len(fs) == 1 and fs[0]['n'] != n}
        taken = {f['n'] for f in r['fields'] if f['id'] not in names}
        names = {i: n for i, n in names.items() if n not in taken}
        if not names:
            return
        for f in r['fields']:
            f['n'] = names.get(f['id'], f['n'])
        todo = [d]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                dd = x.get('d')
                if isinstance(dd, dict) and dd.get('dk') == 'Field' and dd.get('id') in names:
                    dd['n'] = names[dd['id']]
                    if 'm' in x:
                        x['m'] = dd['n']
                if x.get('fid') in names and 'm' in x:
                    x['m'] = names[x['fid']]
                todo += x.values()
            elif isinstance(x, list):
                todo += x

    def T(self, t):
        return self.types[t]

    def cs(self, t):
        """canonical unqualified type string"""
        s = self.types[t]['s']
        if self.types[t]['k'] in ('ptr',):
            while s.endswith(' const') or s.endswith('*const'):
                s = s[:-5].rstrip()
            return s
        if s.startswith('const '):
            s = s[6:]
        return s

    def deref(self, t):
        T = self.types[t]
        while T['k'] in ('lref', 'rref'):
            t = T['to']
            T = self.types[t]
        return t

    def tid(self, s):
        return self.by_s[s]

    def is_ref(self, t):
        return self.types[t]['k'] in ('lref', 'rref')

    def rec(self, t):
        T = self.types[self.deref(t)]
        return T['n'] if T['k'] == 'record' else None


INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True),
    'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
    'long long': (64, True), 'unsigned long long': (64, False), 'wchar_t': (32, True),
}


class SV:
    """struct value"""
    __slots__ = ('n', 't', 'f')

    def __init__(self, n, t, f):
        self.n = n
        self.t = t
        self.f = f

    def __repr__(self):
        return 'SV(%s,%r)' % (self.n, self.f)

    def with_(self, k, v):
        g = dict(self.f)
        g[k] = v
        return SV(self.n, self.t, g)


class Seq:
    """vector / char buffer: (element type, length, Array Int->elem)"""
    __slots__ = ('ety', 'ln', 'arr')

    def __init__(self, ety, ln, arr):
        self.ety, self.ln, self.arr = ety, ln, arr


class CSeq:
    """sequence of concretely known length"""
    __slots__ = ('ety', 'items')

    def __init__(self, ety, items):
        self.ety, self.items = ety, tuple(items)


class Own:
    """pointer field that owns a buffer (null flag, length, contents)"""
    __slots__ = ('ety', 'null', 'ln', 'arr')

    def __init__(self, ety, null, ln, arr):
        self.ety, self.null, self.ln, self.arr = ety, null, ln, arr


class Arr:
    """fixed array of bytes: either one opaque term or a list of Int terms"""
    __slots__ = ('n', 'term', 'items')

    def __init__(self, n, term=None, items=None):
        self.n, self.term, self.items = n, term, (tuple(items) if items is not None else None)


class Map:
    __slots__ = ('t', 'kty', 'vty', 'dom', 'val')

    def __init__(self, t, kty, vty, dom, val):
        self.t, self.kty, self.vty, self.dom, self.val = t, kty, vty, dom, val


class CMap:
    """map with concretely known keys"""
    __slots__ = ('t', 'kty', 'vty', 'items')

    def __init__(self, t, kty, vty, items):
        self.t, self.kty, self.vty, self.items = t, kty, vty, tuple(items)


class SetV:
    __slots__ = ('t', 'kty', 'dom')

    def __init__(self, t, kty, dom):
        self.t, self.kty, self.dom = t, kty, dom


class LV:
    """lvalue: guarded alternatives (guard, root, path)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def sub(self, *el):
        return LV([(g, r, p + tuple(el)) for g, r, p in self.alts])

    def key(self):
        return tuple((g.get_id(), r, pkey(p)) for g, r, p in self.alts)

    def __repr__(self):
        return 'LV(%r)' % (self.alts,)


def pkey(p):
    return tuple((a, b if isinstance(b, str) else ('T', b.get_id()) if isinstance(b, ExprRef)
                  else b) for a, b in p)


class Ptr:
    """pointer: guarded targets (guard, target); target None | LV alt (root, path) |
    ('cstr', term) | ('opq', term)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'Ptr(%r)' % (self.alts,)


NULLP = Ptr([(TRUE, None)])


def lvptr(lv):
    return Ptr([(g, ('lv', r, p)) for g, r, p in lv.alts])


class Fn:
    """callable: guarded targets; target None (empty) or a target object"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)


class Closure:
    __slots__ = ('rid', 'f', 'caps', 'this', 'eng')

    def __init__(self, rid, f, caps, this):
        self.rid, self.f, self.caps, self.this = rid, f, caps, this


class FuncRef:
    __slots__ = ('id', 'this')

    def __init__(self, i, this=None):
        self.id = i
        self.this = this


class Bound:
    __slots__ = ('fn', 'args')

    def __init__(self, fn, args):
        self.fn, self.args = fn, args


class Handler:
    """an opaque callable of the environment, behaviour given by its contract"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class VecIt:
    __slots__ = ('lv', 'idx')

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx


class MapIt:
    """iterator into a map/set: end flag and key term"""
    __slots__ = ('lv', 'end', 'key')

    def __init__(self, lv, end, key):
        self.lv, self.end, self.key = lv, end, key


class Obj:
    """opaque library object with a few Python-level attributes"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, **a):
        self.kind, self.a = kind, a

    def with_(self, **a):
        b = dict(self.a)
        b.update(a)
        return Obj(self.kind, **b)


class Conflict:
    """unmergeable value; only an error if used"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why
