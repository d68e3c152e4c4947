"""Contracts of <filesystem> and <fstream> as seen by security.cpp.

The file system is an arbitrary but fixed environment: uninterpreted predicates and functions of a
path.  Nothing is assumed about them beyond the facts stated here."""
from .terms import *  # noqa
from .interp import *  # noqa
from . import stdlib
from .stdlib import s_of, sarg


class FS:
    def __init__(self, E):
        self.E = E
        S = E.Str
        self.Path = DeclareSort('Path')
        P = self.Path
        B = BoolSort()
        self.pathof = Function('path', S, P)
        self.join = Function('join', P, P, P)
        self.gstr = Function('generic_string', P, S)
        self.nstr = Function('native_string', P, S)
        self.isreg = Function('is_regular_file', P, B)
        self.exists = Function('exists', P, B)
        self.isdir = Function('is_directory', P, B)
        self.line = Function('line', P, IntSort(), S)
        self.err = Function('status_error', P, B)
        self.opens = Function('opens', P, B)
        self.hastok = Function('has_token', P, IntSort(), B)
        self.tok = Function('token', P, IntSort(), S)
        for n in ('std::filesystem::path', 'std::filesystem::__cxx11::path'):
            if n in E.p.rec_t:
                E.sorts[E.p.cs(E.p.rec_t[n])] = P

    def examined(self, p):
        E = self.E
        E.fact(bimp(self.err(p), band(bnot(self.isreg(p)), bnot(self.exists(p)))))
        E.fact(bimp(self.isreg(p), self.exists(p)))
        E.fact(bimp(self.isdir(p), band(self.exists(p), bnot(self.isreg(p)), bnot(self.err(p)))))


def as_path(E, v, st, line=0):
    if isinstance(v, ExprRef) and v.sort().eq(E.fs.Path):
        return v
    return E.fs.pathof(s_of(E, v, st, line))


def parg(E, a, st):
    return as_path(E, E.val(a, st), st, a.get('l', 0))


T = {}


def H(*ns):
    def d(f):
        for n in ns:
            T[n] = f
            T[n.replace('std::filesystem::', 'std::filesystem::__cxx11::')] = f
        return f
    return d


def real(args):
    return [a for a in args if a['k'] != 'CXXDefaultArgExpr']


@H('std::filesystem::path::(ctor)')
def ctor(E, st, e, args):
    a = real(args)
    if not a:
        return E.fs.pathof(E.strlit(''))
    if len(a) > 1:
        raise Unsupported('path constructor')
    return parg(E, a[0], st)


@H('std::filesystem::path::operator/=', 'std::filesystem::path::append')
def append(E, st, e, args):
    l = E.obj_lv(e, st)
    if len(real(args)) != 1:
        raise Unsupported('path append')
    v = E.load(l, st)
    E.store(l, E.fs.join(v, parg(E, args[0], st)), st, e.get('l', 0))
    return l


@H('std::filesystem::operator/')
def slash(E, st, e, args):
    return E.fs.join(parg(E, args[0], st), parg(E, args[1], st))


@H('std::filesystem::path::operator=', 'std::filesystem::path::assign')
def assign(E, st, e, args):
    l = E.obj_lv(e, st)
    E.store(l, parg(E, args[0], st), st, e.get('l', 0))
    return l


@H('std::filesystem::path::generic_string', 'std::filesystem::path::generic_u8string')
def gstr(E, st, e, args):
    return E.fs.gstr(E.load(E.obj_lv(e, st), st))


@H('std::filesystem::path::string', 'std::filesystem::path::native',
   'std::filesystem::path::operator basic_string', 'std::filesystem::path::(conv)')
def nstr(E, st, e, args):
    return E.fs.nstr(E.load(E.obj_lv(e, st), st))


@H('std::filesystem::path::c_str')
def pcstr(E, st, e, args):
    return E.cstr(E.fs.nstr(E.load(E.obj_lv(e, st), st)))


def query(E, st, e, args, what):
    """status query of a path, throwing or with an error_code"""
    v = E.val(args[0], st)
    if isinstance(v, Obj) and v.kind == 'file_status':
        p = v.a['p']
        return getattr(E.fs, what)(p)
    p = as_path(E, v, st, e.get('l', 0))
    E.fs.examined(p)
    a = real(args)
    if len(a) > 1:
        l = E.lv(a[1], st)
        E.store(l, Obj('error_code', set=E.fs.err(p)), st, e.get('l', 0))
    else:
        E.oblige(st, bnot(E.fs.err(p)), 'examining the path cannot throw', e.get('l', 0),
                 kind='throw')
    if what == 'status':
        return Obj('file_status', p=p)
    return getattr(E.fs, what)(p)


@H('std::filesystem::is_directory')
def is_dir(E, st, e, args):
    return query(E, st, e, args, 'isdir')


@H('std::filesystem::is_regular_file')
def is_reg(E, st, e, args):
    return query(E, st, e, args, 'isreg')


@H('std::filesystem::exists')
def exists(E, st, e, args):
    return query(E, st, e, args, 'exists')


@H('std::filesystem::status')
def status(E, st, e, args):
    return query(E, st, e, args, 'status')


@H('std::error_code::(ctor)')
def ecctor(E, st, e, args):
    if real(args):
        return E.copy_from(args[0], st, e.get('move'))
    return Obj('error_code', set=FALSE)


@H('std::error_code::(conv)', 'std::error_code::operator bool')
def ecconv(E, st, e, args):
    return E.load(E.obj_lv(e, st), st).a['set']


@H('std::error_code::clear')
def ecclear(E, st, e, args):
    E.store(E.obj_lv(e, st), Obj('error_code', set=FALSE), st)


@H('std::basic_ifstream::(ctor)')
def ifctor(E, st, e, args):
    a = real(args)
    if not a:
        return Obj('ifstream', p=E.fs.pathof(E.strlit('')), pos=IntVal(0), open=FALSE, ok=TRUE)
    if len(a) > 1 and a[1].get('cv') not in (None, '8'):
        raise Unsupported('ifstream open mode')
    p = parg(E, a[0], st)
    o = E.fs.opens(p)
    return Obj('ifstream', p=p, pos=IntVal(0), open=o, ok=o)


@H('std::basic_ifstream::open')
def ifopen(E, st, e, args):
    l = E.obj_lv(e, st)
    v = E.load(l, st)
    p = parg(E, args[0], st)
    if not is_f(v.a['open']):
        raise Unsupported('reopening a stream')
    o = E.fs.opens(p)
    E.store(l, Obj('ifstream', p=p, pos=IntVal(0), open=o, ok=o), st)


@H('std::basic_ifstream::is_open')
def is_open(E, st, e, args):
    return E.load(E.obj_lv(e, st), st).a['open']


@H('std::basic_ifstream::close')
def close(E, st, e, args):
    l = E.obj_lv(e, st)
    E.store(l, E.load(l, st).with_(open=FALSE, ok=FALSE), st)


@H('std::basic_ios::operator!', 'std::basic_ios::fail')
def ios_not(E, st, e, args):
    return bnot(E.load(E.obj_lv(e, st), st).a['ok'])


@H('std::basic_ios::(conv)', 'std::basic_ios::operator bool')
def ios_bool(E, st, e, args):
    return E.load(E.obj_lv(e, st), st).a['ok']


@H('std::operator>>')
def extract(E, st, e, args):
    l = E.lv(args[0], st)
    s = E.lv(args[1], st)
    v = E.load(l, st)
    if not (isinstance(v, Obj) and v.kind == 'ifstream') or \
            E.p.rec(args[1]['t']) != 'std::basic_string':
        raise Unsupported('stream extraction')
    ok = band(v.a['ok'], E.fs.hastok(v.a['p'], v.a['pos']))
    t = E.fs.tok(v.a['p'], v.a['pos'])
    old = E.load(s, st)
    # extraction that fails leaves the string empty or untouched
    e1 = E.fresh('extract', BoolSort())
    E.store(s, bif(ok, t, bif(e1, E.strlit(''), old)), st, e.get('l', 0))
    E.store(l, v.with_(pos=iadd(v.a['pos'], IntVal(1)), ok=ok), st, e.get('l', 0))
    return l


@H('std::getline')
def getline(E, st, e, args):
    """a line is some string: nothing relates it to the tokens of the file"""
    l = E.lv(args[0], st)
    s = E.lv(args[1], st)
    v = E.load(l, st)
    if len(real(args)) != 2 or not (isinstance(v, Obj) and v.kind == 'ifstream'):
        raise Unsupported('std::getline')
    ok = band(v.a['ok'], E.fresh('getline', BoolSort()))
    pos = E.fresh('pos', IntSort())
    E.fact(pos >= v.a['pos'])
    E.store(s, bif(ok, E.fs.line(v.a['p'], v.a['pos']), E.fresh('line', E.Str)), st, e.get('l', 0))
    E.store(l, v.with_(pos=pos, ok=ok), st, e.get('l', 0))
    return l


def install(E):
    E.fs = FS(E)
    E.handlers.update(T)
    E.assumed['std::filesystem / std::ifstream'] = (
        'status queries and streams are functions of the path (the file system does not change '
        'during the call); a path whose status cannot be determined is not a regular file')
