"""Contracts of security.cpp (C01, C02, C03)."""
from ..job import *  # noqa
from .. import fslib
from ..stdlib import concat, starts

F = 'rmw_dds_common::get_security_files'
# attribute -> (PKCS#11 file or None, regular file)
TABLE = {
    'IDENTITY_CA': ('identity_ca.cert.p11', 'identity_ca.cert.pem'),
    'CERTIFICATE': ('cert.p11', 'cert.pem'),
    'PRIVATE_KEY': ('key.p11', 'key.pem'),
    'PERMISSIONS_CA': ('permissions_ca.cert.p11', 'permissions_ca.cert.pem'),
    'GOVERNANCE': (None, 'governance.p7s'),
    'PERMISSIONS': (None, 'permissions.p7s'),
}
ASSUMPTIONS = {p: ['the argument strings and the result map do not alias (prefix and secure_root '
                   'are not references into the result map)'] for p in ('C01', 'C02', 'C03')}


def run(J, n):
    """symbolic execution of the overload with n parameters; spec functions of the environment"""
    E = J.eng('security', 'get_security_files/%d' % n, native_strings=False)
    E.trace = J.trace
    fslib.install(E)
    st = St()
    fid = J.find(E, F, lambda ps: len(ps) == n)
    d = E.p.funcs[fid]
    vals, acts = [], []
    for p in d['params']:
        t = p['t']
        v = E.fresh_val(E.p.deref(t), p['n'] or 'arg')
        l = E.temp(v, st, p['n'] or 'arg')
        vals.append(v)
        acts.append(l)
    if n == 4:
        sup = vals[0]
        vals2, acts2 = vals[1:], acts[1:]
    else:
        sup = FALSE
        vals2, acts2 = vals, acts
    prefix, root, m0 = vals2
    if not isinstance(m0, Map):
        raise Unsupported('result parameter is not a map')
    r = E.inline(fid, None, acts, st)
    m1 = E.as_map(E.peek(acts2[2], st))
    fs = E.fs
    base = fs.pathof(root)
    for f in set(x for p in TABLE.values() for x in p if x) | {'crl.pem'}:
        fs.examined(fs.join(base, fs.pathof(E.strlit(f))))

    def P(f):
        return fs.join(base, fs.pathof(E.strlit(f)))

    def p11ok(a):
        f = TABLE[a][0]
        if f is None:
            return FALSE
        return band(sup, fs.opens(P(f)), fs.hastok(P(f), IntVal(0)),
                    starts(E, fs.tok(P(f), IntVal(0)), E.strlit('pkcs11:')))

    def usable(a):
        return bor(p11ok(a), fs.isreg(P(TABLE[a][1])))

    def value(a):
        v = concat(E, prefix, fs.gstr(P(TABLE[a][1])))
        if TABLE[a][0] is None:
            return v
        return bif(p11ok(a), fs.tok(P(TABLE[a][0]), IntVal(0)), v)
    ok = band(*[usable(a) for a in TABLE])
    k = E.fresh('key', E.Str)
    for l, v, nm in zip(acts2, vals2, ('prefix', 'secure_root')):
        E.oblige(st, teq(E.peek(l, st), v), nm + ' unchanged', kind='frame')
    J.cover(E, st, ok, 'success possible')
    J.cover(E, st, bnot(ok), 'failure possible')
    J.cover(E, st, band(ok, fs.isreg(P('crl.pem'))), 'CRL possible')
    if n == 4:
        J.cover(E, st, band(ok, *[p11ok(a) for a in TABLE if TABLE[a][0]]),
                'all PKCS#11 possible')
    return E, st, r, m0, m1, ok, value, P, prefix, k


def c01(J):
    for n in (4, 3):
        J.case('overload with %d parameters' % n, c01n, n)


def c01n(J, n):
    E, st, r, m0, m1, ok, value, P, prefix, k = run(J, n)
    E.oblige(st, r == ok, 'returns true exactly when every attribute has a usable source',
             kind='post')
    for a in TABLE:
        E.oblige(st, bimp(ok, sel(m1.dom, E.strlit(a))), 'success: %s present' % a, kind='post')
    E.oblige(st, bimp(bnot(ok), bnot(sel(m1.dom, k))), 'failure: result map empty', kind='post')


def c02(J):
    for n in (4, 3):
        J.case('overload with %d parameters' % n, c02n, n)


def c02n(J, n):
    E, st, r, m0, m1, ok, value, P, prefix, k = run(J, n)
    for a in TABLE:
        E.oblige(st, bimp(r, sel(m1.val, E.strlit(a)) == value(a)),
                 'value of %s' % a, kind='post')


def c03(J):
    for n in (4, 3):
        J.case('overload with %d parameters' % n, c03n, n)


def c03n(J, n):
    E, st, r, m0, m1, ok, value, P, prefix, k = run(J, n)
    crl = E.strlit('CRL')
    isr = E.fs.isreg(P('crl.pem'))
    E.oblige(st, bimp(band(r, isr), sel(m1.dom, crl)), 'CRL present when regular', kind='post')
    E.oblige(st, bimp(band(r, isr), sel(m1.val, crl) == concat(E, prefix, E.fs.gstr(P('crl.pem')))),
             'CRL value', kind='post')
    E.oblige(st, bimp(band(r, bnot(isr)), teq(sel(m1.dom, crl), sel(m0.dom, crl))),
             'CRL not added without a regular file', kind='post')
    E.oblige(st, bimp(ok, r), 'CRL never prevents success', kind='post')
    other = band(*[k != E.strlit(a) for a in list(TABLE) + ['CRL']])
    E.oblige(st, bimp(band(r, other), sel(m1.dom, k) == sel(m0.dom, k)),
             'no other key added or removed', kind='frame')
    E.oblige(st, bimp(band(r, bor(other, band(k == crl, bnot(isr))), sel(m0.dom, k)),
                      sel(m1.val, k) == sel(m0.val, k)),
             'values of other keys kept', kind='frame')


SPECS = {'C01': c01, 'C02': c02, 'C03': c03}
