"""Discharging proof obligations with z3 (and, in the thorough tier, cvc5 as a cross-check)."""
import os
import pickle
import time
from .terms import *  # noqa


def query(E, o):
    fs = E.facts[:o.nf]
    return fs + E.lit_facts() + list(o.pc) + [bnot(o.goal)]


def relevant(fs, roots):
    """facts connected to the goal through shared symbols"""
    syms = [symbols(f) for f in fs]
    want = set()
    for r in roots:
        want |= symbols(r)
    keep = [False] * len(fs)
    changed = True
    while changed:
        changed = False
        for i, f in enumerate(fs):
            if not keep[i] and (syms[i] & want or not syms[i]):
                keep[i] = True
                if not syms[i] <= want:
                    want |= syms[i]
                    changed = True
    return [f for i, f in enumerate(fs) if keep[i]]


_sym = {}


def symbols(t):
    i = t.get_id()
    if i in _sym:
        return _sym[i][1]
    out = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if is_quantifier(x):
            todo.append(x.body())
        elif is_app(x):
            d = x.decl()
            if d.kind() == Z3_OP_UNINTERPRETED:
                out.add(d.name() + '/' + str(d.arity()))
            todo += x.children()
    _sym[i] = (t, out)
    return out


def discharge1(E, o, timeout):
    """returns (status, seconds, detail)"""
    t0 = time.time()
    if is_true(o.goal):
        return 'proved', 0.0, 'trivial'
    fs = E.facts[:o.nf] + E.lit_facts()
    goal = list(o.pc) + [bnot(o.goal)]
    rel = relevant(fs, goal)
    for i, (cfg, tmo) in enumerate((({}, timeout * 0.3), ({'seed': 7}, timeout * 0.3),
                                    ({'tac': 1}, timeout * 0.4))):
        if cfg.get('tac'):
            s = Then('simplify', 'solve-eqs', 'smt').solver()
        else:
            s = SimpleSolver()
            if cfg.get('seed'):
                s.set('random_seed', cfg['seed'])
                s.set('phase_selection', 5)
        s.set('timeout', int(tmo * 1000))
        s.add(*rel)
        s.add(*goal)
        r = s.check()
        if r == unsat:
            return 'proved', time.time() - t0, 'z3'
        if r == sat:
            return 'failed', time.time() - t0, model_text(s.model())
    return 'unknown', time.time() - t0, 'z3 gave up: ' + s.reason_unknown()


def model_text(m, limit=60):
    out = []
    for d in m.decls()[:400]:
        if d.arity() == 0:
            v = str(m[d])
            if len(v) < 80:
                out.append('%s = %s' % (d.name(), v))
        if len(out) >= limit:
            break
    return '\n'.join(sorted(out))


def discharge_all(E, obls, timeout=20, jobs=8):
    """discharge in parallel with forked workers; returns list of (status, secs, detail)"""
    res = [None] * len(obls)
    todo = [i for i, o in enumerate(obls)]
    for i in list(todo):
        if is_true(obls[i].goal):
            res[i] = ('proved', 0.0, 'trivial')
            todo.remove(i)
    if not todo:
        return res
    jobs = max(1, min(jobs, (len(todo) + 3) // 4))
    pipes = []
    for w in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            for i in todo[w::jobs]:
                try:
                    x = discharge1(E, obls[i], timeout)
                except Exception as ex:  # noqa
                    x = ('unknown', 0.0, 'solver error: %s' % ex)
                out.append((i, x))
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(out, f)
            os._exit(0)
        os.close(wr)
        pipes.append((pid, r))
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            for i, x in pickle.loads(data):
                res[i] = x
    return [x if x is not None else ('unknown', 0.0, 'solver process died') for x in res]
