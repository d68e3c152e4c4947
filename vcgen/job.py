"""One run of the verifier for one property: dumps the sources, runs the specification, discharges."""
import os
import pickle
import subprocess
import time
import traceback
from .terms import *  # noqa
from .interp import *  # noqa
from . import solve

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Obl:
    """verdict on one obligation"""

    def __init__(self, name, fn, line, kind, status, secs, detail):
        self.name, self.fn, self.line, self.kind = name, fn, line, kind
        self.status, self.secs, self.detail = status, secs, detail


class Result:
    def __init__(self):
        self.obls, self.unsupported, self.bounded, self.badcovers = [], [], [], []
        self.used, self.assumed, self.sources = {}, {}, set()
        self.covers = self.queries = 0
        self.qtime = 0.0

    def add(self, o):
        self.obls += o.obls
        self.unsupported += o.unsupported
        self.bounded += o.bounded
        self.badcovers += o.badcovers
        for q, n in o.used.items():
            self.used[q] = self.used.get(q, 0) + n
        self.assumed.update(o.assumed)
        self.sources |= o.sources
        self.covers += o.covers
        self.queries += o.queries
        self.qtime += o.qtime


class Job:
    def __init__(self, repo, out, opts=None):
        self.repo, self.out = repo, out
        self.progs = {}
        self.engs = []
        self.covers = []
        self.notes = []
        self.msgs = False
        self.sources = set()
        self.unsupported = []
        self.bounded = []
        self.cases = []
        self.timeout = 20
        self.verbose = False

    # ------------------------------------------------------------------ sources
    def prog(self, tu):
        if tu in self.progs:
            return self.progs[tu]
        src = os.path.join(self.repo, 'rmw_dds_common', 'src', tu + '.cpp')
        own = os.path.join(HERE, 'vcgen/tu', 'all_' + tu + '.cpp')
        if os.path.exists(own):
            src = own
        os.makedirs(self.out, exist_ok=True)
        gen = os.path.join(self.out, 'gen')
        if not self.msgs:
            subprocess.run(['python3', os.path.join(HERE, 'tools/gen_msgs.py'), self.repo, gen],
                           check=True, stdout=subprocess.DEVNULL)
            self.msgs = True
        js = os.path.join(self.out, '%s-%d.json' % (tu, os.getpid()))
        env = dict(os.environ, ASTDUMP_ROOTS=self.repo.rstrip('/') + ':' + HERE + '/')
        with open(js, 'w') as f:
            r = subprocess.run([os.path.join(HERE, 'build/astdump'), src, '--', '-std=c++17',
                                '-DCXXVC_PARSE', '-I%s/rmw_dds_common/include' % self.repo,
                                '-I%s/rmw_dds_common/src' % self.repo,
                                '-I%s/stubs/include' % HERE, '-I' + gen],
                               stdout=f, stderr=subprocess.PIPE, text=True, env=env)
        if r.returncode != 0:
            raise Unsupported('cannot extract %s: %s' % (src, r.stderr[-2000:]))
        for u in {'graph_cache': ('gid_utils', 'graph_cache'), 'context': (
                'gid_utils', 'graph_cache', 'context')}.get(tu, (tu,)):
            self.sources.add('rmw_dds_common/src/%s.cpp' % u)
        self.progs[tu] = Prog(js)
        os.unlink(js)
        return self.progs[tu]

    def eng(self, tu, name='', **kw):
        E = Eng(self.prog(tu), **kw)
        E.name = name or tu
        E.tu = tu
        self.engs.append(E)
        return E

    def find(self, E, q, pred=None):
        """the function with qualified name q (and, if several, selected by pred(params))"""
        c = [i for i in E.p.by_q.get(q, []) if E.p.funcs[i].get('body') is not None]
        if pred is not None:
            c = [i for i in c if pred([E.p.cs(E.p.deref(x['t'])) if E.p.is_ref(x['t']) else
                                       E.p.cs(x['t']) for x in E.p.funcs[i]['params']])]
        if len(c) != 1:
            raise Unsupported('%d definitions of %s' % (len(c), q))
        return c[0]

    def cover(self, E, st, cond, name):
        """vacuity guard: this situation must remain possible under the contract's assumptions"""
        self.covers.append((E, list(st.pc) + [cond], name, len(E.facts)))

    def case(self, name, fn, *a):
        """one part of a specification, run in its own process; an unsupported construct only
        loses that part"""
        self.cases.append((name, fn, a))

    def attempt(self, name, fn, *a):
        try:
            fn(self, *a)
        except Unsupported as ex:
            self.unsupported.append('%s: %s' % (name, ex))
        except Dead:
            self.unsupported.append('%s: never returns' % name)
        except Exception:  # an internal limit of the generator, not a verdict
            if self.verbose:
                traceback.print_exc(limit=-7)
            self.unsupported.append('%s: verifier error: %s' % (
                name, traceback.format_exc(limit=-4)[-900:]))

    # ------------------------------------------------------------------ run
    def run(self, name, spec, tus, workers=8):
        """generates and discharges everything; returns a Result"""
        res = Result()
        try:
            if os.path.isdir(self.repo):
                for tu in tus:
                    self.prog(tu)
        except Unsupported as ex:
            res.unsupported.append(str(ex))
            return res
        self.attempt(name, spec)
        if not self.cases:
            return self.collect(res, workers)
        cases, self.cases = self.cases, []
        self.collect(res, workers)
        per = max(2, workers // len(cases))
        todo, running = list(enumerate(cases)), {}
        done = {}
        while todo or running:
            while todo and len(running) < workers:
                i, (n, fn, a) = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        self.engs, self.covers, self.unsupported = [], [], []
                        self.attempt(n, fn, *a)
                        out = self.collect(Result(), per)
                    except BaseException:  # noqa
                        out = Result()
                        out.unsupported.append('%s: verifier error: %s' % (
                            n, traceback.format_exc(limit=-4)[-900:]))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                    os._exit(0)
                os.close(w)
                running[r] = (i, n, pid)
            import select
            ready = select.select(list(running), [], [])[0]
            for r in ready:
                i, n, pid = running.pop(r)
                with os.fdopen(r, 'rb') as f:
                    data = f.read()
                os.waitpid(pid, 0)
                if data:
                    done[i] = pickle.loads(data)
                else:
                    done[i] = Result()
                    done[i].unsupported.append('%s: verifier process died' % n)
        for i in sorted(done):
            res.add(done[i])
        return res

    def collect(self, res, jobs):
        """discharges the obligations of this process's engines"""
        t0 = time.time()
        for E in self.engs:
            for o, (s, t, d) in zip(E.obls, solve.discharge_all(E, E.obls, self.timeout, jobs)):
                res.obls.append(Obl(o.name, o.fn or E.name, o.line, o.kind, s, t, d))
            res.queries += E.stats['queries']
            res.qtime += E.stats['qtime']
            for q, n in E.used.items():
                res.used[q] = res.used.get(q, 0) + n
            res.assumed.update(E.assumed)
        res.unsupported += self.unsupported
        res.bounded += self.bounded
        res.sources |= self.sources
        if not self.unsupported:
            n, bad = self.check_covers()
            res.covers += n
            res.badcovers += bad
        return res

    def check_covers(self):
        """covers refuted by the assumptions (must be empty)"""
        bad = []
        todo = [(E, [], 'assumptions of %s are consistent' % E.name, len(E.facts))
                for E in self.engs] + self.covers
        for E, conds, name, nf in todo:
            s = SimpleSolver()
            s.set('timeout', 1500)
            fs = E.facts[:nf] + E.lit_facts()
            if conds:
                fs = solve.relevant(fs, conds)
            s.add(*fs)
            s.add(*conds)
            if s.check() == unsat:
                bad.append(name)
        return len(todo), bad


def strip(fn):
    return fn
