#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property: extracts the functions from the repository's current sources, generates the
proof obligations of their contracts and discharges them.  Exit 0: all discharged (or the function
is outside the verifier's reach and the bounded stand-in found nothing).  Exit 1 + VIOLATION line:
an obligation failed, or the real code fails on a concrete input."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

HARNESS = {}
for _p, _h in (('C01 C02 C03', 'security'), ('C04 C05 C06', 'small'),
               ('C07 C08 C09 C10 C11 C12 C13', 'qos'),
               ('C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24', 'graph'),
               ('C25 C26 C27', 'context')):
    for _x in _p.split():
        HARNESS[_x] = _h
SOURCES = {'security': ['security'], 'small': ['time_utils', 'gid_utils'],
           'qos': ['qos', 'time_utils'], 'graph': ['graph_cache', 'gid_utils'],
           'context': ['context', 'graph_cache', 'gid_utils'],
           'locks': ['context', 'graph_cache', 'gid_utils']}
TUS = {'security': ['security'], 'small': ['time_utils', 'gid_utils'], 'qos': ['qos'],
       'graph': ['graph_cache'], 'context': ['context', 'graph_cache']}


def compile_all(tus, flags, out):
    procs = []
    for i, t in enumerate(tus):
        o = os.path.join(out, 'h%d.o' % i)
        procs.append((o, subprocess.Popen(['g++'] + flags + ['-c', t, '-o', o],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                          text=True)))
    err = ''
    for o, p in procs:
        txt = p.communicate()[0]
        if p.returncode:
            err += txt
    return [o for o, _ in procs], err


def run_harness(prop, repo, out, budget, seed):
    """bounded search on the real code; returns (status, text): pass / fail / none"""
    st, tx = 'none', ''
    for h in ('context', 'locks') if prop == 'C27' else (HARNESS[prop],):
        s, t = run_one(prop, h, repo, out, budget, seed)
        if s == 'fail':
            return s, t
        st = s if s == 'pass' else st
        tx += t
    return st, tx


def run_one(prop, h, repo, out, budget, seed):
    src = os.path.join(HERE, 'replay', h + '.cpp')
    if not os.path.exists(src):
        return 'none', 'no concrete harness'
    gen = os.path.join(out, 'gen')
    os.makedirs(gen, exist_ok=True)
    subprocess.run(['python3', os.path.join(HERE, 'tools/gen_msgs.py'), repo, gen], check=True,
                   stdout=subprocess.DEVNULL)
    binp = os.path.join(out, 'harness_' + h)
    flags = ['-std=c++17', '-g', '-O1', '-w', '-pthread'] + (
        ['-fsanitize=thread'] if h == 'locks' else
        ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']) + ['-I%s/rmw_dds_common/include' % repo]
    if h != 'security':
        flags += ['-I%s/stubs/include' % HERE, '-I' + gen]
    flags += ['-I%s/replay' % HERE]
    tus = [os.path.join(repo, 'rmw_dds_common/src', s + '.cpp') for s in SOURCES[h]] + [src]
    if h not in ('security',):
        sd = os.path.join(HERE, 'stubs/src')
        tus += [os.path.join(sd, x) for x in sorted(os.listdir(sd))] if os.path.isdir(sd) else []
    err = 'x'
    for extra in (['-DPEEK'], []) if h in ('graph', 'context') else ([],):
        objs, err = compile_all(tus, flags + extra, out)
        if not err:
            break
    if err:
        return 'none', 'concrete harness does not compile:\n' + err[-3000:]
    r = subprocess.run(['g++'] + flags + objs + ['-ldl', '-o', binp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for o in objs:
        os.unlink(o)
    if r.returncode:
        return 'none', 'concrete harness does not link:\n' + r.stdout[-3000:]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:exitcode=77:allocator_may_return_null=1:'
               'detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=77',
               LC_ALL='C', TSAN_OPTIONS='halt_on_error=1:exitcode=77')
    try:
        r = subprocess.run([binp, prop, str(budget), str(seed)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=env, timeout=budget * 3 + 120,
                           errors='replace', text=True, cwd=out)
    except subprocess.TimeoutExpired as ex:
        return 'fail', 'the real code does not terminate\n' + (
            ex.output.decode(errors='replace') if isinstance(ex.output, bytes)
            else ex.output or '')[-3000:]
    finally:
        try:
            os.unlink(binp)
        except OSError:
            pass
    if r.returncode == 0:
        return 'pass', r.stdout[-2000:]
    if r.returncode == 3 or 'FATAL: ThreadSanitizer' in r.stdout or \
            'LeakSanitizer has encountered a fatal error' in r.stdout:
        return 'none', r.stdout[-2000:]  # the sanitizer cannot work here
    return 'fail', r.stdout[-6000:]


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line[len('known: property=%s ' % prop):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    out = os.path.join(HERE, 'build', 'run-%s-%d' % (prop, os.getpid()))
    rdir = os.path.join(HERE, 'build', 'replay')
    os.makedirs(out, exist_ok=True)
    os.makedirs(rdir, exist_ok=True)
    try:
        rc = decide(a, prop, tier, seed, t0, out, rdir)
    except Exception:
        traceback.print_exc()
        rc = 2  # no answer
    finally:
        shutil.rmtree(out, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(a, prop, tier, seed, t0, out, rdir):
    subprocess.run(['bash', os.path.join(HERE, 'build_extractor.sh')], check=True)
    from vcgen import job as J
    spec = importlib.import_module('vcgen.specs.' + HARNESS[prop])
    job = J.Job(a.repo, out)
    job.tier = tier
    job.trace = a.trace
    job.verbose = a.v
    job.timeout = 20 if tier == 'quick' else 90
    if a.no_proof:
        res = J.Result()
        res.unsupported.append('--no-proof')
    else:
        res = job.run(prop, spec.SPECS[prop], TUS[HARNESS[prop]])
    failed = [o for o in res.obls if o.status != 'proved']
    if a.v:
        for o in res.obls:
            if o.status != 'proved' or a.trace:
                print('%-8s %-5.1fs %s [%s line %s] %s' % (
                    o.status, o.secs, o.name, o.fn, o.line,
                    '' if o.status == 'proved' else o.detail[:1500]))
        print('obligations', len(res.obls), 'failed', len(failed),
              'total %.1fs' % (time.time() - t0))
        print('unsupported', res.unsupported, 'covers', res.covers, res.badcovers)
    for u in res.unsupported:
        print('outside the verifier\'s reach: %s' % u.strip().splitlines()[-1])
    hs, ht = 'none', 'not run'
    budget = 6 if tier == 'quick' else 60
    if failed or res.unsupported:
        budget *= 3
    if not a.no_harness:
        hs, ht = run_harness(prop, a.repo, out, budget, seed)
    if a.v:
        print('concrete:', hs, ht)
    violation = None
    for o in failed:
        violation = violation or ('obligation "%s" of %s (source line %s) is not discharged: %s'
                                  % (o.name, o.fn, o.line, o.status))
    if hs == 'fail':
        violation = violation or 'the real code fails on a concrete input'
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    evidence(a, prop, tier, seed, t0, res, hs, ht, violation)
    if violation:
        rp = os.path.join(rdir, prop + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\n%s\n\n' % (prop, violation))
            for o in failed:
                f.write('--- obligation: %s\nfunction: %s\nline: %s\nverdict: %s after %.1fs\n'
                        'verifier output:\n%s\n\n' % (o.name, o.fn, o.line, o.status, o.secs, o.detail))
            f.write('--- concrete run of the real code (replay/%s.cpp, arguments: %s %d %d): %s\n%s\n'
                    % (HARNESS[prop], prop, budget, seed, hs, ht))
        print(violation)
        if hs == 'fail':
            lines = ht.splitlines()
            print('\n'.join([x for x in lines if 'FAIL' in x or 'ERROR' in x
                             or 'WARNING' in x][:3] or lines[-3:]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        return 1
    if res.badcovers:
        print('vacuous specification: ' + '; '.join(res.badcovers))
        return 2
    if not res.obls and not res.unsupported:
        print('no obligations were generated')
        return 2
    if res.unsupported and hs != 'pass':
        print('nothing could be decided: ' + ht[-500:])
        return 2
    print('%s: %d obligations, %d discharged%s; concrete cross-check: %s' % (
        prop, len(res.obls), len(res.obls) - len(failed),
        ' (partly bounded: %d part(s) outside the verifier)' % len(res.unsupported)
        if res.unsupported else '', hs))
    return 0


def evidence(a, prop, tier, seed, t0, res, hs, ht, violation):
    os.makedirs(a.evidence, exist_ok=True)
    spec = importlib.import_module('vcgen.specs.' + HARNESS[prop])
    base = ['clang 18 front end (parsing, types, overload resolution)',
            'extractor/astdump.cpp and vcgen/ (the verification-condition generator)',
            'z3 (python binding %s)' % z3ver(),
            'contracts of the C++ standard library in vcgen/stdlib.py',
            'stub headers of the ROS dependencies in stubs/include (not installed here)']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': len(res.obls),
              'discharged': len([1 for o in res.obls if o.status == 'proved']),
              'checker_cmd': 'VERIF_TIER=%s python3-vt check.py %s' % (tier, prop),
              'trusted_base': base,
              'functions_under_contract': sorted(res.used),
              'sources': sorted(res.sources),
              'solver_seconds': round(sum(o.secs for o in res.obls), 2),
              'generation_queries': res.queries,
              'generation_query_seconds': round(res.qtime, 2),
              'by_back_end': back_ends(res),
              'obligation_kinds': kinds(res),
              'vacuity_covers': res.covers, 'vacuity_covers_refuted': res.badcovers,
              'outside_reach': res.unsupported,
              'bounded_parts': res.bounded + (
                  ['concrete search on the real code: ' + ht.strip().splitlines()[-1]]
                  if hs == 'pass' and ht.strip() else []),
              'concrete_cross_check': hs,
              'failed_obligations': ['%s [%s:%s] %s' % (o.name, o.fn, o.line, o.status)
                                     for o in res.obls if o.status != 'proved'],
          },
          'assumptions': sorted('%s%s' % (q, (': ' + n) if isinstance(n, str) else '')
                                for q, n in res.assumed.items()) +
          list(getattr(spec, 'ASSUMPTIONS', {}).get(prop, [])),
          'wall_s': round(time.time() - t0, 2),
          'violations': 1 if violation else 0}
    tmp = os.path.join(a.evidence, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(a.evidence, prop + '.json'))


def z3ver():
    import z3
    return z3.get_version_string()


def back_ends(res):
    d = {}
    for o in res.obls:
        if o.status == 'proved':
            x = o.detail.split()[0]
            d[x] = d.get(x, 0) + 1
    return d


def kinds(res):
    d = {}
    for o in res.obls:
        d[o.kind] = d.get(o.kind, 0) + 1
    return d


if __name__ == '__main__':
    main()
