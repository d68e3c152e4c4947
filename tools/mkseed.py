#!/usr/bin/env python3
"""mkseed.py SEEDFILE...   builds /verif/seeded/<id>/ from a seed description (seeds/*.py):
ID, PROPERTY, FILE, OLD, NEW (or EDITS=[(file, old, new)]), NEEDS, BREAKS, DEMO (body of demo.cpp), SRCS.
Confirms in a scratch copy: patch applies, builds, stable tests pass, demo 0 on clean / nonzero patched."""
import json, os, shutil, subprocess, sys, tempfile, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH_SEC = r'''#!/bin/bash
# cwd: the repository.  Builds the real sources with demo.cpp and runs it.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
R=$PWD/rmw_dds_common
g++ -std=c++17 -O1 -g -w -pthread -fsanitize=address,undefined -I$R/include %(inc)s -I$D $D/demo.cpp %(srcs)s -o $W/demo || exit 99
cd $W && timeout 120 ./demo
'''
SH_DEP = r'''#!/bin/bash
# cwd: the repository.  The dependencies of these sources are not installed: stand-ins lie in deps/.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
R=$PWD/rmw_dds_common
python3 $D/deps/gen_msgs.py $PWD $W/gen >/dev/null || exit 99
F="-std=c++17 -O1 -g -w -pthread %(san)s -I$R/include -I$D/deps/include -I$W/gen -I$D"
n=0
for f in $D/demo.cpp $D/deps/src/deps.cpp %(srcs)s; do n=$((n+1)); g++ $F -c $f -o $W/$n.o & done
for j in $(jobs -p); do wait $j || exit 99; done
g++ $F $W/*.o -o $W/demo || exit 99
cd $W && timeout 120 ./demo
'''
def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
bad = 0
for sf in sys.argv[1:]:
    for S in runpy.run_path(sf)['SEEDS']:
        d = os.path.join(H, 'seeded', S['id'])
        scratch = tempfile.mkdtemp(prefix='seed')
        try:
            subprocess.run(['cp', '-a', '/repo/.', scratch], check=True)
            for f, old, new in S['edits']:
                p = os.path.join(scratch, 'rmw_dds_common', f)
                t = open(p).read()
                if t.count(old) != S.get('count', 1):
                    raise SystemExit('%s: %d matches of %r' % (S['id'], t.count(old), old))
                open(p, 'w').write(t.replace(old, new))
            diff = run(['git', '-C', scratch, 'diff']).stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            json.dump({'property': S['property'], 'needs': S['needs'], 'what_it_breaks': S['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            sec = S['srcs'] == ['security']
            srcs = ' '.join('$R/src/%s.cpp' % s for s in S['srcs'])
            open(os.path.join(d, 'demo.sh'), 'w').write((SH_SEC if sec else SH_DEP) % {'srcs': srcs, 'inc': '', 'san':
                '-fsanitize=thread' if S.get('san') == 'thread' else
                '-fsanitize=address,undefined -fno-sanitize-recover=undefined'})
            open(os.path.join(d, 'demo.cpp'), 'w').write(S['demo'])
            if not sec:
                shutil.rmtree(os.path.join(d, 'deps'), ignore_errors=True)
                shutil.copytree(os.path.join(H, 'stubs'), os.path.join(d, 'deps'))
                shutil.copy(os.path.join(H, 'tools/gen_msgs.py'), os.path.join(d, 'deps/gen_msgs.py'))
            a = run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
            b = run(['bash', os.path.join(d, 'demo.sh')], cwd=scratch)
            ok = a.returncode == 0 and b.returncode not in (0, 99)
            print('%-26s clean=%d patched=%d %s' % (S['id'], a.returncode, b.returncode, 'OK' if ok else 'BAD'))
            if not ok:
                bad = 1
                print(a.stdout[-1500:], b.stdout[-1500:])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
if bad:
    sys.exit(1)
