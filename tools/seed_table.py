#!/usr/bin/env python3
"""rewrites section 6 of DESIGN.md from logs of tools/runseeds.sh (later logs win)"""
import re, sys
rows = {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        m = re.match(r'(S\d+-\S+) (C\d+) rc=(\d+)', l)
        if not m:
            continue
        o = re.search(r'obligation "([^"]*)" of (\S+)', l)
        inp = 'FAIL property' in l
        how = []
        if m[3] != '1':
            how.append('NOT CAUGHT')
        if o:
            how.append('obligation “%s” of `%s`' % (o[1], re.sub(r'rmw_dds_common::', '', o[2])))
        if inp:
            how.append('failing input' if o else 'failing input only (function left the accepted subset)')
        rows[m[1]] = (m[2], '; '.join(how))
s = open('/verif/DESIGN.md').read()
i = s.index('## 6. ')
t = '''## 6. Planted bugs and the checks that catch them
Each row: the check of the named property exits 1.  “failing input”: the harness also found an input,
fault or history that shows the breakage on the real code (C27: a thread-sanitizer report counts).

| change | breaks | how it is caught |
|---|---|---|
'''
t += ''.join('| %s | %s | %s |\n' % (k, *rows[k]) for k in sorted(rows))
open('/verif/DESIGN.md', 'w').write(s[:i] + t)
print(len(rows))
