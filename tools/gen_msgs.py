#!/usr/bin/env python3
"""Generate C++ message structs from the .msg files of /repo.

usage: gen_msgs.py REPO OUTDIR

Stand-in for rosidl_generator_cpp (not installed): plain structs with the members, member types and
member-wise ==/!= that the generator emits.  Bounded strings become std::string, unbounded
sequences std::vector, fixed arrays std::array (char -> uint8_t, as rosidl maps `char`)."""
import os, re, sys

PRIM = {'char': 'uint8_t', 'byte': 'uint8_t', 'uint8': 'uint8_t', 'int8': 'int8_t', 'bool': 'bool',
        'uint16': 'uint16_t', 'int16': 'int16_t', 'uint32': 'uint32_t', 'int32': 'int32_t',
        'uint64': 'uint64_t', 'int64': 'int64_t', 'float32': 'float', 'float64': 'double'}

def snake(n):
    return re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', n).lower()

def main(repo, out):
    d = os.path.join(repo, 'rmw_dds_common', 'msg')
    os.makedirs(os.path.join(out, 'rmw_dds_common', 'msg'), exist_ok=True)
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.msg'):
            continue
        name = fn[:-4]
        fields, deps = [], []
        for line in open(os.path.join(d, fn)):
            line = line.split('#')[0].strip()
            if not line:
                continue
            m = re.match(r'^(\S+)\s+(\w+)$', line)
            if not m:
                raise SystemExit('gen_msgs: cannot parse %s: %r' % (fn, line))
            ty, fname = m.groups()
            m = re.match(r'^(\w+)(<=\d+)?(\[(\d*|<=\d+)\])?$', ty)
            if not m:
                raise SystemExit('gen_msgs: cannot parse type %r in %s' % (ty, fn))
            base, _, arr, n = m.groups()
            if base in PRIM:
                c = PRIM[base]
            elif base in ('string',):
                c = 'std::string'
            else:
                c = 'rmw_dds_common::msg::' + base
                deps.append(base)
            init = '{}'
            if arr:
                if n and n.isdigit():
                    c = 'std::array<%s, %s>' % (c, n)
                else:
                    c = 'std::vector<%s>' % c
            fields.append((c, fname))
        g = 'RMW_DDS_COMMON__MSG__%s_HPP_' % snake(name).upper()
        s = ['// generated from %s' % fn, '#ifndef ' + g, '#define ' + g,
             '#include <array>', '#include <cassert>', '#include <cstdint>', '#include <string>', '#include <vector>']
        s += ['#include "rmw_dds_common/msg/%s.hpp"' % snake(x) for x in dict.fromkeys(deps)]
        s += ['namespace rmw_dds_common', '{', 'namespace msg', '{', 'struct %s' % name, '{']
        s += ['  %s %s{};' % f for f in fields]
        s += ['  bool operator==(const %s & o) const' % name, '  {',
              '    return ' + ' && '.join('this->%s == o.%s' % (f, f) for _, f in fields) + ';', '  }',
              '  bool operator!=(const %s & o) const {return !(*this == o);}' % name, '};',
              '}  // namespace msg', '}  // namespace rmw_dds_common', '#endif', '']
        p = os.path.join(out, 'rmw_dds_common', 'msg', snake(name) + '.hpp')
        t = '\n'.join(s)
        if not os.path.exists(p) or open(p).read() != t:
            open(p + '.tmp%d' % os.getpid(), 'w').write(t)
            os.replace(p + '.tmp%d' % os.getpid(), p)
if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
