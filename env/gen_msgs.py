#!/usr/bin/env python3
"""Generate C++ message headers (as rosidl would) from /repo's msg/*.msg files.
usage: gen_msgs.py MSG_DIR OUT_INCLUDE_DIR"""
import os, re, sys
src, out = sys.argv[1], sys.argv[2]
PRIM = {'bool':'bool','byte':'unsigned char','char':'unsigned char','uint8':'uint8_t','int8':'int8_t','uint16':'uint16_t',
 'int16':'int16_t','uint32':'uint32_t','int32':'int32_t','uint64':'uint64_t','int64':'int64_t','float32':'float','float64':'double'}
def snake(n): return re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', n).lower()
for fn in sorted(os.listdir(src)):
    if not fn.endswith('.msg'): continue
    name = fn[:-4]; fields = []; deps = []
    for line in open(os.path.join(src, fn)):
        line = line.split('#')[0].strip()
        if not line or re.search(r'(?<!<)=', line): continue
        t, f = line.split()[:2]
        m = re.match(r'^([A-Za-z0-9_/]+)(?:<=\d+)?(\[(?:<=)?\d*\])?$', t)
        assert m, line
        base, arr = m.group(1), m.group(2)
        if base in PRIM: ct = PRIM[base]
        elif base in ('string', 'wstring'): ct = 'std::string'
        else:
            base = base.split('/')[-1]; ct = 'rmw_dds_common::msg::' + base; deps.append(base)
        fixed = False
        if arr is not None:
            n = arr[1:-1]
            if n and not n.startswith('<='): ct = 'std::array<%s, %s>' % (ct, n); fixed = True
            else: ct = 'std::vector<%s>' % ct
        scalar = base in PRIM and (arr is None or fixed)
        fields.append((ct, f, '{}' if scalar else ''))
    g = 'RMW_DDS_COMMON__MSG__%s_HPP_' % snake(name).upper()
    s = ['#ifndef ' + g, '#define ' + g, '#include <array>', '#include <cassert>', '#include <cstdint>', '#include <memory>', '#include <string>', '#include <vector>']
    s += ['#include "rmw_dds_common/msg/%s.hpp"' % snake(d) for d in sorted(set(deps)) if d != name]
    s += ['namespace rmw_dds_common', '{', 'namespace msg', '{', 'template<class ContainerAllocator>', 'struct %s_' % name, '{', '  using Type = %s_<ContainerAllocator>;' % name]
    for ct, f, init in fields:
        s += ['  %s %s%s;' % (ct, f, init), '  using _%s_type = %s;' % (f, ct)]
    s += ['  using SharedPtr = std::shared_ptr<%s_>;' % name, '  using UniquePtr = std::unique_ptr<%s_>;' % name]
    s += ['  bool operator==(const %s_ & o) const {return %s;}' % (name, ' && '.join('this->%s == o.%s' % (f, f) for _, f, _ in fields))]
    s += ['  bool operator!=(const %s_ & o) const {return !(*this == o);}' % name, '};']
    s += ['using %s = %s_<std::allocator<void>>;' % (name, name), '}  // namespace msg', '}  // namespace rmw_dds_common', '#endif']
    d = os.path.join(out, 'rmw_dds_common', 'msg'); os.makedirs(os.path.join(d, 'detail'), exist_ok=True)
    open(os.path.join(d, snake(name) + '.hpp'), 'w').write('\n'.join(s) + '\n')
    for suf in ('struct', 'builder', 'traits'):
        open(os.path.join(d, 'detail', '%s__%s.hpp' % (snake(name), suf)), 'w').write('#include "rmw_dds_common/msg/%s.hpp"\n' % snake(name))
