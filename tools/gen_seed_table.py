#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json (run by hand; no check reads seeded/)."""
import glob
import json
import os

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/')))
p = here + '/DESIGN.md'
s = open(p).read()
i = s.find('\n## 6. ')
s = (s if i < 0 else s[:i]).rstrip() + '''

## 6. Planted changes

Each was confirmed in a scratch copy (applies, builds, existing tests pass, demonstration 0 without and nonzero with it).
All of them are caught by the quick check of the property named; several others also fire for some.
Those the checks missed when they were planted led to the extensions described in section 3 (ages, sizes, byte pools,
kinds of callables, text tables, late faults, other demanglers, time).

| change | caught by | needs |
|---|---|---|
''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
