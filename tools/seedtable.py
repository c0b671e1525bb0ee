#!/usr/bin/env python3
"""seedtable.py RESULTS: puts the lines `seed property rc=N Ts ...` of a sweep over the planted changes into DESIGN.md."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for line in open(f):
        m = re.match(r'(\S+) (C\d+) rc=(\d+) (\d+)s .*?(?:replays/C\d+-(\w+?)-violation.*)?$', line)
        if m:
            res[m[1]] = (m[2], m[3], m[4], m[5])
rows = ['| change | property | needs | seen by |', '|---|---|---|---|']
for s in sorted(os.listdir(HERE + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, s)))
    p, rc, t, h = res.get(s, (meta['property'], '', '', ''))
    rows.append('| %s | %s | %s | %s |' % (s, meta['property'], meta['needs'], ('`%s`' % h) if rc == '1' else 'not run' if rc == '' else 'missed'))
d = open(HERE + '/DESIGN.md').read()
d = re.sub(r'<!-- seedtable -->.*<!-- /seedtable -->', lambda _: '<!-- seedtable -->\n' + '\n'.join(rows) + '\n<!-- /seedtable -->', d, flags=re.S)
open(HERE + '/DESIGN.md', 'w').write(d)
