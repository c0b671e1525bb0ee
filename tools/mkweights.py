#!/usr/bin/env python3
"""Updates weights.json (CPU seconds per harness, used to cut heavy ones into parts) from evidence files."""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(H, 'weights.json')
w = json.load(open(f)) if os.path.exists(f) else {}
for e in glob.glob(os.path.join(H, '..', 'evidence', '*.json')):
    for h in json.load(open(e))['coverage']['harnesses']:
        if h['build'] == 'dev' and (h['complete'] or h['time_s'] > w.get(h['name'], 0)):
            w[h['name']] = round(h['time_s'], 1)
json.dump(dict(sorted(w.items())), open(f, 'w'), indent=0)
