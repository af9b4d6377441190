#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md, from the outputs of their validation (DIR/check.ID.PROPERTY)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{i}/meta.json'))
    p = m['property']
    f = f'{sys.argv[1]}/check.{i}.{p}'
    out = open(f, errors='replace').read() if os.path.exists(f) else ''
    hits = sorted(set(re.findall(rf'^{p} ([a-z0-9-]+): \[', out, re.M)))
    if not hits and 'VIOLATION property=' in out:
        hits = sorted(set(re.findall(rf'replays/{p}-([a-z0-9-]+)-\d+\.json', out)))
    rows.append((p, i, m['needs'], ', '.join(hits) or '**missed**'))
print('| property | planted bug | needs | caught by |\n|---|---|---|---|')
for r in sorted(rows):
    print('| ' + ' | '.join(r) + ' |')
