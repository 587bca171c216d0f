"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections
import json
import os
import re

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = collections.defaultdict(list)
n = 0
for b in sorted(os.listdir(f'{top}/seeded')):
    m = json.load(open(f'{top}/seeded/{b}/meta.json'))
    needs = re.sub(r'\s+', ' ', m['needs']).replace('|', '/')
    rows[m['property']].append(f'`{b}` ({needs[:110]})')
    n += 1
lines = ['| caught by | planted bugs (what each needs) |', '|---|---|']
for p in sorted(rows):
    lines.append(f'| {p} | {"; ".join(rows[p])} |')
s = open(f'{top}/DESIGN.md').read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + f'\n{n} bugs:\n\n' + '\n'.join(lines) + '\n\n' + s[j:]
open(f'{top}/DESIGN.md', 'w').write(s)
