#!/usr/bin/env python3
# development helper: rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m)); rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['needs'], d['what_it_breaks']))
rows.sort()
text = '''## Planted bugs

Each compiles, passes the existing tests, and its demonstration fails with it and passes without it (`tools/mkseed.py --check --tests`). Each was written from the text of the property and the code; those that
the checks missed at first led to a stronger generator or oracle (for example: ids beyond the first allocation of a store, PBF blocks with a granularity of their own, sinks that fail when closed,
objects repeated in a file, registering a format twice). On the current tree every one of them is caught by the check of its own property at the quick tier; `c01-no-trunc` is also caught by C25.

| Check | Planted bug | What it needs | What breaks |
|---|---|---|---|
'''
for p, i, n, b in rows: text += '| %s | %s | %s | %s |\n' % (p, i, n.replace('|', '/').replace('\n', ' '), b.replace('|', '/').replace('\n', ' '))
f = root + '/DESIGN.md'; s = open(f).read(); s = s[:s.index('## Planted bugs')] + text; open(f, 'w').write(s)
print(len(rows), 'planted bugs')
