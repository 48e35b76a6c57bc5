#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md between its first and last row."""
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
rows = ['| planted bug | needs |', '|---|---|'] + ['| %s | %s |' % (d, json.load(open('seeded/%s/meta.json' % d))['needs']) for d in sorted(os.listdir('seeded'))]
s = open('DESIGN.md').read()
t = '\n'.join(rows)
if '@SEEDS@' in s: s = s.replace('@SEEDS@', t)
else: s = re.sub(r'\| planted bug \| needs \|\n(\|.*\n)*', lambda m: t + '\n', s)
open('DESIGN.md', 'w').write(s)
