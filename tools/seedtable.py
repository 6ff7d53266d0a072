#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (development tool)."""
import json, glob, os, collections
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
t = collections.defaultdict(list)
for m in sorted(glob.glob('seeded/*/meta.json')):
    t[json.load(open(m))['property']].append(os.path.basename(os.path.dirname(m)).split('-', 1)[1])
s = open('DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
i, j = s.index(a) + len(a), s.index(b)
rows = ['| check | planted bugs it catches |\n|---|---|\n'] + [f"| {p} | {', '.join(t[p])} |\n" for p in sorted(t)]
open('DESIGN.md', 'w').write(s[:i] + ''.join(rows) + s[j:])
