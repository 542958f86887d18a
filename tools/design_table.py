#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = sorted((json.load(open(m))['property'], os.path.basename(os.path.dirname(m)), json.load(open(m))['needs'])
              for m in glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')))
t = '| caught by | change | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in rows)
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'\| caught by \| change \| needs \|\n(\|.*\n)+', lambda m: t, s)
open(p, 'w').write(s)
