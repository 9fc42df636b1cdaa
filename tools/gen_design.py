#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md: fills in the table of planted bugs, of repaired defects and of recorded findings."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, 'DESIGN.in.md')).read()
rows = []
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs']))
s = s.replace('@@SEEDS@@', '| check | planted change | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join('| %s | %s | %s | %s |' % tuple(str(x).replace('|', '\\|').replace('\n', ' ') for x in r) for r in sorted(rows)))
k = open(os.path.join(V, 'known_findings.txt')).read().splitlines()
fx = [re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups() for l in k if l.startswith('fixed:')]
s = s.replace('@@FIXED@@', '\n'.join('* %s (%s): %s' % t for t in sorted(fx)))
s = s.replace('@@FINDINGS@@', '\n'.join('* %s: %s' % (re.search(r'property=(\S+)', l).group(1), re.sub(r'^finding: property=\S+ key=\S+ ', '', l)) for l in k if l.startswith('finding:')))
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
