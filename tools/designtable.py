#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the table of planted bugs and the count of repaired defects."""
import json, os, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(H + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'].replace('|', '/')))
t = '| change | property (whose check catches it) | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
s = open(H + '/DESIGN.md').read()
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE\n', '<!-- seeds -->\n<!-- /seeds -->\n')
s = re.sub(r'<!-- seeds -->\n.*?<!-- /seeds -->\n', lambda m: '<!-- seeds -->\n' + t + '<!-- /seeds -->\n', s, flags=re.S)
n = len([l for l in open(H + '/known_findings.jsonl') if l.startswith('fixed')])
s = re.sub(r'\(\d+ so far\)', '(%d so far)' % n, s)
open(H + '/DESIGN.md', 'w').write(s)
