#!/usr/bin/env python3
"""Puts the table of the planted changes, from seeded/*/meta.json, between the markers in DESIGN.md."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {l.split(':', 1)[0]: l.split(':', 1)[1].strip() for l in open(here + '/tools/missed.txt') if ':' in l}
rows = ['| change | property | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    i = f.split('/')[-2]
    m = json.load(open(f))
    c = lambda s: s.replace('|', '\\|').replace('\n', ' ').replace('<', '&lt;')
    rows.append('| %s%s | %s | %s | %s |' % (i, ' *' if i in missed else '', m['property'], c(m['needs']), c(m['what_it_breaks'])))
rows += ['', 'Strengthened after a miss:', ''] + ['* %s: %s' % x for x in sorted(missed.items())]
t = open(here + '/DESIGN.md').read()
t = re.sub(r'(<!-- planted -->\n).*(<!-- /planted -->)', lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], t, flags=re.S)
open(here + '/DESIGN.md', 'w').write(t)
