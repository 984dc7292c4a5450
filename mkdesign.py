#!/usr/bin/env python3
"""mkdesign.py: writes DESIGN.md from DESIGN.head.md and the planted bugs."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
out = open(os.path.join(here, 'DESIGN.head.md')).read()
missed = set(l.strip() for l in open(os.path.join(here, 'missed.txt')) if l.strip()) if os.path.exists(os.path.join(here, 'missed.txt')) else set()
out += '| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|\n'
for d in ('seeded', 'planted_on_fixes'):
    base = os.path.join(here, d)
    for b in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, b, 'meta.json')))
        out += '| %s%s | %s | %s | %s |\n' % (b, '' if d == 'seeded' else ' (on a repair)', m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), 'not caught' if b in missed else m['property'] + ' quick')
open(os.path.join(here, 'DESIGN.md'), 'w').write(out)
