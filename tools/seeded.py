#!/usr/bin/env python3
"""Rewrites the list of seeded changes in DESIGN.md (section 5)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    lines.append('* `%s`: %s' % (os.path.basename(os.path.dirname(m)), ' '.join(json.load(open(m))['needs'].split())))
p = root + '/DESIGN.md'
s = open(p).read()
head, rest = s.split('<!-- seeded -->\n')[0], s.split('<!-- /seeded -->\n')[1]
open(p, 'w').write(head + '<!-- seeded -->\n' + '\n'.join(lines) + '\n<!-- /seeded -->\n' + rest)
