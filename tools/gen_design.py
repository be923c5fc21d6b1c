#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md + the table of facets taken from the harness + design_tail.md, in which SEEDTABLE becomes the table of planted bugs."""
import re, glob, json, os
R = '/verif/'
head = open(R + 'tools/design_head.md').read()
out = [head, "### 2.28 Facets\n\n| check | facet | quick | thorough | non-trivial cases |\n|---|---|---|---|---|\n"]
for f in sorted(glob.glob(R + 'harness/src/c*.cpp') + glob.glob(R + 'harness/py/c*.py')):
    c = re.match(r'c(\d+)', f.split('/')[-1])
    for m in re.finditer(r'(?:VP_FACET|@vp\.facet)\(\s*"([^"]+)",\s*(\d+),\s*(\d+),\s*((?:"[^"]*"\s*)+)', open(f).read()):
        rule = ''.join(re.findall(r'"([^"]*)"', m.group(4)))
        out.append('| C%s | %s | %s | %s | %s |\n' % (c.group(1), m.group(1), m.group(2), m.group(3), rule.replace('|', '\\|')))
caught = {}
for l in open(R + 'tools/caught.txt'):
    k, _, v = l.rstrip('\n').partition(': ')
    caught[k] = v
tab = ["| planted bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"]
for d in sorted(glob.glob(R + 'seeded/*/meta.json')):
    k = d.split('/')[-2]; m = json.load(open(d))
    tab.append('| %s | %s | %s | %s | %s |\n' % (k, m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), caught.get(k, '?')))
tail = open(R + 'tools/design_tail.md').read().replace('SEEDTABLE', ''.join(tab))
open(R + 'DESIGN.md', 'w').write(''.join(out) + '\n' + tail)
