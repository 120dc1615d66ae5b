#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (after the heading '## Planted bugs')."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
t = open(p).read().split('\n## Planted bugs')[0].rstrip() + '\n'
t += '''
## Planted bugs
`seeded/<id>/` (patch, demonstration, description), written from the property text and the code. `tools/seedtest.sh` applies each to /repo, runs the
build, the tests, the demonstration and the check of its property, and undoes it. Every one passes the tests, fails its demonstration, and is
caught by the quick check of its property; what is in the last column is what it took.

| id | check that catches it | what it breaks | what it needs |
|---|---|---|---|
'''
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    t += '| %s | %s | %s | %s |\n' % (f.split('/')[-2], m['property'], m['what_it_breaks'], m['needs'])
open(p, 'w').write(t)
