#!/usr/bin/env python3
"""Writes DESIGN.md from its parts and the planted bugs."""
import glob, json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda n: open(os.path.join(root, 'tools', n)).read()
rows = []
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    cell = lambda s: ' '.join(s.split()).replace('|', '/')
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), cell(m['needs']), cell(m['what_it_breaks'])))
table = '\n## Planted bugs\n\n| property | bug | needs | breaks |\n|---|---|---|---|\n'
for r in sorted(rows):
    table += '| %s | %s | %s | %s |\n' % r
open(os.path.join(root, 'DESIGN.md'), 'w').write(read('design_head.md') + table + read('design_tail.md'))
