#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    by.setdefault(d['property'], []).append(os.path.basename(os.path.dirname(f))[4:])
lines = ['<!-- bugs: written by tools/mkdesign.py -->', '| property | planted bugs, all caught |', '|---|---|']
lines += ['| %s (%d) | %s |' % (p, len(b), ', '.join(b)) for p, b in sorted(by.items())]
lines.append('<!-- end of bugs -->')
text = open(V + '/DESIGN.md').read()
block = '\n'.join(lines)
if 'BUGTABLE' in text:
    text = text.replace('BUGTABLE', block)
else:
    text = re.sub(r'<!-- bugs:.*?<!-- end of bugs -->', lambda m: block, text, flags=re.S)
open(V + '/DESIGN.md', 'w').write(text)
