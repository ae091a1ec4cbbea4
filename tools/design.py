#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, design_notes.py, props_data.py and seeded/*/meta.json."""
import os, json, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
P, NA = [], {}
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append((id, title, qtext, why, files, technique, note, na))
exec(open('tools/props_data.py').read())
exec(open('tools/design_notes.py').read())
out = open('tools/design_head.md').read()
for id, title, q, why, files, t, note, na in sorted(P):
    if na: continue
    out += '### %s %s\n\n' % (id, title)
    out += '*Method:* %s. *Bounds:* %s. *Decided by* `checker/` rules for `%s`.\n' % (t, q, '`, `'.join(files))
    out += '*How:* ' + N.get(id, note) + '\n*Out of reach of tests because:* ' + why + '\n\n'
out += '### Not applicable\n\n'
for id, title, q, why, files, t, note, na in sorted(P):
    if na: out += '* **%s %s**: %s\n' % (id, title, na)
out += '\n' + open('tools/design_tail.md').read()
rows = []
for m in sorted(glob.glob('seeded/*/meta.json')):
    j = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/')))
out += '\n## 5. Planted changes kept in seeded/\n\nEach is caught by the check of its own property (`vcheck --bug ID`).\n\n| change | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open('DESIGN.md', 'w').write(out)
