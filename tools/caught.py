#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the output of runseeds.py (files named as arguments)."""
import json, os, re, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) \[(C\d\d)\] (.*?) :: ', l)
        if m: got[m.group(1)] = re.findall(r'(C\d\d):(\w+)', m.group(3))
by, missed = {}, []
for id in sorted(os.listdir(os.path.join(R, 'seeded'))):
    p = json.load(open(os.path.join(R, 'seeded', id, 'meta.json')))['property']
    ok = ('%s' % p, 'CAUGHT') in got.get(id, [])
    by.setdefault(p, []).append(id)
    if not ok: missed.append(id)
s = '<!-- planted -->\n| check | planted bugs it catches (quick tier) |\n|---|---|\n'
for p in sorted(by): s += f'| {p} | {", ".join(x for x in by[p] if x not in missed)} |\n'
s += f'\n{sum(map(len, by.values())) - len(missed)} of {sum(map(len, by.values()))} caught by the check of their own property.' + (f' Not caught: {", ".join(missed)}.' if missed else '') + '\n<!-- /planted -->'
d = open(os.path.join(R, 'DESIGN.md')).read()
d = re.sub(r'<!-- planted -->[\s\S]*<!-- /planted -->', lambda m: s, d)
open(os.path.join(R, 'DESIGN.md'), 'w').write(d)
print(len(missed), missed)
