#!/usr/bin/env python3
"""Runs the check of each planted bug's property against /repo with the bug applied. runseeds.py [-a] [id...]; -a: every check."""
import json, os, subprocess, sys, time
R = '/verif/seeded'
args = [a for a in sys.argv[1:] if not a.startswith('-')]
allc = '-a' in sys.argv
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], stdout=subprocess.PIPE).stdout
for id in args or sorted(os.listdir(R)):
    meta = json.load(open(f'{R}/{id}/meta.json'))
    props = [f'C{k:02}' for k in range(1, 23)] if allc else [meta['property']]
    subprocess.check_call(['git', '-C', '/repo', 'apply', f'{R}/{id}/patch.diff'])
    try:
        res = []
        for p in props:
            t = time.time()
            o = subprocess.run(['/verif/check', p], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_TIER='quick'))
            out = o.stdout.decode('utf-8', 'replace')
            hit = o.returncode == 1 and f'VIOLATION property={p} ' in out
            res.append(f'{p}:{"CAUGHT" if hit else "exit%d" % o.returncode if o.returncode else "quiet"}({time.time()-t:.0f}s)')
            if p == meta['property']: first = [l for l in out.splitlines() if l.startswith('  ')][:1] or out.splitlines()[-3:]
        print(f'{id} [{meta["property"]}] ' + ' '.join(res) + ' :: ' + ' '.join(first)[:220], flush=True)
    finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
