#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in seeds/*.py and confirms each in scratch copies:
applies, builds, passes the stable tests, demo passes without and fails with it. mkseeds.py [id...]"""
import json, os, re, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'seeded')
SCR = '/tmp/seedwork'
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo=None, deps='lib', main=None, extra=None):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, deps=deps, main=main, extra=extra or {})
HEAD = '#!/bin/bash\n# Run in the repository. Exit 0: behaves as it should.\nhere=$(cd "$(dirname "$0")" && pwd)\nrepo=$PWD\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n'
CRATE = '''mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
unic-langid = "0.9"
%s
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t"
'''
DEPS = {'lib': 'intl_pluralrules = { path = "$repo/intl_pluralrules" }', 'parser': 'cldr_pluralrules_parser = { path = "$repo/cldr_pluralrules_parser" }', 'gen': 'make_pluralrules = { path = "$repo/make_pluralrules" }'}
RUN = 'CARGO_TARGET_DIR="$t/target" cargo run --offline -q\n'
MIRI = 'CARGO_TARGET_DIR="$t/target" MIRIFLAGS="-Zmiri-disable-isolation" cargo +nightly miri run --offline -q %s\n'
TOOL = 'CARGO_TARGET_DIR="$t/target" cargo build --offline -q -p make_pluralrules || exit 3\ntool="$t/target/debug/make_pluralrules"\n'
def demo_text(s):
    d = s['demo']
    if d is None: return HEAD + CRATE % DEPS[s['deps']] + RUN
    if d.startswith('miri'): return HEAD + CRATE % DEPS[s['deps']] + MIRI % d[4:].strip()
    return HEAD + TOOL + d
for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))): exec(compile(open(f).read(), f, 'exec'))
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')
def main(ids):
    os.makedirs(SCR, exist_ok=True)
    repo = os.path.join(SCR, 'repo')
    if not os.path.exists(repo): subprocess.check_call(['cp', '-a', '/repo', repo])
    sh('git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD', repo)
    base = json.load(open('/opt/vp/BASELINE.json'))
    for id in ids or SEEDS:
        s = SEEDS[id]
        if not ids and os.path.exists(os.path.join(OUT, id, 'meta.json')): continue
        sh('git checkout -q -- . && git clean -fdq', repo)
        d = os.path.join(SCR, 'demo', id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, 'demo.sh'), 'w').write(demo_text(s))
        if s['main']: open(os.path.join(d, 'main.rs'), 'w').write(s['main'])
        for n, c in s['extra'].items(): open(os.path.join(d, n), 'w').write(c)
        c0, o0 = sh(f'bash {d}/demo.sh', repo)
        for f, old, new in s['edits']:
            p = os.path.join(repo, f); t = open(p).read()
            if callable(old): t = old(t)
            else:
                assert t.count(old) == 1, (id, f, t.count(old), old)
                t = t.replace(old, new)
            open(p, 'w').write(t)
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE).stdout.decode()
        # tests, with the repository's own commands redirected to the copy
        c2, o2 = sh('cargo test --offline --workspace 2>&1', repo)
        passed = len(re.findall(r'^test .* \.\.\. ok$', o2, re.M)); failed = re.findall(r'^test (.*) \.\.\. FAILED$', o2, re.M)
        c1, o1 = sh(f'bash {d}/demo.sh', repo)
        ok = c0 == 0 and c1 != 0 and c2 == 0 and diff
        print(('OK  ' if ok else 'BAD ') + f'{id}: demo clean {c0}, patched {c1}; tests {passed} ok {failed}', flush=True)
        if not ok:
            print(diff[:1500]); print('--- clean:', o0[-1500:]); print('--- patched:', o1[-1500:]); print('--- tests', o2[-1500:] if c2 else '')
        else:
            print('     ' + ' | '.join(l for l in o1.strip().splitlines()[-3:])[:300])
            q = os.path.join(OUT, id)
            shutil.rmtree(q, ignore_errors=True)
            shutil.copytree(d, q)
            open(os.path.join(q, 'patch.diff'), 'w').write(diff)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(q, 'meta.json'), 'w'), indent=1)
        sh('git checkout -q -- . && git clean -fdq', repo)
if __name__ == '__main__': main(sys.argv[1:])
