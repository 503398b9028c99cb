#!/usr/bin/env python3
"""seedtest.py ID [--no-tests] [--all-checks]: confirm one planted bug in a scratch copy and show which checks catch it"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           PROPTEST_RNG_SEED='20240601', PROPTEST_CASES='256')


def sh(cmd, cwd, **kw):
    e = dict(env, **kw)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main(i):
    d = os.path.join(V, 'seeded', i)
    if not os.path.exists(W):
        sh('cp -a /repo ' + W, '/')
    sh('git checkout -q . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', W)
    r = sh('bash %s/demo.sh' % d, W)
    print(i, 'demo clean:', r.returncode, r.stdout[-300:] if r.returncode else '')
    r = sh('git apply %s/patch.diff' % d, W)
    if r.returncode:
        print('patch does not apply', r.stdout)
        return
    r = sh('bash %s/demo.sh' % d, W)
    print(i, 'demo patched:', r.returncode, r.stdout[-300:].strip())
    if '--no-tests' not in sys.argv:
        r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', W)
        f = [l for l in r.stdout.split('\n') if 'FAILED' in l or l.startswith('error')]
        print(i, 'tests:', r.returncode, f[:5])
    prop = json.load(open(d + '/meta.json'))['property']
    ids = [prop]
    if '--all-checks' in sys.argv:
        ids = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    for p in ids:
        r = sh('python3 check.py ' + p, V, VERIF_REPO=W, VERIF_CACHE='/tmp/seedcache', RUSTUP_TOOLCHAIN='')if 0 else subprocess.run(['python3', 'check.py', p], cwd=V, env=dict(os.environ, VERIF_REPO=W, VERIF_CACHE='/tmp/seedcache'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.split('\n') if 'broken' in l or 'undecided ' in l]
        print(i, p, 'exit', r.returncode, 'CAUGHT' if r.returncode == 1 else '', '|'.join(x.strip()[:200] for x in v[:3]))
    sh('git checkout -q .', W)


for a in sys.argv[1:]:
    if not a.startswith('--'):
        main(a)
