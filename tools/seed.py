#!/usr/bin/env python3
"""Confirm planted bugs (development aid; no check uses it).

  seed.py confirm ID...   demo on the clean copy, demo and stable tests with the patch
  seed.py catch ID...     the quick check of the property on the patched copy
  seed.py new ID PROPERTY < description   (see new())
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(HERE, 'seeded')

DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds, nonzero otherwise; run with cwd = repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
cd "$work" && timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def copy(name):
    d = tempfile.mkdtemp(prefix='seed_%s_' % name, dir='/tmp')
    sh('cp -a %s %s/repo' % (os.environ.get('SEED_REPO', '/repo'), d))
    return d


def tests(repo, d):
    script = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + repo)
    p = os.path.join(d, 'test.sh')
    open(p, 'w').write(script)
    sh('bash %s %s/out.json' % (p, d))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return stable - set(json.load(open(d + '/out.json'))['passed'])


def confirm(name):
    d = copy(name)
    try:
        repo = d + '/repo'
        demo = 'bash %s/%s/demo.sh' % (SEEDS, name)
        a = sh(demo, cwd=repo)
        p = sh('git apply %s/%s/patch.diff' % (SEEDS, name), cwd=repo)
        if p.returncode:
            return name, 'PATCH DOES NOT APPLY ' + p.stdout
        b = sh(demo, cwd=repo)
        missing = tests(repo, d) if a.returncode == 0 and b.returncode else '-'
        ok = a.returncode == 0 and b.returncode and not missing
        return name, '%s clean=%d bug=%d tests-broken=%s | %s' % (
            'OK' if ok else 'REJECTED', a.returncode, b.returncode, missing,
            (a.stdout if a.returncode else b.stdout).strip()[-300:])
    finally:
        shutil.rmtree(d)


def catch(name):
    d = copy(name)
    try:
        repo = d + '/repo'
        prop = json.load(open('%s/%s/meta.json' % (SEEDS, name)))['property']
        sh('git apply %s/%s/patch.diff' % (SEEDS, name), cwd=repo)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1')
        r = sh('bash %s/check.sh %s quick' % (HERE, prop), env=env)
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        return name, '%s exit=%d violations=%d %s' % (
            'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, len(v),
            '\n'.join(r.stdout.splitlines()[:3])[:400])
    finally:
        shutil.rmtree(d)


def new(name, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new)], applied to a copy of /repo; writes seeded/<name>"""
    d = copy(name)
    try:
        repo = d + '/repo'
        for f, old, rep in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, rep))
        t = os.path.join(SEEDS, name)
        os.makedirs(t, exist_ok=True)
        open(t + '/patch.diff', 'w').write(sh('git diff', cwd=repo).stdout)
        open(t + '/demo.sh', 'w').write(DEMO_SH)
        open(t + '/demo.py', 'w').write(demo.strip() + '\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
                  open(t + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, names = sys.argv[1], sys.argv[2:]
    if names == ['all']:
        names = sorted(os.listdir(SEEDS))
    if cmd == 'confirm':
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(confirm, names):
                print(*r, flush=True)
    else:
        for n in names:
            print(*catch(n), flush=True)
