#!/usr/bin/env python3
"""Make and verify planted bugs (development tool; no check uses it).

    plant.py make SPEC.py         write seeded/<id>/ for each bug in SPEC.BUGS
    plant.py verify [-n] [ID...]  for each: patch applies, stable tests pass,
                                  demo passes without and fails with it, and
                                  what the property's quick check says
                                  (-n: leave out the check)

A bug is {id, property, edits: [(file, old, new)], demo, needs, breaks}.
Scratch copies are made under /tmp and removed.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository root; exit 0 if the property holds here
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX=/nonexistent/no-pycache
exec timeout 100 "$PY" "$(dirname "$0")/demo.py"
'''
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
           PYTHONPYCACHEPREFIX='/nonexistent/no-pycache')


def scratch():
    root = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    shutil.copytree('/repo', root + '/repo', symlinks=True,
                    ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return root, root + '/repo'


def make(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    for bug in ns['BUGS']:
        root, repo = scratch()
        try:
            subprocess.run(['git', 'init', '-q', repo], check=True)
            subprocess.run(['git', '-C', repo, 'add', '-A'], check=True)
            subprocess.run(['git', '-C', repo, '-c', 'user.email=a@b', '-c',
                            'user.name=a', 'commit', '-qm', 'x'], check=True)
            for path, old, new in bug['edits']:
                full = f'{repo}/src/fauxdoc/{path}'
                text = open(full).read()
                if text.count(old) != 1:
                    sys.exit(f"{bug['id']}: {text.count(old)} matches for "
                             f"{old!r} in {path}")
                open(full, 'w').write(text.replace(old, new))
            diff = subprocess.run(['git', '-C', repo, 'diff'], check=True,
                                  capture_output=True, text=True).stdout
        finally:
            shutil.rmtree(root)
        out = os.path.join(SEEDED, bug['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        print('made', bug['id'])


def demo(bug, repo):
    r = subprocess.run(['bash', f'{SEEDED}/{bug}/demo.sh'], cwd=repo,
                       capture_output=True, text=True, env=ENV)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


def verify(bug, with_check):
    root, repo = scratch()
    meta = json.load(open(f'{SEEDED}/{bug}/meta.json'))
    res = {'bug': bug, 'property': meta['property']}
    try:
        res['clean'] = demo(bug, repo)[0]
        p = subprocess.run(['git', 'apply', f'{SEEDED}/{bug}/patch.diff'],
                           cwd=repo, capture_output=True, text=True)
        res['apply'] = (p.returncode, p.stderr)[bool(p.returncode)]
        t = subprocess.run(
            [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x',
             '--timeout=300', 'tests'], cwd=repo, capture_output=True,
            text=True, env=dict(ENV, PYTHONPATH=repo + '/src'))
        res['tests'] = t.stdout.strip().splitlines()[-1]
        res['patched'] = demo(bug, repo)
        if with_check:
            t0 = time.time()
            c = subprocess.run(
                [VERIF + '/check', meta['property'], 'quick'],
                capture_output=True, text=True,
                env=dict(os.environ, MC_REPO=repo, VERIF_SEED='1',
                         MC_EVIDENCE_DIR=root + '/evidence'))
            lines = [ln for ln in c.stdout.splitlines()
                     if ln.startswith('VIOLATION')]
            res['check'] = (c.returncode, len(lines),
                            round(time.time() - t0))
            if not lines:
                res['tail'] = (c.stdout + c.stderr).splitlines()[-3:]
    finally:
        shutil.rmtree(root)
    return res


def main():
    if sys.argv[1] == 'make':
        return make(sys.argv[2])
    args = sys.argv[2:]
    with_check = '-n' not in args
    bugs = [a for a in args if a != '-n'] or sorted(os.listdir(SEEDED))
    os.environ.setdefault('MC_JOBS', '2')
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda b: verify(b, with_check), bugs):
            ok = (r['apply'] == 0 and r['clean'] == 0 and r['patched'][0]
                  and 'failed' not in r['tests'] and 'error' not in r['tests'])
            print('OK ' if ok else 'BAD', r['bug'], r['property'],
                  'CAUGHT' if r.get('check', [0])[0] == 1 else 'MISSED',
                  r.get('check'), flush=True)
            if not ok or (with_check and r['check'][0] != 1):
                print('    ', r, flush=True)


main()
