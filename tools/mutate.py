#!/usr/bin/env python3
"""Mutation analysis of the checks (development tool; no check uses it).

    mutate.py gen OUT.json             all mutants that pass the stable tests
    mutate.py run IN.json OUT.json     which checks catch them

Works on scratch copies of /repo under /tmp, which it removes.
"""
import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/fauxdoc/'
PY = '/opt/venv/bin/python'
FILES = ['dtrange.py', 'emitter.py', 'group.py', 'mathtools.py', 'mixins.py',
         'profile.py', 'warn.py', 'emitters/choice.py', 'emitters/fixed.py',
         'emitters/fromfields.py', 'emitters/text.py', 'emitters/wrappers.py']
MAP = {
    'dtrange.py': ['C15', 'C14', 'C18'],
    'emitter.py': ['C05', 'C23', 'C01'],
    'group.py': ['C16', 'C20', 'C23', 'C12'],
    'mathtools.py': ['C04', 'C21', 'C03'],
    'mixins.py': ['C23', 'C07', 'C17', 'C20', 'C24'],
    'profile.py': ['C11', 'C12', 'C07', 'C20'],
    'warn.py': ['C25'],
    'emitters/choice.py': ['C01', 'C02', 'C22', 'C18', 'C17', 'C21', 'C24'],
    'emitters/fixed.py': ['C06', 'C05', 'C18', 'C25'],
    'emitters/fromfields.py': ['C13', 'C07', 'C10', 'C20'],
    'emitters/text.py': ['C19', 'C09', 'C17', 'C07', 'C20', 'C24'],
    'emitters/wrappers.py': ['C10', 'C20', 'C07', 'C25', 'C18'],
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
CMP2 = {ast.Lt: '>', ast.Gt: '<', ast.LtE: '>=', ast.GtE: '<=', ast.Eq: 'is'}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+', '/'],
       ast.FloorDiv: ['*'], ast.Div: ['*', '//'], ast.Mod: ['*'],
       ast.Pow: ['*']}


def mutants(path):
    text = open(SRC + path).read()
    tree = ast.parse(text)
    lines = text.splitlines(True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = text.encode()

    def span(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def put(a, b, new, what):
        old = raw[a:b].decode()
        if old == new:
            return
        out.append({'file': path, 'a': a, 'b': b, 'old': old, 'new': new,
                    'what': what, 'line': raw[:a].count(b'\n') + 1})

    def rep(n, new, what):
        a, b = span(n)
        put(a, b, new, what)

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    docs = set()
    annos = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                docs.add(n.body[0])
        for f in ('annotation', 'returns'):
            x = getattr(n, f, None)
            if isinstance(x, ast.AST):
                for y in ast.walk(x):
                    annos.add(y)
        if isinstance(n, ast.ClassDef):
            for x in n.bases:
                for y in ast.walk(x):
                    annos.add(y)
    overloads = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and any(
                isinstance(d, ast.Name) and d.id == 'overload'
                for d in n.decorator_list):
            for y in ast.walk(n):
                overloads.add(y)
    for n in ast.walk(tree):
        if n in annos or n in overloads or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            left, right = seg(n.left), seg(n.comparators[0])
            for t in (CMP, CMP2):
                if type(n.ops[0]) in t:
                    rep(n, '(%s %s %s)' % (left, t[type(n.ops[0])], right),
                        'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for op in BIN[type(n.op)]:
                rep(n, '(%s %s %s)' % (seg(n.left), op, seg(n.right)),
                    'binop')
            rep(n, seg(n.left), 'left operand only')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(%s)' % op.join('(%s)' % seg(v) for v in n.values),
                'boolop')
            for v in n.values:
                rep(n, '(%s)' % seg(v), 'one side of a boolop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % seg(n.operand), 'not dropped')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, '(%s)' % seg(n.operand), 'minus dropped')
        elif isinstance(n, ast.IfExp):
            rep(n, '(%s)' % seg(n.body), 'always then')
            rep(n, '(%s)' % seg(n.orelse), 'always else')
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, 'True' if isinstance(n, ast.If) else 'False',
                'condition constant')
            rep(n.test, 'False', 'condition False')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, repr(not v), 'constant')
            elif isinstance(v, int):
                rep(n, repr(v + 1), 'constant')
                rep(n, repr(v - 1) if v else '(-1)', 'constant')
            elif isinstance(v, float):
                rep(n, repr(v * 1.5 + .25), 'constant')
            elif v is None:
                rep(n, '0', 'None to 0')
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n.value, 'None', 'returns None')
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg is None:
                    continue
                a, b = span(k)
                # drop it with the comma before or after
                t = raw[:a].rstrip()
                if t.endswith(b','):
                    put(len(t) - 1, b, '', 'kwarg dropped')
                elif raw[b:b + 1] == b',':
                    put(a, b + 1, '', 'kwarg dropped')
                else:
                    put(a, b, '', 'kwarg dropped')
            if len(n.args) >= 2:
                rep(n.args[0], seg(n.args[1]), 'argument replaced')
            if isinstance(n.func, ast.Name) and n.func.id in (
                    'list', 'tuple', 'set', 'str', 'int', 'sorted') and \
                    len(n.args) == 1:
                rep(n, '(%s)' % seg(n.args[0]), 'conversion dropped')
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    rep(x, '', 'slice bound dropped')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            rep(n.type, 'Exception' if seg(n.type) != 'Exception' else
                'KeyError', 'except wider')
            rep(n.type, 'ZeroDivisionError', 'except other')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign,
                          ast.Raise)) and n not in docs:
            if isinstance(n, ast.AnnAssign) and n.value is None:
                continue
            rep(n, 'pass', 'statement dropped')
        if isinstance(n, ast.AugAssign):
            rep(n, seg(n.target) + ' = ' + seg(n.value), 'augmentation '
                'dropped')
    seen = set()
    res = []
    for m in out:
        k = (m['a'], m['b'], m['new'])
        if k not in seen:
            seen.add(k)
            res.append(m)
    return res


LOCAL = threading.local()


def scratch():
    if not hasattr(LOCAL, 'root'):
        LOCAL.root = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
        shutil.copytree('/repo', LOCAL.root + '/repo', symlinks=True,
                        ignore=shutil.ignore_patterns('.git', '__pycache__'))
        ROOTS.append(LOCAL.root)
    return LOCAL.root + '/repo'


ROOTS = []
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
           PYTHONPYCACHEPREFIX='/nonexistent/no-pycache')


def apply(m):
    repo = scratch()
    raw = open(SRC + m['file'], 'rb').read()
    assert raw[m['a']:m['b']].decode() == m['old']
    new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
    open(repo + '/src/fauxdoc/' + m['file'], 'wb').write(new)
    return repo, new


def undo(m):
    shutil.copy(SRC + m['file'], scratch() + '/src/fauxdoc/' + m['file'])


def survives(m):
    try:
        repo, new = apply(m)
        try:
            compile(new, m['file'], 'exec')
        except SyntaxError:
            return False
        try:
            r = subprocess.run(
                ['prlimit', '--as=4000000000', PY, '-m', 'pytest', '-q', '-x',
                 '-p', 'no:cacheprovider', 'tests'], cwd=repo,
                env=dict(ENV, PYTHONPATH=repo + '/src'), capture_output=True,
                text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return False
        return '567 passed' in r.stdout and 'failed' not in r.stdout
    finally:
        undo(m)


def caught(m):
    try:
        repo, _ = apply(m)
        for pid in MAP[m['file']]:
            ev = tempfile.mkdtemp(prefix='mutev.', dir='/tmp')
            try:
                r = subprocess.run(
                    ['./check', pid, 'quick'], cwd=VERIF,
                    env=dict(os.environ, MC_REPO=repo, MC_EVIDENCE_DIR=ev),
                    capture_output=True, text=True, timeout=900)
                if r.returncode == 1:
                    return pid
                if r.returncode:
                    m.setdefault('errors', []).append(
                        (pid, r.returncode, r.stdout[-300:]))
            except subprocess.TimeoutExpired:
                m.setdefault('errors', []).append((pid, 'timeout', ''))
            finally:
                shutil.rmtree(ev)
        return None
    finally:
        undo(m)


def main():
    try:
        if sys.argv[1] == 'gen':
            ms = [m for f in (sys.argv[3:] or FILES) for m in mutants(f)]
            print(len(ms), 'mutants', flush=True)
            with cf.ThreadPoolExecutor(8) as ex:
                keep = [m for m, s in zip(ms, ex.map(survives, ms)) if s]
            json.dump(keep, open(sys.argv[2], 'w'), indent=1)
            print(len(keep), 'pass the tests')
        else:
            ms = json.load(open(sys.argv[2]))
            done = []
            with cf.ThreadPoolExecutor(int(os.environ.get('MUT_JOBS',
                                                          '2'))) as ex:
                for m, c in zip(ms, ex.map(caught, ms)):
                    m['caught'] = c
                    done.append(m)
                    json.dump(done, open(sys.argv[3], 'w'), indent=1)
                    print(c, m['file'], m['line'], m['what'], repr(
                        m['old'][:60]), '->', repr(m['new'][:60]), m.get(
                            'errors', ''), flush=True)
    finally:
        for r in ROOTS:
            shutil.rmtree(r, ignore_errors=True)


main()
