"""Mutation campaign (a development tool; no check uses it).

    /opt/venv/bin/python tools/mutate.py list
    /opt/venv/bin/python tools/mutate.py run OUT.jsonl [--seed N] [--count N]
        [--workers N] [--files REGEX]

Small changes, one at a time, are made to a scratch copy of /repo under
/tmp/mut, and the quick checks of the properties that are anchored in the
changed file are run against the copy.  What they miss is run through the
project's own tests.  Everything runs as an unprivileged user.
"""
import argparse
import ast
import glob
import json
import os
import random
import re
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/mut'
BASE = '/repo'

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*'}

FALLBACK = {
    'zounds/learn/': ['C24', 'C16', 'C17'], 'zounds/ui/': ['C22'],
    'zounds/datasets/': ['C23'], 'zounds/util/midi': ['C23'], 'zounds/synthesize/': ['C13', 'C10'],
    'zounds/spectral/': ['C12', 'C05'], 'zounds/soundfile/': ['C11', 'C10'],
    'zounds/timeseries/': ['C08', 'C09'], 'zounds/persistence/': ['C19'],
    'zounds/index/': ['C18'], 'zounds/util/': ['C24', 'C19']}


def source_files():
    for f in sorted(glob.glob(BASE + '/zounds/**/*.py', recursive=True)):
        b = os.path.basename(f)
        if b.startswith('test_') or b in ('fuzz_test.py',):
            continue
        yield os.path.relpath(f, BASE)


def mutants(path):
    src = open(os.path.join(BASE, path)).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def add(n, new, kind):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, kind, n.lineno))

    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._parent = n
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '(%s %s %s)' % (text(n.left), CMP[type(n.ops[0])],
                                   text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(
                    n.left, (ast.Constant, ast.JoinedStr)):
                continue
            add(n, '(%s %s %s)' % (text(n.left), BIN[type(n.op)],
                                   text(n.right)), 'bin')
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add(n, '%s = (%s) %s (%s)' % (
                text(n.target), text(n.target), BIN[type(n.op)],
                text(n.value)), 'aug')
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + j.join('(%s)' % text(v) for v in n.values) + ')',
                'bool')
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                add(n, '(bool(%s))' % text(n.operand), 'not')
            elif isinstance(n.op, ast.USub):
                add(n, '(%s)' % text(n.operand), 'neg')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, str(v + 1), 'const')
                if v > 0:
                    add(n, str(v - 1), 'const')
            elif isinstance(v, float):
                add(n, repr(v * 1.5 if v else 0.5), 'const')
            elif v is None and isinstance(
                    getattr(n, '_parent', None), ast.arguments):
                pass
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, '((%s) and False)' % text(n.test), 'never')
            if isinstance(n, ast.If):
                add(n.test, '((%s) or True)' % text(n.test), 'always')
        elif isinstance(n, ast.IfExp):
            add(n, '(%s)' % text(n.body), 'then')
            add(n, '(%s)' % text(n.orelse), 'else')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if 'super' not in text(n):
                add(n, 'pass', 'drop')
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            par = getattr(n, '_parent', None)
            if not (isinstance(par, ast.FunctionDef)
                    and par.name == '__init__'):
                add(n, 'pass', 'drop')
        elif isinstance(n, ast.Call):
            t = text(n)
            for k in n.keywords:
                if k.arg and k.arg not in ('needs',):
                    new = t.replace('%s=%s' % (k.arg, text(k.value)), '')
                    new = re.sub(r',\s*,', ',', new)
                    new = re.sub(r'\(\s*,', '(', new)
                    add(n, new, 'kw')
            if len(n.args) == 2 and not n.keywords:
                f = text(n.func)
                if f not in ('super', 'isinstance', 'hasattr'):
                    add(n, '%s(%s, %s)' % (f, text(n.args[1]),
                                           text(n.args[0])), 'swap')
            if len(n.args) == 1 and not n.keywords and isinstance(
                    n.func, (ast.Name, ast.Attribute)):
                f = text(n.func)
                if f in ('abs', 'np.abs', 'int', 'round', 'np.round',
                         'float', 'list', 'tuple', 'sorted', 'reversed',
                         'set', 'np.sqrt', 'np.log', 'np.exp', 'np.ceil',
                         'np.floor', 'np.asarray', 'np.squeeze', 'bytes'):
                    add(n, '(%s)' % text(n.args[0]), 'unwrap')
            if not n.args and not n.keywords and isinstance(
                    n.func, ast.Attribute) and n.func.attr in (
                    'copy', 'lower', 'strip', 'detach', 'ravel', 'squeeze'):
                add(n, text(n.func.value), 'unwrap')
            if isinstance(n.func, (ast.Name, ast.Attribute)):
                f = text(n.func)
                for a, b in (('min', 'max'), ('ceil', 'floor'),
                             ('argmin', 'argmax'), ('any', 'all'),
                             ('mean', 'sum'), ('zeros', 'ones'),
                             ('sin', 'cos'), ('append', 'extend'),
                             ('std', 'var'), ('floor', 'ceil'),
                             ('max', 'min'), ('all', 'any'),
                             ('cos', 'sin'), ('ones', 'zeros')):
                    if f == a or f.endswith('.' + a):
                        add(n.func, f[:-len(a)] + b, 'func')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n.lower, '', 'slice')
                add(n.lower, '(%s) + 1' % text(n.lower), 'slice')
            if n.upper is not None:
                add(n.upper, '', 'slice')
                add(n.upper, '(%s) - 1' % text(n.upper), 'slice')
        elif isinstance(n, ast.Subscript) and isinstance(
                n.slice, (ast.Name, ast.Attribute)):
            pass
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'pass', 'drop')
        elif isinstance(n, ast.Return) and n.value is not None:
            if isinstance(n.value, (ast.Call, ast.BinOp, ast.Name)):
                pass
    good = []
    for a, b, new, kind, line in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        good.append(dict(path=path, line=line, kind=kind, a=a, b=b, new=new,
                         old=raw[a:b].decode()))
    return good


def anchors():
    by = {}
    for l in open(HERE + '/properties.jsonl'):
        p = json.loads(l)
        for f in set(re.findall(r'zounds/[\w/]+\.py', l)):
            by.setdefault(f, []).append(p['id'])
    return by


def sh(cmd, user=True, **kw):
    if user:
        cmd = ['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups',
               'bash', '-c', cmd]
    else:
        cmd = ['bash', '-c', cmd]
    check = kw.pop('check', False)
    p = subprocess.Popen(
        cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
        start_new_session=True, **kw)
    got = p.stdout.readlines() if not user else []
    while user:
        line = p.stdout.readline()
        if not line:
            break
        got.append(line)
        if line.startswith('VIOLATION'):
            break
    if not (got and got[-1].startswith('VIOLATION')):
        p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    code = p.wait()
    p.stdout.close()
    assert not check or code == 0, cmd
    r = subprocess.CompletedProcess(cmd, code, ''.join(got))
    if got and got[-1].startswith('VIOLATION'):
        r.returncode = 1
    return r


def impatient(path):
    """failures are neither shrunk nor waited for"""
    s = open(path).read()
    a, b = 'Phase.target, Phase.shrink', "            f = result['failure']\n"
    assert a in s and b in s
    s = s.replace(a, 'Phase.target').replace(b, b + (
        "            print('VIOLATION property=%s part=%s' % ("
        "prop, part.name), flush=True)\n"
        "            time.sleep(30)\n"))
    open(path, 'w').write(s)


def worker(k, todo, lock, out, by, everything):
    w = '%s/%d' % (SCRATCH, k)
    env = dict(os.environ, HOME=w, TMPDIR=w + '/tmp', VERIF_SEED='1',
               VERIF_TIER='quick', VERIF_REPO=w + '/repo')
    while True:
        with lock:
            if not todo:
                return
            m = todo.pop()
        f = os.path.join(w, 'repo', m['path'])
        raw = open(os.path.join(BASE, m['path']), 'rb').read()
        open(f, 'wb').write(
            raw[:m['a']] + m['new'].encode() + raw[m['b']:])
        res = dict(m)
        began = time.time()
        try:
            caught = None
            props = by.get(m['path']) or [
                c for f, cs in FALLBACK.items() if f in m['path']
                for c in cs]
            res['props'] = props
            for c in (props or everything):
                r = sh('cd %s/verif && timeout 150 ./run_check.sh %s' % (w, c),
                       env=env)
                if r.returncode != 0:
                    v = [x for x in r.stdout.splitlines()
                         if x.startswith('VIOLATION')]
                    caught = (c, r.returncode, v[:1])
                    break
            res['caught'] = caught
            if caught is None:
                t = sh('''. /opt/vp/env.sh; cd %s/repo
                    export PYTHONPATH=/opt/vp/plugins:%s/repo
                    export PYTHONDONTWRITEBYTECODE=1
                    export HOME=%s
                    timeout 400 $PY -m pytest -x -p zounds_seed -q -n 4 \
                    -p no:cacheprovider --timeout=120 -W ignore --tb=no \
                    zounds | tail -1''' % (w, w, w), env=env)
                res['tests'] = t.stdout.strip()[-120:]
        finally:
            open(f, 'wb').write(raw)
        res['wall'] = round(time.time() - began, 1)
        with lock:
            with open(out, 'a') as fh:
                fh.write(json.dumps(res) + '\n')


def main():
    p = argparse.ArgumentParser()
    p.add_argument('what', choices=['list', 'run'])
    p.add_argument('out', nargs='?')
    p.add_argument('--seed', type=int, default=0)
    p.add_argument('--count', type=int, default=10 ** 9)
    p.add_argument('--workers', type=int, default=4)
    p.add_argument('--files', default='')
    p.add_argument('--per-file', type=int, default=10 ** 9)
    p.add_argument('--verif', default=HERE)
    a = p.parse_args()
    every = [m for f in source_files() if re.search(a.files, f)
             for m in mutants(f)]
    if a.what == 'list':
        n = {}
        for m in every:
            n[m['path']] = n.get(m['path'], 0) + 1
        for f, c in sorted(n.items(), key=lambda x: x[1]):
            print(c, f)
        print(len(every))
        return
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            m = json.loads(l)
            done.add((m['path'], m['a'], m['b'], m['new']))
    random.Random(a.seed).shuffle(every)
    seen = {}
    for m in every:
        seen.setdefault(m['path'], []).append(m)
    every = [m for i in range(a.per_file) for ms in seen.values()
             for m in ms[i:i + 1]] if a.per_file < 1000 else every
    todo = [m for m in every
            if (m['path'], m['a'], m['b'], m['new']) not in done][:a.count]
    todo.reverse()
    for k in range(a.workers):
        w = '%s/%d' % (SCRATCH, k)
        sh('mkdir -p %s/tmp && chmod 1777 %s/tmp && cp -a %s %s/repo && '
           'cp -a %s %s/verif && chown -R 65534:65534 %s && chmod 755 %s'
           % (w, w, BASE, w, a.verif, w, w, SCRATCH), user=False, check=True)
        impatient(w + '/verif/vlib/runner.py')
    lock = threading.Lock()
    by, ever = anchors(), ['C%02d' % i for i in range(1, 25)]
    ts = [threading.Thread(target=worker, args=(
        k, todo, lock, a.out, by, ever)) for k in range(a.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == '__main__':
    main()
