#!/opt/venv/bin/python
"""Mutation sweep, to find gaps in the checks (a development tool; no check
uses it).

mutate.py FILE PROPS [--funcs a,b] [--max N] [--seed S] [--jobs J] > report

Each mutant of the encoded functions of FILE that passes the tests is put to
the quick checks of PROPS (comma separated); those that no check reports are
listed for a decision by hand: equivalent, outside of the properties, or a
gap."""
import argparse
import ast
import concurrent.futures as cf
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: (ast.LtE, ast.GtE), ast.LtE: (ast.Lt,), ast.Gt: (ast.GtE,),
       ast.GtE: (ast.Gt,), ast.Eq: (ast.NotEq,), ast.NotEq: (ast.Eq,),
       ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,), ast.In: (ast.NotIn,),
       ast.NotIn: (ast.In,)}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
       ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd, ast.RShift: ast.LShift,
       ast.LShift: ast.RShift}


def sites(tree, funcs):
    """(function name, description, mutator) of each mutation."""
    out = []

    def walk(node, fn):
        for name, val in ast.iter_fields(node):
            for k, x in enumerate(val) if isinstance(val, list) else (
                    (None, val),):
                if not isinstance(x, ast.AST):
                    continue
                f = fn
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    f = (fn + '.' if fn else '') + x.name
                if fn and (funcs is None or fn in funcs):
                    muts(node, name, k, x, fn)
                walk(x, f)

    def muts(parent, field, k, x, fn):
        def put(new):
            def do():
                if k is None:
                    setattr(parent, field, new)
                else:
                    getattr(parent, field)[k] = new
            return do

        def add(what, new):
            out.append((fn, getattr(x, 'lineno', 0), what + ': ' +
                        ast.unparse(x)[:70] + '  ->  ' +
                        ast.unparse(new)[:70], put(new)))
        if isinstance(x, ast.Compare):
            for alt in CMP.get(type(x.ops[0]), ()):
                n = copy.deepcopy(x)
                n.ops[0] = alt()
                add('cmp', n)
        if isinstance(x, ast.BoolOp):
            n = copy.deepcopy(x)
            n.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            add('bool', n)
            for i in range(len(x.values)):
                n = copy.deepcopy(x)
                del n.values[i]
                add('drop', n if len(n.values) > 1 else n.values[0])
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            add('not', x.operand)
        if isinstance(x, ast.BinOp) and type(x.op) in BIN and not (
                isinstance(x.left, ast.Constant) and
                isinstance(x.left.value, str)):
            n = copy.deepcopy(x)
            n.op = BIN[type(x.op)]()
            add('bin', n)
        if isinstance(x, ast.Constant) and type(x.value) is int:
            add('const', ast.Constant(x.value + 1))
            if x.value:
                add('const', ast.Constant(x.value - 1))
        if isinstance(x, ast.Constant) and type(x.value) is bool:
            add('const', ast.Constant(not x.value))
        if isinstance(x, (ast.If, ast.While)) and field in (
                'body', 'orelse', 'finalbody'):
            n = copy.deepcopy(x)
            n.test = ast.UnaryOp(ast.Not(), n.test)
            add('neg', n)
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                          ast.Continue, ast.Break)) and not (
                isinstance(x, ast.Expr) and
                isinstance(x.value, ast.Constant)):
            add('del', ast.Pass())
        if isinstance(x, ast.Slice):
            for a in ('lower', 'upper'):
                if getattr(x, a) is not None:
                    n = copy.deepcopy(x)
                    setattr(n, a, None)
                    add('slice', n)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ('sorted', 'list', 'int', 'float', 'set',
                              'abs') and len(x.args) == 1:
            add('call', x.args[0])
        if isinstance(x, ast.IfExp):
            add('ifexp', x.body)
            add('ifexp', x.orelse)
    walk(tree, '')
    return out


def sh(cmd, cwd, timeout, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def one(job):
    file, src, i, funcs, props, verif = job
    tree = ast.parse(src)
    fn, line, what, do = sites(tree, funcs)[i]
    do()
    ast.fix_missing_locations(tree)
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        repo = d + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns(
            '.git', '__pycache__', '.pytest_cache'))
        with open(os.path.join(repo, file), 'w') as f:
            f.write(ast.unparse(tree))
        env = dict(PYTHONPATH=repo, PYTHONHASHSEED='0', MPLBACKEND='Agg',
                   TZ='UTC')
        base = [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                '--rootdir=' + repo, '-x']
        for cwd, args in ((repo + '/tests', ['--ignore=xlrd', '.']),
                          (repo, ['tests/xlrd']),
                          (repo, ['--doctest-glob=*.rst', 'README.rst',
                                  'docs'])):
            code, txt = sh(base + args, cwd, 120, **env)
            if code:
                return ('tests', fn, line, what)
        for p in props:
            code, txt = sh([PY, 'check.py', p, '--tier', 'quick'], verif,
                           400, SYMX_REPO=repo, SYMX_PROCS='2',
                           SYMX_BUDGET='250')
            if code == 1:
                return ('caught by ' + p, fn, line, what)
            if code:
                return ('exit %d %s' % (code, p), fn, line,
                        what + '\n' + txt[-600:])
        return ('MISSED', fn, line, what)
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('props')
    ap.add_argument('--funcs')
    ap.add_argument('--max', type=int, default=10 ** 6)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=4)
    a = ap.parse_args()
    src = open(os.path.join('/repo', a.file)).read()
    mod = a.file[:-3].replace('/', '.')
    if mod.endswith('.__init__'):
        mod = mod[:-9]
    funcs = set()
    for p in glob.glob(VERIF + '/evidence/C*.json'):
        for f in json.load(open(p))['coverage']['functions_encoded']:
            if f.startswith(mod + '.'):
                funcs.add(f[len(mod) + 1:])
    if a.funcs:
        funcs &= set(a.funcs.split(','))
    n = len(sites(ast.parse(src), funcs))
    idx = list(range(n))
    random.Random(a.seed).shuffle(idx)
    idx = idx[:a.max]
    scratch = tempfile.mkdtemp(prefix='mutv-')
    for x in ('symx', 'harness', 'check.py', 'known-findings.jsonl'):
        s = os.path.join(VERIF, x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(
            s, os.path.join(scratch, x))
    print('%d mutants of %s, %d tried' % (n, a.file, len(idx)), flush=True)
    count = {}
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            for r in ex.map(one, [(a.file, src, i, funcs,
                                   a.props.split(','), scratch)
                                  for i in idx]):
                k = r[0].split()[0]
                count[k] = count.get(k, 0) + 1
                if k not in ('tests',):
                    print('%s | %s:%d | %s' % r, flush=True)
    finally:
        shutil.rmtree(scratch)
    print(count)


if __name__ == '__main__':
    sys.exit(main())
