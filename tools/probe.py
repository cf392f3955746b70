#!/opt/venv/bin/python
"""Try hand-written changes against the quick checks (a development tool; no
check uses it).

probe.py FILE [--jobs J] [--ids a,b]    FILE defines PROBES, a list of
(id, property, file, old, new); prints for each: tests (the tests fail),
caught, MISSED or the odd exit status."""
import argparse
import concurrent.futures as cf
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import sh, PY, VERIF       # noqa


def one(job):
    (pid, prop, edits), verif = job
    d = tempfile.mkdtemp(prefix='probe-')
    try:
        repo = d + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns(
            '.git', '__pycache__', '.pytest_cache'))
        for file, old, new in edits:
            p = os.path.join(repo, 'channelpack', file)
            s = open(p).read()
            if s.count(old) != 1:
                return pid, prop, 'BAD EDIT (%d)' % s.count(old), old
            with open(p, 'w') as f:
                f.write(s.replace(old, new))
        env = dict(PYTHONPATH=repo, PYTHONHASHSEED='0', MPLBACKEND='Agg',
                   TZ='UTC')
        base = [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                '--rootdir=' + repo, '-x']
        for cwd, args in ((repo + '/tests', ['--ignore=xlrd', '.']),
                          (repo, ['tests/xlrd']),
                          (repo, ['--doctest-glob=*.rst', 'README.rst',
                                  'docs'])):
            code, txt = sh(base + args, cwd, 120, **env)
            if code:
                return pid, prop, 'tests', txt[-300:]
        code, txt = sh([PY, 'check.py', prop, '--tier', 'quick'], verif,
                       800, SYMX_REPO=repo, SYMX_PROCS='3')
        if code == 1:
            return pid, prop, 'caught', ''
        return (pid, prop, 'MISSED' if code == 0 else 'exit %d' % code,
                '' if code == 0 else txt[-800:])
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--ids')
    a = ap.parse_args()
    ns = {}
    with open(a.file) as f:
        exec(f.read(), ns)
    probes = [(p[0], p[1], [p[2:]] if isinstance(p[2], str) else p[2])
              for p in ns['PROBES']]
    if a.ids:
        probes = [p for p in probes if p[0] in a.ids.split(',')]
    scratch = tempfile.mkdtemp(prefix='probev-')
    for x in ('symx', 'harness', 'check.py', 'known-findings.jsonl'):
        s = os.path.join(VERIF, x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(
            s, os.path.join(scratch, x))
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            for r in ex.map(one, [(p, scratch) for p in probes]):
                print('%-5s %s %s %s' % r, flush=True)
    finally:
        shutil.rmtree(scratch)


if __name__ == '__main__':
    main()
