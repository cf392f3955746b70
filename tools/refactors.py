#!/opt/venv/bin/python
"""Trials with rewritings that keep the behaviour (a development tool; no
check uses it): the checks have to stay quiet and conclusive on each.

refactors.py [--jobs J] [name or property ...]"""
import concurrent.futures as cf
import os
import re
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from mutate import PY, sh  # noqa: E402

P = 'channelpack/pack.py'
D = 'channelpack/datautils.py'
T = 'channelpack/readtext.py'
B = 'channelpack/dbf.py'
X = 'channelpack/readxl.py'
XD = 'channelpack/xlrd/xldate.py'
XX = 'channelpack/xlrd/xlsx.py'
XS = 'channelpack/xlrd/sheet.py'
XB = 'channelpack/xlrd/book.py'
XC = 'channelpack/xlrd/compdoc.py'
XF = 'channelpack/xlrd/formatting.py'
XH = 'channelpack/xlrd/biffh.py'

TRIALS = {}


def trial(name, props, file, *edits):
    TRIALS.setdefault(name, (props.split(','), []))[1].append((file, edits))


exec(open(os.path.join(HERE, 'refactor_list.py')).read())


def one(name, verif):
    props, files = TRIALS[name]
    d = tempfile.mkdtemp(prefix='ref-')
    try:
        repo = d + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns(
            '.git', '__pycache__', '.pytest_cache'))
        for file, edits in files:
            p = os.path.join(repo, file)
            s = open(p).read()
            for old, new in edits:
                if s.count(old) < 1:
                    return name, 'EDIT DOES NOT APPLY: ' + old[:60]
                s = s.replace(old, new)
            open(p, 'w').write(s)
        env = dict(PYTHONPATH=repo, PYTHONHASHSEED='0', MPLBACKEND='Agg',
                   TZ='UTC')
        base = [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                '--rootdir=' + repo, '-x']
        for cwd, args in ((repo + '/tests', ['--ignore=xlrd', '.']),
                          (repo, ['tests/xlrd'])):
            rc, out = sh(base + args, cwd, 300, **env)
            if rc != 0 and not known(out):
                return name, 'TESTS FAIL\n' + out[-1500:]
        res = []
        for pr in props:
            t = time.time()
            rc, out = sh([PY, 'check.py', pr, '--tier', 'quick'], verif, 900,
                         SYMX_REPO=repo, SYMX_PROCS='2')
            bad = [l for l in out.splitlines() if re.search(
                r'VIOLATION|INCONCLUSIVE|KNOWN|Traceback|Error|UNSUPP', l)]
            res.append('%s rc=%d %.0fs %s' % (
                pr, rc, time.time() - t, 'QUIET' if rc == 0 and not bad
                else 'BAD\n      ' + '\n      '.join(bad[:6])))
        return name, '\n    '.join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known(out):
    return False


def main():
    args = sys.argv[1:]
    jobs = 4
    if '--jobs' in args:
        i = args.index('--jobs')
        jobs = int(args[i + 1])
        del args[i:i + 2]
    names = [n for n in TRIALS if not args or any(
        a == n or a in TRIALS[n][0] or n.startswith(a) for a in args)]
    if args and all(re.match(r'C\d\d$', a) for a in args):
        for n in names:
            TRIALS[n] = ([p for p in TRIALS[n][0] if p in args],
                         TRIALS[n][1])
    d = tempfile.mkdtemp(prefix='refv-')
    try:
        for s in ('symx', 'harness', 'check.py', 'known-findings.jsonl',
                  'properties.jsonl', 'MANIFEST.json'):
            p = os.path.join(VERIF, s)
            (shutil.copytree if os.path.isdir(p) else shutil.copy)(
                p, os.path.join(d, s))
        os.makedirs(d + '/evidence', exist_ok=True)
        with cf.ThreadPoolExecutor(jobs) as ex:
            futs = [ex.submit(one, n, d) for n in names]
            for f in cf.as_completed(futs):
                n, r = f.result()
                print('%s\n    %s' % (n, r), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
