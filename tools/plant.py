#!/opt/venv/bin/python
"""Make, confirm and try the planted bugs (seeded/).

plant.py make [ID...]   build patch.diff, demo.sh, meta.json in seeded/ID and
                        confirm: applies, tests pass, demo 0 before / 1 after
plant.py try [ID...]    run the checks of the property against the bug, in a
                        scratch copy of /repo (SYMX_REPO)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plants import BUGS       # noqa

PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    sh(['git', 'clone', '-q', '/repo', d + '/repo'])
    return d, d + '/repo'


def tests(repo):
    env = dict(PYTHONPATH=repo, PYTHONHASHSEED='0', MPLBACKEND='Agg',
               TZ='UTC', LANG='C.UTF-8', LC_ALL='C.UTF-8')
    base = [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
            '--rootdir=' + repo, '-x']
    out = []
    for cwd, args in ((repo + '/tests', ['--ignore=xlrd', '.']),
                      (repo, ['tests/xlrd']),
                      (repo, ['--doctest-glob=*.rst', 'README.rst', 'docs'])):
        r = sh(base + args, cwd, env)
        out.append((r.returncode, r.stdout[-800:]))
    return out


def apply_edits(repo, bug):
    for f, old, new in bug['edits']:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(old) == 1, (bug['id'], f, s.count(old), old)
        with open(p, 'w') as h:
            h.write(s.replace(old, new))


def make(bug):
    d, repo = copy()
    try:
        out = os.path.join(VERIF, 'seeded', bug['id'])
        os.makedirs(out, exist_ok=True)
        with open(out + '/demo.py', 'w') as f:
            f.write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n'
                    'sys.dont_write_bytecode = True\n' +
                    bug['demo'].lstrip('\n'))
        with open(out + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python '
                    '"$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        with open(out + '/meta.json', 'w') as f:
            json.dump(dict(property=bug['property'], needs=bug['needs'],
                           what_it_breaks=bug['breaks']), f, indent=1)
            f.write('\n')
        r = sh(['bash', out + '/demo.sh'], repo)
        if r.returncode:
            return 'demo fails on the clean tree: ' + r.stdout[-500:]
        apply_edits(repo, bug)
        p = sh(['git', 'diff'], repo).stdout
        with open(out + '/patch.diff', 'w') as f:
            f.write(p)
        r = sh(['bash', out + '/demo.sh'], repo)
        if not r.returncode:
            return 'demo passes with the bug'
        last = r.stdout.strip().splitlines()[-1:]
        for code, txt in tests(repo):
            if code:
                return 'tests fail: ' + txt
        return 'ok (%s)' % last
    finally:
        shutil.rmtree(d)


def tryout(bug):
    d, repo = copy()
    try:
        apply_edits(repo, bug)
        r = sh([PY, 'check.py', bug['property'], '--tier', 'quick'], VERIF,
               dict(SYMX_REPO=repo))
        v = [x for x in r.stdout.splitlines()
             if x.startswith(('VIOLATION', '  case', 'ERROR'))]
        return 'exit %d %s' % (r.returncode, v[:2] or r.stdout[-300:])
    finally:
        shutil.rmtree(d)


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    for b in BUGS:
        if ids and b['id'] not in ids and b['property'] not in ids:
            continue
        print(b['id'], b['property'], (make if what == 'make' else
                                       tryout)(b), flush=True)


if __name__ == '__main__':
    main()
