#!/opt/venv/bin/python
"""Decide one property:  check.py C01 [--tier quick|thorough]
                         check.py --replay evidence/replays/....json"""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('PYTHONHASHSEED', '0')

BUDGET = {'quick': 600, 'thorough': 3000}
# memory of one worker process
MEMORY = 8 << 30


def _init():
    import channelpack
    p = os.path.abspath(channelpack.__file__)
    if not p.startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit('channelpack imported from ' + p)


def _work(job):
    mod, idx, tier, deadline, twin = job
    from symx import run
    _init()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    import warnings
    warnings.simplefilter('ignore')
    h = importlib.import_module('harness.' + mod)
    case = h.cases(tier)[idx]
    import traceback
    try:
        r = run.explore(case['fn'], case.get('params', {}), deadline,
                        max_paths=case.get('max_paths'), twin=twin)
    except BaseException as e:
        r = dict(violations=[], mismatches=[], samples=[], validated=0,
                 complete=False, notes=[], unsupported=[],
                 errors=['%s\n%s' % (e, traceback.format_exc())],
                 stats={}, functions=[], wall=0)
    r['name'] = case['name']
    r['idx'] = idx
    r['twin'] = twin
    return r


def check(pid, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = pid.lower()
    h = importlib.import_module('harness.' + mod)
    cs = h.cases(tier)
    deadline = t0 + float(os.environ.get('SYMX_BUDGET', BUDGET[tier]))
    jobs = [(mod, i, tier, deadline, False) for i in range(len(cs))
            if only is None or only in cs[i]['name']]
    # reachability twins: the end of every harness must be reachable
    twins, seen = [], set()
    for i, c in enumerate(cs):
        if c['fn'].__name__ not in seen and (only is None or
                                             only in c['name']):
            seen.add(c['fn'].__name__)
            twins.append((mod, i, tier, deadline, True))
    results, reached = [], {}
    nproc = int(os.environ.get('SYMX_PROCS', '8'))
    stop = lost = False
    with multiprocessing.Pool(nproc, maxtasksperchild=8) as pool:
        it = pool.imap_unordered(_work, twins + jobs)
        for _ in twins + jobs:
            try:
                r = it.next(timeout=max(1, deadline + 100 - time.time()))
            except multiprocessing.TimeoutError:
                lost = stop = True
                break
            if verbose:
                print('  %-40s paths=%s q=%s %.1fs complete=%s viol=%d '
                      'mism=%d unsup=%s notes=%s' % (
                          r['name'] + (' (twin)' if r['twin'] else ''),
                          r['stats'].get('paths'),
                          r['stats'].get('queries'), r['wall'],
                          r['complete'], len(r['violations']),
                          len(r['mismatches']), r['unsupported'][:2],
                          r['notes']), flush=True)
                for e in r['errors']:
                    print(e)
            if r['twin']:
                reached[r['name']] = bool(r.get('reached') or
                                          r['unsupported'])
                results.append(r) if r['violations'] else None
            else:
                results.append(r)
            if r['violations'] and not verbose:
                stop = True
                break
        if stop:
            pool.terminate()
    if lost:
        print('INCONCLUSIVE a worker does not answer')
    return report(pid, tier, seed, h, cs, results, reached, t0, stop)


def report(pid, tier, seed, h, cs, results, reached, t0, stopped):
    agg = {}
    fns, samples, viols, mism, errors = set(), [], [], [], []
    complete, incomplete = 0, []
    for r in results:
        for k, v in r['stats'].items():
            agg[k] = agg.get(k, 0) + v
        fns |= set(r['functions'])
        if len(samples) < 12:
            samples += [dict(case=r['name'], **s) for s in r['samples'][:1]]
        viols += [dict(case=r['name'], idx=r['idx'], **v)
                  for v in r['violations']]
        mism += [dict(case=r['name'], **v) for v in r['mismatches']]
        errors += r['errors']
        if r['complete'] and not r['stats'].get('cut') and \
                not r['stats'].get('unsupported'):
            complete += 1
        else:
            incomplete.append(dict(case=r['name'], notes=r['notes'],
                                   cut=r['stats'].get('cut'),
                                   unsupported=r['unsupported'][:3]))
    vac = [k for k, v in reached.items() if not v]
    known = load_known()
    new = []
    for v in viols:
        k = [x for x in known if x['property'] == pid and
             x.get('case') in (None, v['case']) and
             x['match'] in (v['real'] or '')]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0]['what']))
        else:
            new.append(v)
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=agg.get('paths', 0),
            transitions=agg.get('decisions', 0),
            traces_validated_against_impl=sum(r['validated']
                                              for r in results),
            samples=samples,
            exhaustive=not incomplete and not stopped,
            functions_encoded=sorted(fns),
            bounds=getattr(h, 'BOUNDS', ''),
            outside_bounds=getattr(h, 'OUTSIDE', ''),
            claims_checked=agg.get('checks', 0),
            claims_discharged=agg.get('discharged', 0),
            solver_queries=agg.get('queries', 0),
            solver_time_s=round(agg.get('solver_s', 0.0), 3),
            values_realised=agg.get('realised', 0),
            cases_total=len(cs), cases_run=len(results),
            cases_exhausted=complete, cases_incomplete=incomplete[:20],
            harness_end_reachable=reached,
            unknown_verdicts=agg.get('unknown', 0),
            counterexamples_not_reproduced=len(mism),
            explanation='states = feasible symbolic paths; transitions = '
            'branch decisions put to z3; every path\'s model is replayed on '
            'the unmodified code (traces_validated_against_impl)'),
        assumptions=list(getattr(h, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 3), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    code = 0
    if new:
        d = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(new[:3]):
            p = os.path.join(d, '%s-%d.json' % (pid, n))
            with open(p, 'w') as f:
                json.dump(dict(property=pid, tier=tier, case=v['case'],
                               idx=v['idx'], inputs=v['inputs'],
                               claim=v['msg'], real=v['real']), f, indent=1,
                          default=str)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  case %s: %s' % (v['case'], v['real']))
        code = 1
    else:
        for m in mism[:5]:
            print('INCONCLUSIVE counterexample does not reproduce: %s %s %s' % (
                m['case'], m['msg'], m['inputs']))
        for e in errors[:5]:
            print('INCONCLUSIVE', e)
        for v in vac:
            print('INCONCLUSIVE harness end not reached:', v)
        if not ev['coverage']['traces_validated_against_impl']:
            # nothing was decided
            code = 2
    print('%s %s: %d/%d cases exhausted, %d paths, %d decisions, %d queries '
          '(%.1f s solver), %d/%d claims discharged, %d traces replayed, '
          '%.1f s' % (pid, tier, complete, len(cs), agg.get('paths', 0),
                      agg.get('decisions', 0), agg.get('queries', 0),
                      agg.get('solver_s', 0.0), agg.get('discharged', 0),
                      agg.get('checks', 0),
                      ev['coverage']['traces_validated_against_impl'],
                      ev['wall_s']))
    for i in incomplete[:5]:
        print('  INCONCLUSIVE part: %s' % i)
    return code


def load_known():
    p = os.path.join(HERE, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    out.append(json.loads(line))
    return [x for x in out if x.get('kind') == 'known']


def do_replay(path):
    with open(path) as f:
        r = json.load(f)
    _init()
    from symx import run
    h = importlib.import_module('harness.' + r['property'].lower())
    case = h.cases(r['tier'])[r['idx']]
    why = run.replay(case['fn'], case.get('params', {}), r['inputs'])
    print(json.dumps(r['inputs'], indent=1))
    print('REPRODUCED: ' + why if why else 'does not reproduce')
    return 1 if why else 0


def selftest():
    """The engine imports, the solver answers, the code is found."""
    import z3
    from symx import run
    _init()
    x = z3.Int('x')
    s = z3.Solver()
    s.add(x * x == 49, x > 0)
    assert s.check() == z3.sat and s.model()[x].as_long() == 7
    s.add(x != 7)
    assert s.check() == z3.unsat
    run.world().load('channelpack.pack')
    print('selftest ok: z3 %s' % z3.get_version_string())
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.replay:
        return do_replay(a.replay)
    return check(a.pid, a.tier, a.only, a.v)


if __name__ == '__main__':
    sys.exit(main())
