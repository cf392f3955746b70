"""Exploring one case of a property and replaying what it finds."""
import contextlib
import io
import signal
import time
import traceback
import z3
from . import core, env as envm
from .core import (Engine, PathInfeasible, PathCut, Unsupported, OutOfTime,
                   FoundViolation, Nondeterminism)

WORLD = None


def world():
    global WORLD
    if WORLD is None:
        from . import rewrite
        WORLD = rewrite.World()
    return WORLD


def jsonable(inputs):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, float) and v != v:
            v = None
        out[k] = v
    return out


class Endless(BaseException):
    """The code runs on and on."""


# seconds without a question to the solver, and of one run of the real code
QUIET, REAL = 45, 30


@contextlib.contextmanager
def watched(limit, progress=lambda: 0):
    """Raise Endless in the body when progress() stands still for limit
    seconds."""
    last = [progress(), time.time()]

    def tick(*a):
        p = progress()
        if p != last[0]:
            last[:] = [p, time.time()]
        elif time.time() - last[1] > limit:
            last[1] = time.time()
            raise Endless('no end within %d s' % limit)
    old = signal.signal(signal.SIGALRM, tick)
    oldt = signal.setitimer(signal.ITIMER_REAL, 2, 2)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, *oldt)
        signal.signal(signal.SIGALRM, old)


def replay(fn, params, inputs):
    """Run the harness on the real modules; None if it holds, else a text."""
    try:
        with watched(REAL):
            return _replay(fn, params, inputs)
    except Endless as e:
        return 'the code does not end: %s' % e


def _replay(fn, params, inputs):
    saved, core.ENG = core.ENG, None
    e = envm.ConcEnv(inputs)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn(e, **params)
        return None
    except envm.CheckFailed as x:
        return 'claim fails: %s' % x
    except envm.AssumeFailed:
        return None
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)[-1]
        return 'unexpected %s: %s (%s:%s)' % (type(x).__name__, x,
                                              tb.filename, tb.lineno)
    finally:
        e.close()
        core.ENG = saved


def explore(fn, params, deadline, max_paths=None, validate=True,
            max_violations=1, twin=False):
    """Explore every path of one harness case.

    Returns a dict of measurements, violations (reproduced on the real code)
    and mismatches (solver counterexamples that do not reproduce)."""
    eng = Engine(deadline=deadline)
    w = world()
    res = dict(violations=[], mismatches=[], samples=[], validated=0,
               complete=False, notes=[], unsupported=[], errors=[])
    t0 = time.time()
    core.ENG = eng
    try:
        while True:
            eng.begin_path()
            env = envm.SymEnv(eng, w)
            status, msg, inputs = 'ok', '', None
            try:
                with contextlib.redirect_stdout(io.StringIO()), watched(
                        QUIET, lambda: eng.stats['queries'] +
                        eng.stats['decisions']):
                    fn(env, **params)
                if twin:
                    env.check(False, 'reachability twin')
            except PathInfeasible:
                status = 'infeasible'
            except PathCut as e:
                status, msg = 'cut', str(e)
            except Unsupported as e:
                status, msg = 'unsupported', str(e)
            except FoundViolation as e:
                status, msg, inputs = 'violation', e.msg, e.inputs
            except OutOfTime:
                res['notes'].append('time budget reached')
                break
            except Nondeterminism as e:
                res['errors'].append('nondeterminism: %s' % e)
                break
            except (Exception, Endless) as e:
                tb = traceback.extract_tb(e.__traceback__)
                status = 'exception'
                msg = '%s: %s [%s]' % (
                    type(e).__name__, e,
                    ' < '.join('%s:%s' % (f.filename.split('/')[-1],
                                          f.lineno) for f in tb[::-1][:6]))
            if twin and status == 'violation':
                res['reached'] = True
                break
            if status == 'infeasible':
                eng.stats['infeasible'] += 1
            else:
                eng.stats['paths'] += 1
                if status in ('cut', 'unsupported'):
                    eng.stats[status] += 1
                    if len(res['unsupported']) < 5:
                        res['unsupported'].append(status + ': ' + msg)
                if inputs is None and (validate or status != 'ok'):
                    inputs = eng.witness()
                if inputs is not None:
                    why = replay(fn, params, inputs)
                    if status in ('violation', 'exception') or why:
                        rec = dict(msg=msg, status=status, real=why,
                                   inputs=jsonable(inputs), params=params)
                        if why:
                            res['violations'].append(rec)
                            if len(res['violations']) >= max_violations:
                                res['notes'].append('stopped at violation')
                                break
                        elif status == 'exception':
                            # the real code does not raise here: the
                            # encoding met something it cannot execute
                            eng.stats['unsupported'] += 1
                            if len(res['unsupported']) < 5:
                                res['unsupported'].append(msg)
                        else:
                            if len(res['mismatches']) < 5:
                                res['mismatches'].append(rec)
                            else:
                                break
                    else:
                        res['validated'] += 1
                        if len(res['samples']) < 2:
                            res['samples'].append(
                                dict(params=str(params),
                                     inputs=jsonable(inputs)))
            if max_paths and eng.stats['paths'] >= max_paths:
                res['notes'].append('path budget reached')
                break
            if not eng.next_path():
                res['complete'] = True
                break
    except OutOfTime:
        res['notes'].append('time budget reached')
    finally:
        core.ENG = None
    res['stats'] = eng.stats
    res['functions'] = sorted(eng.functions)
    res['notes'] += eng.notes[:5]
    res['wall'] = time.time() - t0
    return res
