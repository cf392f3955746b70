"""C03: startstop is a latch in which stop dominates."""
import numpy as np
from harness.packlib import barr, blist, bits, mkpack, runs

BOUNDS = ('triggers of length <= 5 (quick) / 7 (thorough), of equal or '
          'differing lengths, elements symbolic bools, ints or floats (NaN '
          'included), given as list, tuple, array, or iterator; all mask '
          'bits symbolic; two calls in sequence')
OUTSIDE = 'longer trigger sequences; triggers longer or shorter than the ' \
    'mask with apply=True'
ASSUMPTIONS = []


def latch(starts, stops):
    out, on = [], False
    for a, b in zip(starts, stops):
        if b:
            on = False
        elif a:
            on = True
        out.append(on)
    return out


def seq(env, tag, n, kind, how):
    if kind == 'bool':
        e = [env.bool('%s%d' % (tag, i)) for i in range(n)]
    elif kind == 'int':
        e = [env.int('%s%d' % (tag, i), -1, 2) for i in range(n)]
    else:
        e = [env.float('%s%d' % (tag, i)) for i in range(n)]
    v = {'list': lambda: list(e), 'tuple': lambda: tuple(e),
         'iter': lambda: iter(list(e)),
         'array': lambda: env.array(e, {'bool': bool, 'int': int,
                                        'float': float}[kind])}[how]()
    return e, v


def truths(env, e):
    out = []
    for x in e:
        out.append(bool(x))
    return out


def one(env, n1, n2, kinds, hows, n=None):
    """A single call on a pack with a symbolic mask."""
    apply = env.choice('apply', (True, False))
    m = min(n1, n2)
    n = m if n is None or apply else n
    pack, data = mkpack(env, n, keys=(0,), nan=False)
    pack.mask = barr(env, 'm', n)
    before = bits(pack.mask)
    e1, v1 = seq(env, 's', n1, kinds[0], hows[0])
    e2, v2 = seq(env, 'e', n2, kinds[1], hows[1])
    res = pack.startstop(v1, v2, apply=apply)
    want = latch(truths(env, e1), truths(env, e2))
    env.check(isinstance(res, np.ndarray) and res.dtype == np.dtype(bool),
              'the result is a bool array')
    env.check(bits(res) == want, 'the result is the latch')
    now = [a and b for a, b in zip(before, want)] if apply else before
    env.check(bits(pack.mask) == now, 'the mask is anded or left alone')
    env.check(list(pack.parts()) == list(range(len(runs(now)))),
              'parts follow the mask')


def twice(env, n):
    pack, data = mkpack(env, n, keys=(0,), nan=False)
    cur = [True] * n
    for j in range(2):
        a, b = blist(env, 's%d_' % j, n), blist(env, 'e%d_' % j, n)
        ap = env.choice('ap%d' % j, (True, False))
        res = pack.startstop(a, b, apply=ap)
        w = latch(bits(a), bits(b))
        env.check(bits(res) == w, 'latch')
        if ap:
            cur = [x and y for x, y in zip(cur, w)]
        env.check(bits(pack.mask) == cur, 'mask')


def long(env, n, where):
    pack, data = mkpack(env, n, keys=(0,), nan=False)
    s = [env.bool('s%d' % i) if i in where else i % 17 == 3
         for i in range(n)]
    e = [env.bool('e%d' % i) if i in where else i % 23 == 11
         for i in range(n)]
    res = pack.startstop(s, e)
    w = latch(bits(s), bits(e))
    env.check(bits(res) == w, 'latch')
    env.check(bits(pack.mask) == w, 'mask')


def cases(tier):
    n = 4 if tier == 'quick' else 6
    out = []
    for k1 in ('bool', 'int', 'float'):
        for k2 in ('bool', 'int', 'float'):
            out.append(dict(name='one:%s,%s' % (k1, k2), fn=one,
                            params=dict(n1=3, n2=3, kinds=(k1, k2),
                                        hows=('list', 'list'))))
    for h1 in ('list', 'tuple', 'iter', 'array'):
        for h2 in ('list', 'tuple', 'iter', 'array'):
            out.append(dict(name='how:%s,%s' % (h1, h2), fn=one,
                            params=dict(n1=3, n2=3, kinds=('bool', 'bool'),
                                        hows=(h1, h2))))
    for n1, n2 in ((0, 0), (0, 2), (1, 1), (2, 4), (4, 2), (1, 3), (n, n)):
        out.append(dict(name='len:%d,%d' % (n1, n2), fn=one,
                        params=dict(n1=n1, n2=n2, kinds=('bool', 'bool'),
                                    hows=('list', 'list'))))
        out.append(dict(name='masklen:%d,%d' % (n1, n2), fn=one,
                        params=dict(n1=n1, n2=n2, kinds=('bool', 'bool'),
                                    hows=('list', 'array'), n=3)))
    out.append(dict(name='twice', fn=twice, params=dict(n=3)))
    for w in ((0, 1, 97), (50, 51, 99)):
        out.append(dict(name='long:%s' % (w,), fn=long,
                        params=dict(n=100, where=w)))
    return out
