"""C10: data holds flat arrays under integer keys, however it got there."""
import numpy as np
from harness.packlib import farr

BOUNDS = ('up to 2 items per operation and 2 operations; keys symbolic '
          'integers -2..3 or one of 6 non-integers; values lists, tuples, '
          'ranges, arrays (symbolic floats/ints) of length 0..3, or one of 5 '
          'values that are not flat; routes: construction and update from '
          'dict / list of pairs / iterator, item assignment, setdefault, '
          'in-place union, attribute assignment; data and names')
OUTSIDE = 'keyword arguments; mappings that are not dicts'
ASSUMPTIONS = []

BADKEYS = ('a', 1.0, None, (1, 2), '1', 2 + 0j)
BADVALS = (5, 'abc', [[1, 2], [3, 4]], None, np.zeros((2, 2)))
ROUTES = ('init_dict', 'init_pairs', 'init_iter', 'setitem', 'update_dict',
          'update_pairs', 'update_iter', 'setdefault', 'ior', 'attr_dict',
          'attr_pairs', 'attr_iter', 'update_lists')


def good_value(env, tag):
    k = env.choice(tag + 'k', ('list', 'tuple', 'farray', 'iarray', 'range',
                               'empty'))
    if k == 'list':
        v = [env.float(tag + 'a'), env.float(tag + 'b')]
        return v, list(v)
    if k == 'tuple':
        v = (env.int(tag + 'a', -3, 3),)
        return v, list(v)
    if k == 'farray':
        v = farr(env, tag, 3)
        return v, list(v)
    if k == 'iarray':
        v = env.array([env.int(tag + 'a', -3, 3)], int)
        return v, list(v)
    if k == 'range':
        return range(3), [0, 1, 2]
    return [], []


def holder(P, which, data=None):
    """The dict under test, reached through the public pack."""
    pack = P.ChannelPack({7: [1.0, 2.0]} if which == 'data' else None,
                         {7: 'seven'} if which == 'names' else None)
    return pack


def put(P, pack, which, route, items):
    d = getattr(pack, which)
    if route == 'init_dict':
        p = P.ChannelPack(**{which: dict(items)})
        return p
    if route == 'init_pairs':
        return P.ChannelPack(**{which: [tuple(i) for i in items]})
    if route == 'init_iter':
        return P.ChannelPack(**{which: iter([tuple(i) for i in items])})
    if route == 'setitem':
        for k, v in items:
            d[k] = v
    elif route == 'update_dict':
        d.update(dict(items))
    elif route == 'update_pairs':
        d.update([tuple(i) for i in items])
    elif route == 'update_lists':
        d.update([list(i) for i in items])
    elif route == 'update_iter':
        d.update(iter([tuple(i) for i in items]))
    elif route == 'setdefault':
        for k, v in items:
            d.setdefault(k, v)
    elif route == 'ior':
        d |= dict(items)
        setattr(pack, which, d)
    elif route == 'attr_dict':
        setattr(pack, which, dict(items))
    elif route == 'attr_pairs':
        setattr(pack, which, [tuple(i) for i in items])
    elif route == 'attr_iter':
        setattr(pack, which, iter([tuple(i) for i in items]))
    return pack


def conc(env, key, lo=-2, hi=3):
    for k in range(lo, hi + 1):
        if bool(key == k):
            return k


def verify(env, pack, which, model):
    d = getattr(pack, which)
    env.check(sorted(int(k) for k in d) == sorted(model), 'the keys')
    for k in d:
        env.check(isinstance(int(k), int) and not isinstance(k, str),
                  'integer keys')
    for k, (v, elems) in model.items():
        got = d[k]
        if which == 'data':
            env.check(isinstance(got, np.ndarray) and got.ndim == 1,
                      'flat arrays')
            env.check_same(list(got), elems, 'the values')
            if isinstance(v, np.ndarray):
                env.check(got.dtype == v.dtype, 'an array keeps its type')
            env.check_same(list(pack(k, nof='ignore')), elems, 'callable')
        else:
            env.check(got is v, 'the names')


def good(env, which, route, nitems):
    P = env.load('channelpack.pack')
    pack = holder(P, which)
    model = {7: (None, [1.0, 2.0])} if which == 'data' else \
        {7: ('seven', None)}
    if which == 'names':
        model = {7: (pack.names[7], None)}
    if route.startswith(('init', 'attr')):
        model = {}
    items = []
    for j in range(nitems):
        k = conc(env, env.int('k%d' % j, -2, 3))
        if which == 'data':
            v, e = good_value(env, 'v%d_' % j)
        else:
            v, e = 'name%d' % j, None
        items.append((k, v))
        if route == 'setdefault' and k in model:
            continue
        model[k] = (v, e)
    pack = put(P, pack, which, route, items)
    verify(env, pack, which, model)


def bad(env, which, route, where):
    """One bad item among good ones: an error, and nothing changed."""
    P = env.load('channelpack.pack')
    pack = holder(P, which)
    before = dict(getattr(pack, which))
    mask = list(pack.mask)
    what = env.choice('what', ('key', 'value') if which == 'data'
                      else ('key',))
    items = []
    for j in range(2):
        items.append((j, [env.float('g%d' % j)] if which == 'data'
                      else 'g%d' % j))
    if what == 'key':
        b = env.choice('bad', BADKEYS)
        items[where] = (b, items[where][1])
        exc = TypeError
    else:
        b = env.choice('bad', BADVALS)
        items[where] = (where, b)
        exc = ValueError
    if route in ('setitem', 'setdefault'):
        items = [items[where]]
    env.raises(exc, put, P, pack, which, route, items)
    now = dict(getattr(pack, which))
    env.check(sorted(now) == sorted(before), 'a failing change adds nothing')
    for k in before:
        env.check(now[k] is before[k], 'a failing change alters nothing')
    env.check(list(pack.mask) == mask, 'nor the mask')


def default(env, which):
    P = env.load('channelpack.pack')
    pack = holder(P, which)
    d = getattr(pack, which)
    k = env.choice('k', (7, 1))
    v = [env.float('x')] if which == 'data' else 'new'
    old = d.get(k)
    r = d.setdefault(k, v)
    env.check(r is d[k], 'setdefault returns the stored value')
    if old is not None:
        env.check(d[k] is old, 'setdefault keeps what is there')


def cases(tier):
    out = []
    for which in ('data', 'names'):
        for r in ROUTES:
            for n in (0, 1, 2):
                out.append(dict(name='good:%s:%s:%d' % (which, r, n),
                                fn=good, params=dict(which=which, route=r,
                                                     nitems=n)))
            for w in (0, 1):
                out.append(dict(name='bad:%s:%s:%d' % (which, r, w), fn=bad,
                                params=dict(which=which, route=r, where=w)))
        out.append(dict(name='default:%s' % which, fn=default,
                        params=dict(which=which)))
    return out
