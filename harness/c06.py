"""C06: a fresh mask is all true with the length of the lowest key."""
import datetime
import numpy as np
from harness.packlib import farr, barr, bits

BOUNDS = ('key sets of size <= 3 (5 orders each, negative and large keys '
          'included), array lengths 0..3 each (ragged packs included), float '
          'elements symbolic incl. NaN, other dtypes with fixed elements '
          'incl. None, NaT and complex NaN; routes: construction, data '
          'assignment (dict, pairs, NpDict), mask_reset after an arbitrary '
          'mask, append; up to 41 keys and 601 elements with one symbolic')
OUTSIDE = 'more keys, longer arrays'
ASSUMPTIONS = []

KEYS = ((0,), (1, 0), (0, 1), (2, 0, 1), (10, 9), (5, -1, 3), (-3, -10),
        (100, 20, 3), (7, 8, 2))


def vals(env, name, n, kind):
    if kind == 'f':
        return farr(env, name, n)
    if kind == 'i':
        return env.array([env.int('%s%d' % (name, i), -3, 3)
                          for i in range(n)], int)
    if kind == 'O':
        return np.array([None, float('nan'), 'x', 0, ''][:n], dtype=object)
    if kind == 'M':
        return np.array(['NaT', '2001-01-01', 'NaT', '2002-01-01'][:n],
                        dtype='datetime64[s]')
    if kind == 'c':
        return np.array([complex('nan'), 0j, complex(1, float('nan')),
                         2][:n], dtype=complex)
    if kind == 'U':
        return np.array(['', 'nan', 'x', ''][:n], dtype='U3')
    if kind == 'b':
        return np.array([False, True, False, False][:n])
    return [0.0, float('nan'), 2.0, 3.0][:n]


def expect(env, pack, data):
    n = len(data[min(data)]) if data else 0
    m = pack.mask
    env.check(isinstance(m, np.ndarray), 'the mask is an array')
    env.check(m.dtype == np.dtype(bool), 'the mask is boolean')
    env.check(len(m) == n, 'the mask has the length of the lowest key')
    env.check(bits(m) == [True] * n, 'the mask is all true')
    env.check(list(pack.parts()) == ([0] if n else []), 'one part or none')


def mk(env, keys, kind, tag):
    ragged = env.choice(tag + 'ragged', (False, True))
    d = {}
    n = env.choice(tag + 'n', (0, 1, 3))
    for j, k in enumerate(keys):
        ln = n
        if ragged and k != min(keys):
            ln = env.choice('%sn%d' % (tag, j), (0, 2))
        d[k] = vals(env, '%sk%d_' % (tag, j), ln, kind)
    return d


def fresh(env, keys, kind, route):
    P = env.load('channelpack.pack')
    d = mk(env, keys, kind, 'd') if keys else {}
    if route == 'init':
        pack = P.ChannelPack(dict(d))
    elif route == 'init_npdict':
        pack = P.ChannelPack(P.NpDict(d))
    else:
        pack = P.ChannelPack({0: [1.0, float('nan')], 3: [1, 2]},
                             {0: 'a', 3: 'b'})
        pack.mask = barr(env, 'm', 2)
        if route == 'dict':
            pack.data = dict(d)
        elif route == 'pairs':
            pack.data = list(d.items())
        elif route == 'npdict':
            pack.data = P.NpDict(d)
    expect(env, pack, d)
    env.check(sorted(pack.data) == sorted(d), 'keys of data')
    # and a reset after any mask gives the same again
    n = len(pack.mask)
    pack.mask = barr(env, 'm2', n)
    pack.mask_reset()
    expect(env, pack, d)


def append(env, keys, kind):
    P = env.load('channelpack.pack')
    n1, n2 = env.choice('n1', (0, 1, 2)), env.choice('n2', (0, 1, 2))
    d1 = {k: vals(env, 'a%d_' % j, n1, kind) for j, k in enumerate(keys)}
    d2 = {k: vals(env, 'b%d_' % j, n2, kind) for j, k in enumerate(keys)}
    a, b = P.ChannelPack(dict(d1)), P.ChannelPack(dict(d2))
    a.mask = barr(env, 'm', n1)
    a.append_pack(b)
    expect(env, a, {k: list(d1[k]) + list(d2[k]) for k in keys})
    expect(env, b, d2)
    c = P.ChannelPack()
    c.append_pack(b)
    expect(env, c, d2)


def large(env, nkeys, n, route):
    """Many channels and elements."""
    P = env.load('channelpack.pack')
    x = env.float('x')
    d = {k * 3 + 2: np.arange(n) * 0.5 for k in range(nkeys, 0, -1)}
    low = env.choice('low', (-1, 0, 4))
    d[low] = env.array([x] + [float('nan'), 0.0] * n, float)
    if route == 'init':
        pack = P.ChannelPack(dict(d))
    elif route == 'data':
        pack = P.ChannelPack({0: [1.0]})
        pack.data = dict(d)
    else:
        pack = P.ChannelPack({k: [] for k in d})
        pack.append_pack(P.ChannelPack(dict(d)))
    expect(env, pack, d)
    pack.mask = env.array([env.bool('m')] + [False, True] * n, bool)
    pack.mask_reset()
    expect(env, pack, d)


def nothing(env):
    P = env.load('channelpack.pack')
    for d in (None, {}):
        expect(env, P.ChannelPack(d), {})
    p = P.ChannelPack({0: [1, 2]})
    p.data = {}
    expect(env, p, {})
    p.mask_reset()
    expect(env, p, {})


def cases(tier):
    out = [dict(name='nothing', fn=nothing)]
    kinds = ('f', 'i', 'O', 'M', 'c', 'U', 'b', 'list')
    for route in ('init', 'init_npdict', 'dict', 'pairs', 'npdict'):
        for keys in KEYS:
            out.append(dict(name='%s:%s:f' % (route, keys), fn=fresh,
                            params=dict(keys=keys, kind='f', route=route)))
        for kind in kinds:
            out.append(dict(name='%s:%s' % (route, kind), fn=fresh,
                            params=dict(keys=(1, 0), kind=kind,
                                        route=route)))
    for nkeys, n in ((12, 5), (2, 300), (40, 40)):
        for route in ('init', 'data', 'append'):
            out.append(dict(name='large:%d:%d:%s' % (nkeys, n, route),
                            fn=large, params=dict(nkeys=nkeys, n=n,
                                                  route=route)))
    for kind in kinds:
        for keys in ((0,), (3, 1)):
            out.append(dict(name='append:%s:%s' % (kind, keys), fn=append,
                            params=dict(keys=keys, kind=kind)))
    return out
