"""C09: records agree with calls."""
import numpy as np
from harness.packlib import farr, barr, bits, runs

BOUNDS = ('2-3 channels of 0..3 elements (symbolic floats incl. NaN, '
          'integers and strings), symbolic mask; attribute nof x argument '
          'nof x part x fallback; names on any order of keys, colliding '
          'with fallback strings, duplicated or not valid identifiers; 26 '
          'channels or 60 elements with few symbolic')
OUTSIDE = 'longer data than 60 elements'
ASSUMPTIONS = ['packs are not ragged']

NAMES = {
    'plain': ({0: 'a', 1: 'b', 5: 'c'}, True),
    'order': ({5: 'a', 0: 'b', 1: 'c'}, True),
    'some': ({5: 'a', 0: 'b'}, True),
    'collide': ({0: 'ch1', 1: 'ch5', 5: 'ch0'}, True),
    'none': ({}, True),
    'bad': ({0: 'a b', 1: 'b', 5: 'c'}, False),
    'digit': ({0: '1a', 1: 'b', 5: 'c'}, False),
    'dup': ({0: 'a', 1: 'a', 5: 'c'}, False),
    'keyword': ({0: 'class', 1: 'b', 5: 'c'}, False),
    'under': ({0: '_a', 1: 'b', 5: 'c'}, False),
}


def records(env, names, n, attr, fallback, prefix='ch'):
    P = env.load('channelpack.pack')
    data = {5: farr(env, 'a', n),
            0: env.array([env.int('b%d' % i, -4, 4) for i in range(n)], int),
            1: np.array(['p', 'q', 'r', 's'][:n], dtype='U1')}
    nm, ok = NAMES[names]
    pack = P.ChannelPack(dict(data), dict(nm))
    pack.FALLBACK_PREFIX = prefix
    pack.mask = barr(env, 'm', n)
    pack.nof = attr
    bs = bits(pack.mask)
    arg = env.choice('arg', (None, 'nan', 'filter', 'ignore'))
    rs = runs(bs)
    part = env.choice('part', [None] + list(range(len(rs))) +
                      ([-1] if rs else []))
    gen = pack.records(part=part, nof=arg, fallback=fallback)
    if not ok and not fallback:
        env.raises(ValueError, list, gen)
        return
    recs = list(gen)
    keys = sorted(data) if fallback else sorted(nm)
    fields = [prefix + str(k) for k in keys] if fallback else \
        [nm[k] for k in keys]
    cols = [list(pack(k, part=part, nof=arg)) for k in keys]
    want = len(cols[0]) if cols else 0
    env.check(len(recs) == want, 'one record per element')
    for j, r in enumerate(recs):
        env.check(list(r._fields) == fields, 'field names in key order')
        for i, f in enumerate(fields):
            env.check_same(getattr(r, f), cols[i][j],
                           'a field is the element of its channel')
        env.check(len(r) == len(fields), 'one field per channel')
    env.check(bits(pack.mask) == bs, 'the mask is left alone')


def large(env, nkeys, n, fallback, attr):
    """Many channels and elements."""
    P = env.load('channelpack.pack')
    x = env.float('x')
    keys = list(range(nkeys))[::-1]
    data = {k: env.array([x if k in (1, 10) else 0.5] +
                         [k * 1000.0 + i for i in range(n)], float)
            for k in keys}
    nm = {k: 'name%d' % k for k in keys}
    pack = P.ChannelPack(dict(data), dict(nm))
    pack.mask = env.array([env.bool('m%d' % i) if i in (0, 1, n) else i % 3 > 0
                           for i in range(n + 1)], bool)
    pack.nof = attr
    bs = bits(pack.mask)
    rs = runs(bs)
    part = env.choice('part', [None, 0, len(rs) - 1, min(10, len(rs) - 1)])
    recs = list(pack.records(part=part, fallback=fallback))
    cols = [list(pack(k, part=part)) for k in range(nkeys)]
    env.check(len(recs) == len(cols[0]), 'one record per element')
    fields = ['ch%d' % k if fallback else nm[k] for k in range(nkeys)]
    for j, r in enumerate(recs):
        env.check(list(r._fields) == fields, 'field names in key order')
        env.check_same(list(r), [c[j] for c in cols],
                       'a field is the element of its channel')


def cases(tier):
    out = []
    for nm in sorted(NAMES):
        for attr in (None, 'nan', 'filter'):
            for fb in (False, True):
                for n in ((2, 0) if tier == 'quick' else (3, 1, 0)):
                    out.append(dict(
                        name='%s:%s:%s:%d' % (nm, attr, fb, n), fn=records,
                        params=dict(names=nm, n=n, attr=attr, fallback=fb)))
    for nkeys, n in ((12, 4), (2, 60), (26, 12)):
        for fb in (False, True):
            for attr in (None, 'nan', 'filter'):
                out.append(dict(name='large:%d:%d:%s:%s' % (nkeys, n, fb,
                                                            attr), fn=large,
                                params=dict(nkeys=nkeys, n=n, fallback=fb,
                                            attr=attr)))
    out.append(dict(name='prefix', fn=records,
                    params=dict(names='collide', n=2, attr=None,
                                fallback=True, prefix='x_')))
    return out
