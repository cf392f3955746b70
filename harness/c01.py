"""C01: parts are the maximal true runs of the mask, after any history."""
from itertools import product
from harness.packlib import (mkpack, apply_op, bits, runs, OPS, farr)

BOUNDS = ('data length <= 4 (quick) / 5 (thorough) plus long masks (70 '
          'elements, 6 symbolic positions; up to 150 parts in 300 elements, 3 '
          'symbolic); histories of 2 (quick) / 3 '
          '(thorough) operations over 11 kinds, all mask bits, triggers, '
          'durations and data values symbolic')
OUTSIDE = 'longer arrays and histories; masks altered in place by the caller'
ASSUMPTIONS = ['numpy and CPython builtins behave as modelled (each path is '
               'replayed on the real code)']


def consistent(env, pack, data, n, tag=''):
    bs = bits(pack.mask)
    env.check(len(bs) == n, tag + 'mask has the length of the data')
    rs = runs(bs)
    env.check(list(pack.parts()) == list(range(len(rs))),
              tag + 'parts enumerate the maximal true runs')
    for k in data:
        full = list(data[k])
        for i, (a, b) in enumerate(rs):
            env.check_same(pack(k, part=i), full[a:b],
                           tag + 'a part is the elements of its run')
    for k in data:
        env.raises(IndexError, pack, k, part=len(rs))


def history(env, n, ops):
    pack, data = mkpack(env, n)
    for j, op in enumerate(ops):
        data, n = apply_op(env, pack, data, op, 'o%d_' % j, n)
    consistent(env, pack, data, n)


def long_mask(env, n, base, where):
    pack, data = mkpack(env, n, keys=(0,), nan=False)
    m = [env.bool('b%d' % i) if i in where else base for i in range(n)]
    pack.mask = env.array(m, bool)
    consistent(env, pack, data, n)


def many(env, n, where):
    """Every other element true: many parts."""
    pack, data = mkpack(env, n, keys=(0,), nan=False)
    m = [env.bool('b%d' % i) if i in where else i % 2 == 1
         for i in range(n)]
    pack.mask = env.array(m, bool)
    consistent(env, pack, data, n)


def cases(tier):
    k = 2 if tier == 'quick' else 3
    n = 3 if tier == 'quick' else 4
    out = []
    big = ('mask=', 'mask&=', 'startstop')
    for ops in product(OPS, repeat=k):
        if ops[-1] == 'startstop_noapply' and k > 2:
            continue
        out.append(dict(name='history:' + ','.join(ops), fn=history,
                        params=dict(n=n, ops=ops)))
    for op in OPS:
        # masks of up to three parts, then one operation
        out.append(dict(name='three:' + op, fn=history,
                        params=dict(n=5 if tier == 'quick' else 6,
                                    ops=('mask=', op))))
    if tier == 'quick':
        for ops in product(OPS, repeat=3):
            if ops[0] in ('mask=', 'mindur', 'startstop') and \
                    ops[2] != 'startstop_noapply':
                out.append(dict(name='three-ops:' + ','.join(ops),
                                fn=history, params=dict(n=2, ops=ops)))
    for n1 in (0, 1, 5 if tier == 'quick' else 8):
        out.append(dict(name='mask:%d' % n1, fn=history,
                        params=dict(n=n1, ops=('mask=',))))
    for base in (True, False):
        for where in ((0, 1, 31, 32, 68, 69), (15, 16, 17, 63, 64, 65)):
            out.append(dict(name='long:%s:%s' % (base, where),
                            fn=long_mask,
                            params=dict(n=70, base=base, where=where)))
    for n1, where in ((40, (0, 20, 39)), (300, (2, 257, 298))):
        out.append(dict(name='many:%d' % n1, fn=many,
                        params=dict(n=n1, where=where)))
    return out
