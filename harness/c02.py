"""C02: what a call returns under nof / part, and that reading is pure."""
import datetime
import numpy as np
from harness.packlib import farr, barr, bits, runs

BOUNDS = ('data length <= 4 (quick) / 6 (thorough); all mask bits symbolic; '
          'float (incl. NaN) and integer elements symbolic; bool, unsigned, '
          'complex, str, bytes, object and datetime64 arrays with fixed '
          'distinct elements; attribute nof x argument nof x part')
OUTSIDE = 'longer arrays; structured dtypes; masks of another length'
ASSUMPTIONS = ['the mask is a boolean array of the length of the data']

FIXED = {
    'bool': lambda n: np.array([True, False, True, False, True, True][:n]),
    'uint8': lambda n: np.arange(n, dtype='uint8') + 250,
    'int8': lambda n: np.arange(n, dtype='int8') - 3,
    'uint16': lambda n: np.arange(n, dtype='uint16') + 60000,
    'uint32': lambda n: np.arange(n, dtype='uint32') + 4000000000,
    'uint64': lambda n: np.arange(n, dtype='uint64') + 2 ** 60,
    'int16': lambda n: np.arange(n, dtype='int16') - 300,
    'int32': lambda n: np.arange(n, dtype='int32') - 70000,
    'float16': lambda n: np.arange(n, dtype='float16') + 0.5,
    'longdouble': lambda n: np.arange(n, dtype='longdouble') + 0.5,
    'complex64': lambda n: (np.arange(n) + 1j).astype('complex64'),
    'clongdouble': lambda n: (np.arange(n) + 1j).astype('clongdouble'),
    'bigendian': lambda n: np.arange(n, dtype='>f8') + 0.5,
    'bigint': lambda n: np.arange(n, dtype='>i4') + 7,
    'float32': lambda n: np.arange(n, dtype='float32') + 0.5,
    'complex': lambda n: np.arange(n) + 1j,
    'str': lambda n: np.array(['', 'a', 'bb', 'None', 'nan', '0'][:n],
                              dtype='U4'),
    'bytes': lambda n: np.array([b'x', b'a', b'bb', b'', b'n', b'0'][:n],
                                dtype='S3'),
    'object': lambda n: np.array([None, 'x', 3, 2.5, (1,), 0] + [7] * n,
                                 dtype=object)[:n],
    'date': lambda n: np.array([datetime.date(2001, 1, i + 1)
                                for i in range(n)], dtype=object),
    'datetime64': lambda n: np.array(['2001-01-0%d' % (i + 1)
                                      for i in range(n)],
                                     dtype='datetime64[s]'),
    'timedelta64': lambda n: np.arange(n).astype('timedelta64[s]'),
}
NUM = ('i', 'u', 'f', 'c')


def isnan(x):
    return x != x


def same_el(env, got, want):
    if isinstance(want, (np.datetime64, np.timedelta64)):
        return bool(np.array([got], dtype=np.asarray([want]).dtype)[0]
                    == want)
    return env.same(got, want)


def call(env, kind, n, attr):
    P = env.load('channelpack.pack')
    if kind == 'float':
        a = farr(env, 'a', n)
    elif kind == 'int':
        a = env.array([env.int('a%d' % i, -5, 5) for i in range(n)], int)
    else:
        a = FIXED[kind](n)
    k = a.dtype.kind
    before = list(a)
    pack = P.ChannelPack({4: a, 7: np.arange(n)}, {4: 'x', 7: 'y'})
    pack.mask = barr(env, 'm', n)
    bs = bits(pack.mask)
    pack.nof = attr
    arg = env.choice('arg', (None, 'nan', 'filter', 'ignore'))
    rs = runs(bs)
    part = env.choice('part', [None] + list(range(len(rs))))
    ch = env.choice('ch', (4, 'x', 'ch4'))
    got = pack(ch, part=part, nof=arg)
    if part is not None:
        want = before[rs[part][0]:rs[part][1]]
        mode = 'part'
    else:
        mode = arg if arg is not None else attr
        if mode == 'filter':
            want = [x for x, b in zip(before, bs) if b]
        elif mode == 'nan':
            want = None
        else:
            want = before
    env.check(isinstance(got, np.ndarray) and got.ndim == 1,
              'a call returns a flat array')
    got = list(got)
    if want is not None:
        env.check(len(got) == len(want), 'length of the result')
        for g, w in zip(got, want):
            env.check(same_el(env, g, w), 'elements of the result')
    else:
        env.check(len(got) == n, 'nan result keeps the length')
        for g, w, b in zip(got, before, bs):
            if b:
                env.check(same_el(env, g, w), 'true elements kept')
            elif k in NUM:
                env.check(g is not None, 'numbers are replaced with nan')
                env.check(isnan(g), 'numbers are replaced with nan')
            else:
                env.check(g is None, 'non-numbers are replaced with None')
    # reading is pure
    after = pack(4, nof='ignore')
    env.check(len(after) == n, 'reading leaves data alone')
    for g, w in zip(after, before):
        env.check(same_el(env, g, w), 'reading leaves data alone')
    env.check(after.dtype == a.dtype, 'reading leaves the dtype alone')
    env.check(bits(pack.mask) == bs, 'reading leaves the mask alone')
    env.check(pack.nof == attr or (pack.nof is None and attr is None),
              'reading leaves nof alone')


def sequence(env, n):
    """Reads in sequence: an earlier read never influences a later one."""
    P = env.load('channelpack.pack')
    a, b = farr(env, 'a', n), farr(env, 'b', n)
    la, lb = list(a), list(b)
    pack = P.ChannelPack({0: a, 1: b})
    pack.mask = barr(env, 'm', n)
    bs = bits(pack.mask)
    for j in range(3):
        op = env.choice('op%d' % j, ('nan', 'filter', 'ignore', 'part'))
        ch = env.choice('c%d' % j, (0, 1))
        src = (la, lb)[ch]
        if op == 'part':
            if not runs(bs):
                continue
            r = pack(ch, part=0)
            env.check_same(r, src[runs(bs)[0][0]:runs(bs)[0][1]], 'part')
        elif op == 'nan':
            r = pack(ch, nof='nan')
            for g, w, m in zip(r, src, bs):
                env.check(env.same(g, w) if m else isnan(g), 'nan read')
        elif op == 'filter':
            env.check_same(pack(ch, nof='filter'),
                           [x for x, m in zip(src, bs) if m], 'filter read')
        else:
            env.check_same(pack(ch, nof='ignore'), src, 'ignore read')


def long_call(env, n, kind):
    P = env.load('channelpack.pack')
    a = np.arange(n) + 1
    a = a.astype(kind)
    pack = P.ChannelPack({0: a})
    where = (0, 1, n // 2, n - 1)
    pack.mask = env.array([env.bool('m%d' % i) if i in where else i % 3 > 0
                           for i in range(n)], bool)
    bs = bits(pack.mask)
    env.check_same(pack(0, nof='filter'), [x for x, b in zip(a, bs) if b],
                   'filter')
    got = list(pack(0, nof='nan'))
    env.check(len(got) == n, 'nan keeps the length')
    for g, w, b in zip(got, a, bs):
        if b:
            env.check(bool(g == w), 'true elements kept')
        elif a.dtype.kind in NUM:
            env.check(g is not None and bool(g != g), 'nan')
        else:
            env.check(g is None, 'None')
    env.check_same(pack(0), list(a), 'all')


def cases(tier):
    n = 3 if tier == 'quick' else 5
    out = []
    for kind in ['float', 'int'] + sorted(FIXED):
        for attr in (None, 'nan', 'filter'):
            for m in (n, 1, 0):
                out.append(dict(name='%s:%s:%d' % (kind, attr, m), fn=call,
                                params=dict(kind=kind, n=m, attr=attr)))
    out.append(dict(name='sequence', fn=sequence, params=dict(n=2)))
    for kind in ('f8', 'i8', 'U3', 'O'):
        out.append(dict(name='long:' + kind, fn=long_call,
                        params=dict(n=150, kind=kind)))
    return out
