"""C04: duration keeps exactly the parts that are long (short) enough."""
from harness.packlib import mkpack, barr, bits, runs

BOUNDS = ('mask length <= 7 (quick) / 9 (thorough), all bits symbolic, plus '
          '90-element masks with 6 symbolic bits; duration and samplerate '
          'symbolic integers, or multiples of 1/4 whose product is whole')
OUTSIDE = 'a duration that is not a whole number of samples'
ASSUMPTIONS = ['duration * samplerate is a whole number']


def after(bs, req, mindur):
    out = list(bs)
    for a, b in runs(bs):
        if (mindur and b - a < req) or (not mindur and b - a > req):
            out[a:b] = [False] * (b - a)
    return out


def verify(env, pack, bs, d, s, call, mindur):
    full = list(pack(0, nof='ignore'))
    res = call()
    req = d * s
    want = list(bs)
    for a, b in runs(bs):
        ln = b - a
        drop = (req > ln) if mindur else (req < ln)
        if drop:
            want[a:b] = [False] * (b - a)
    env.check(bits(pack.mask) == want, 'parts kept or made false')
    env.check(bits(res) == want, 'the mask is returned')
    rs = runs(want)
    env.check(list(pack.parts()) == list(range(len(rs))),
              'parts follow the mask')
    for i, (a, b) in enumerate(rs):
        env.check_same(pack(0, part=i), full[a:b], 'part data')
    return want


def integer(env, n, mindur, rate):
    pack, data = mkpack(env, n, keys=(0,), nan=False)
    pack.mask = barr(env, 'm', n)
    bs = bits(pack.mask)
    d = env.int('d', 0, n + 1)
    s = env.int('s', 0, 3) if rate else 1
    if rate:
        verify(env, pack, bs, d, s, lambda: pack.duration(
            d, samplerate=s, mindur=mindur), mindur)
    else:
        if mindur:
            verify(env, pack, bs, d, 1, lambda: pack.duration(d), mindur)
        else:
            verify(env, pack, bs, d, 1,
                   lambda: pack.duration(d, mindur=False), mindur)


def quarters(env, n, mindur):
    pack, data = mkpack(env, n, keys=(0,), nan=False)
    pack.mask = barr(env, 'm', n)
    bs = bits(pack.mask)
    s = env.choice('s', (1, 2.0, 4, 10))
    q = env.int('q', 0, 4 * n + 4)
    env.assume(((q * int(s)) % 4) == 0)
    d = env.div(q, 4)
    verify(env, pack, bs, d, s, lambda: pack.duration(
        d, samplerate=s, mindur=mindur), mindur)


def twice(env, n):
    pack, data = mkpack(env, n, keys=(0,), nan=False)
    pack.mask = barr(env, 'm', n)
    bs = bits(pack.mask)
    for j in range(2):
        md = env.choice('md%d' % j, (True, False))
        d = env.int('d%d' % j, 0, n + 1)
        bs = verify(env, pack, bs, d, 1,
                    lambda: pack.duration(d, 1, md), md)


def long(env, n, base, where, mindur):
    pack, data = mkpack(env, n, keys=(0,), nan=False)
    pack.mask = env.array([env.bool('m%d' % i) if i in where else base(i)
                           for i in range(n)], bool)
    bs = bits(pack.mask)
    d = env.int('d', 0, n)
    verify(env, pack, bs, d, 1,
           lambda: pack.duration(d, mindur=mindur), mindur)


def b_true(i):
    return True


def b_mix(i):
    return i % 31 < 20


def cases(tier):
    n = 6 if tier == 'quick' else 8
    out = []
    for md in (True, False):
        out.append(dict(name='int:%s' % md, fn=integer,
                        params=dict(n=n, mindur=md, rate=False)))
        out.append(dict(name='rate:%s' % md, fn=integer,
                        params=dict(n=4, mindur=md, rate=True)))
        out.append(dict(name='quarter:%s' % md, fn=quarters,
                        params=dict(n=4, mindur=md)))
        for nm, b in (('true', b_true), ('mix', b_mix)):
            out.append(dict(name='long:%s:%s' % (nm, md), fn=long,
                            params=dict(n=90, base=b, mindur=md,
                                        where=(0, 1, 44, 45, 88, 89))))
    out.append(dict(name='empty', fn=integer,
                    params=dict(n=0, mindur=True, rate=False)))
    out.append(dict(name='twice', fn=twice, params=dict(n=n - 1)))
    return out
