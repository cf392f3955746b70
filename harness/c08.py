"""C08: channel lookup: key, then name, then fallback string."""
import numpy as np

BOUNDS = ('data keys from 8 sets (multi-digit keys included); 0..2 names, '
          'each a symbolic string of length <= 3 over {c, h, 1, 2, space}, on '
          'keys inside or outside data; prefix "ch" or symbolic of length '
          '<= 2 over {c, h, ., +}; looked-up string symbolic of length <= 4 '
          'over {c, h, 0, 1, 2, x, space, newline}; looked-up integers symbolic in '
          '-3..25')
OUTSIDE = 'longer names and prefixes; non-ASCII digits; channel arguments ' \
    'that are neither int nor str'
ASSUMPTIONS = []

KEYSETS = ((0, 1), (1, 2), (0, 12), (1, 11, 2), (21,), (0,), (-1, 1), ())


def eqs(a, b):
    return bool(a == b)


def isfallback(env, ch, prefix, data):
    """Key denoted by the fallback string ch, or None."""
    np_ = len(prefix)
    if len(ch) <= np_ or not eqs(ch[:np_], prefix):
        return None
    v = 0
    for i in range(np_, len(ch)):
        c = ch[i:i + 1]
        for d in range(10):
            if eqs(c, '0123456789'[d]):
                v = v * 10 + d
                break
        else:
            return None
    return v if v in data else None


def oracle(env, ch, data, names, prefix):
    """The key, or None for KeyError."""
    for k, nm in names.items():
        if len(nm) == len(ch) and eqs(nm, ch):
            return k if k in data else None
    return isfallback(env, ch, prefix, data)


def mk(env, keys, nlens, nkeys, plen):
    P = env.load('channelpack.pack')
    data = {k: np.array([float(k), 100.0 + k]) for k in keys}
    names = {k: env.str('n%d' % j, ln, 'ch12 ')
             for j, (k, ln) in enumerate(zip(nkeys, nlens))}
    pack = P.ChannelPack(dict(data), dict(names))
    prefix = 'ch'
    if plen is not None:
        prefix = env.str('prefix', plen, 'ch.+')
        pack.FALLBACK_PREFIX = prefix
    return pack, data, names, prefix


def string(env, keys, nlens, nkeys, plen, ln):
    pack, data, names, prefix = mk(env, keys, nlens, nkeys, plen)
    ch = env.str('ch', ln, 'ch012x \n')
    want = oracle(env, ch, data, names, prefix)
    how = env.choice('how', ('call', 'name', 'fallback'))
    if how == 'call':
        r, exc = env.attempt(pack, ch)
    elif how == 'name':
        r, exc = env.attempt(pack.name, ch)
    else:
        r, exc = env.attempt(pack.name, ch, fallback=True)
    if want is None:
        env.check(isinstance(exc, KeyError), 'unknown channel: KeyError')
        return
    if how == 'call':
        env.check(exc is None, 'known channel found')
        env.check_same(list(r), list(data[want]), 'the right channel')
    elif how == 'fallback':
        env.check(exc is None, 'fallback name of a known channel')
        env.check_same(r, env.concat(prefix, str(want)), 'fallback name')
    elif want in names:
        env.check(exc is None, 'name of a named channel')
        env.check_same(r, names[want], 'the right name')
    else:
        env.check(isinstance(exc, KeyError), 'no name: KeyError')


def integer(env, keys, nkeys):
    P = env.load('channelpack.pack')
    data = {k: np.array([float(k), 100.0 + k]) for k in keys}
    names = {k: 'n%d' % k for k in nkeys}
    pack = P.ChannelPack(dict(data), dict(names))
    ch = env.int('ch', -3, 25)
    hit = None
    for k in keys:
        if bool(ch == k):
            hit = k
    r, exc = env.attempt(pack, ch)
    if hit is None:
        env.check(isinstance(exc, KeyError), 'unknown key: KeyError')
        env.check(isinstance(env.attempt(pack.name, ch)[1], KeyError),
                  'unknown key: KeyError')
        return
    env.check(exc is None, 'known key found')
    env.check_same(list(r), list(data[hit]), 'the right channel')
    env.check_same(pack.name(ch, fallback=True), 'ch' + str(hit),
                   'fallback name')
    if hit in names:
        env.check_same(pack.name(ch), names[hit], 'name')


def words(env, ln):
    """firstwordonly gives the first space-stripped word."""
    P = env.load('channelpack.pack')
    nm = env.str('n', ln, 'a:, \t')
    pack = P.ChannelPack({0: [1], 3: [2]}, {3: nm, 0: 'z'})
    w, started = [], False
    for i in range(ln):
        c = nm[i:i + 1]
        sp = eqs(c, ' ') or eqs(c, '\t')
        if sp and started:
            break
        if not sp:
            started = True
            w.append(c)
    env.check_same(pack.name(3), nm, 'the name as is')
    if started:
        env.check_same(pack.name(3, firstwordonly=True), env.join('', w),
                       'first word')
    env.check_same(pack.name(3, firstwordonly=True, fallback=True), 'ch3',
                   'fallback ignores firstwordonly')


def precedence(env, keys):
    """A name that is another channel's fallback string takes precedence."""
    P = env.load('channelpack.pack')
    data = {k: np.array([float(k)]) for k in keys}
    a = env.choice('a', keys)
    b = env.choice('b', keys)
    pack = P.ChannelPack(dict(data), {a: 'ch%d' % b})
    env.check_same(list(pack('ch%d' % b)), [float(a)],
                   'names before fallback strings')
    for k in keys:
        env.check_same(list(pack(k)), [float(k)], 'keys before names')


def cases(tier):
    out = []
    lens = (0, 1, 2, 3, 4)
    for keys in KEYSETS:
        for ln in lens:
            out.append(dict(name='fallback:%s:%d' % (keys, ln), fn=string,
                            params=dict(keys=keys, nlens=(), nkeys=(),
                                        plen=None, ln=ln)))
    if tier == 'thorough':
        lens = (0, 1, 2, 3, 4)
        out.append(dict(name='fallback:long', fn=string,
                        params=dict(keys=(1, 11, 111), nlens=(), nkeys=(),
                                    plen=None, ln=5)))
    for ln in lens:
        for plen in (0, 1, 2):
            out.append(dict(name='prefix:%d:%d' % (plen, ln), fn=string,
                            params=dict(keys=(0, 1, 12), nlens=(), nkeys=(),
                                        plen=plen, ln=ln)))
    for keys in ((0, 1), (1, 12), (2,)):
        for nkeys in ((0, 1), (1, 0), (1, 2), (5, 1)):
            for l1 in (1, 2, 3):
                for ln in (1, 2, 3):
                    if ln not in (l1, 3):
                        continue
                    out.append(dict(
                        name='names:%s:%s:%d:%d' % (keys, nkeys, l1, ln),
                        fn=string, params=dict(
                            keys=keys, nlens=(l1, 3 if l1 != 3 else 2),
                            nkeys=nkeys, plen=None, ln=ln)))
    for keys in ((0, 1), (1, 12), (2,)):
        for nkey in (0, 1, 5):
            for l1 in (1, 2, 3):
                for ln in (l1, 3):
                    out.append(dict(
                        name='one:%s:%s:%d:%d' % (keys, nkey, l1, ln),
                        fn=string, params=dict(
                            keys=keys, nlens=(l1,), nkeys=(nkey,),
                            plen=None, ln=ln)))
    for keys in KEYSETS:
        out.append(dict(name='int:%s' % (keys,), fn=integer,
                        params=dict(keys=keys, nkeys=(0, 12))))
        if keys:
            out.append(dict(name='prec:%s' % (keys,), fn=precedence,
                            params=dict(keys=tuple(k for k in keys
                                                   if k >= 0))))
    for ln in (1, 2, 3, 4, 5):
        out.append(dict(name='words:%d' % ln, fn=words, params=dict(ln=ln)))
    return out
