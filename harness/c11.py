"""C11: guarded attributes reject bad values and stay as they were."""
import numpy as np
from harness.packlib import mkpack, barr, bits

BOUNDS = ('nof: symbolic strings of length 0..6 over the letters of the '
          'valid values plus None/ints/bools; FALLBACK_PREFIX, mask, mindur, '
          'fn, data, names: one of 9 kinds of values each; deletion of every '
          'guarded attribute; two attempts in sequence, packs of 2 elements '
          'with symbolic data and mask')
OUTSIDE = 'other values'
ASSUMPTIONS = []


def snapshot(pack):
    return dict(nof=pack.nof, FALLBACK_PREFIX=pack.FALLBACK_PREFIX,
                mask=bits(pack.mask), mindur=pack.mindur, fn=pack.fn,
                filenames=list(pack.filenames), names=dict(pack.names),
                keys=sorted(pack.data), parts=list(pack.parts()))


def unchanged(env, pack, snap, data):
    env.check(snapshot(pack) == snap, 'a rejected change alters nothing')
    for k in data:
        env.check_same(list(pack(k, nof='ignore')), list(data[k]),
                       'data is left alone')


def base(env):
    pack, data = mkpack(env, 2, names={0: 'a', 2: 'b'})
    pack.mask = barr(env, 'm', 2)
    bits(pack.mask)
    pack.nof = env.choice('nof0', (None, 'nan', 'filter'))
    pack.fn = 'file'
    pack.mindur = env.choice('mindur0', (None, 1, 2))
    bits(pack.mask)
    pack.FALLBACK_PREFIX = env.choice('prefix0', ('ch', 'k'))
    return pack, data


def nof_string(env, n):
    pack, data = base(env)
    snap = snapshot(pack)
    s = env.str('s', n, 'nafilter')
    r, exc = env.attempt(setattr, pack, 'nof', s)
    if (n == 3 and bool(s == 'nan')) or (n == 6 and bool(s == 'filter')):
        env.check(exc is None, 'valid nof accepted')
        env.check_same(pack.nof, s, 'and set')
    else:
        env.check(isinstance(exc, ValueError), 'invalid nof: ValueError')
        unchanged(env, pack, snap, data)


BAD = {
    'nof': ((0, False, True, 'ignore', 'None', 1.5, ('nan',), 'NAN'),
            ValueError),
    'FALLBACK_PREFIX': ((None, 1, b'ch', 1.5, ['ch'], ('ch',), True),
                        TypeError),
    'mask': (([True, False], (True, True), None, True, 'TF', 1),
             TypeError),
    'mindur': ((1.0, '1', [1], (), 'a', 2 + 0j), TypeError),
    'fn': ((None, 1, b'x', ['x'], 1.5), TypeError),
    'data': (({'a': [1]}, {1.5: [1]}, [('a', [1])], {None: [1]}),
             TypeError),
    'data_value': (({0: 1}, {0: [[1, 2]]}, {0: 'abc'}), ValueError),
    'names': (({'a': 'x'}, {1.5: 'x'}, [('a', 'x')], {None: 'x'}),
              TypeError),
}


def reject(env, attr):
    pack, data = base(env)
    vals, exc = BAD[attr]
    snap = snapshot(pack)
    for j in range(2):
        v = env.choice('v%d' % j, vals)
        env.raises(exc, setattr, pack, attr.split('_')[0]
                   if attr == 'data_value' else attr, v)
        unchanged(env, pack, snap, data)


def accept(env):
    pack, data = base(env)
    what = env.choice('what', ('nof', 'prefix', 'mindur', 'fn', 'names'))
    if what == 'nof':
        v = env.choice('v', (None, 'nan', 'filter'))
        pack.nof = v
        env.check(pack.nof == v, 'nof set')
    elif what == 'prefix':
        v = env.str('v', 2, 'ab')
        pack.FALLBACK_PREFIX = v
        env.check_same(pack.FALLBACK_PREFIX, v, 'prefix set')
    elif what == 'mindur':
        v = env.choice('v', (None, 0, 1, 5))
        pack.mindur = v
        env.check(pack.mindur == v, 'mindur set')
    elif what == 'fn':
        v = env.str('v', 2, 'ab')
        w = env.str('w', 1, 'ab')
        pack.fn = v
        env.check_same(pack.fn, v, 'fn set')
        env.check_same(list(pack.filenames), [v], 'and first of filenames')
        other, od = mkpack(env, 1, tag='o')
        u = env.str('u', 1, 'ab')
        other.fn = u
        pack.append_pack(other)
        env.check_same(list(pack.filenames), [v, u], 'extended')
        pack.fn = w
        env.check_same(list(pack.filenames), [w, u], 'first replaced')
        env.check_same(pack.fn, w, 'fn set')
        pack.append_pack(other)
        env.check_same(list(pack.filenames), [w, u, u], 'extended')
        env.check_same(pack.fn, w, 'fn kept')
        pack.fn = u
        env.check_same(list(pack.filenames), [u, u, u], 'first replaced')
    else:
        pack.names = {0: 'q'}
        env.check(dict(pack.names) == {0: 'q'}, 'names set')


DEL = ('FALLBACK_PREFIX', 'data', 'fn', 'filenames', 'names', 'nof',
       'mindur', 'mask')


def delete(env):
    pack, data = base(env)
    snap = snapshot(pack)
    for j in range(2):
        a = env.choice('a%d' % j, DEL)
        env.raises(AttributeError, delattr, pack, a)
        unchanged(env, pack, snap, data)


def fresh_fn(env):
    """A new pack has fn '' and filenames ['']; each pack its own list."""
    P = env.load('channelpack.pack')
    a, b = P.ChannelPack(), P.ChannelPack({0: [1]})
    for p in (a, b):
        env.check(p.fn == '' and list(p.filenames) == [''], 'initial fn')
        env.check(p.nof is None and p.mindur is None, 'initial nof, mindur')
        env.check(p.FALLBACK_PREFIX == 'ch', 'initial prefix')
    v = env.str('v', 2, 'ab')
    a.fn = v
    env.check_same(list(a.filenames), [v], 'fn is first of filenames')
    env.check(list(b.filenames) == [''], 'other packs are not affected')


def cases(tier):
    out = []
    for n in range(0, 7 if tier == 'quick' else 8):
        out.append(dict(name='nof:%d' % n, fn=nof_string,
                        params=dict(n=n)))
    for a in sorted(BAD):
        out.append(dict(name='reject:' + a, fn=reject,
                        params=dict(attr=a)))
    out.append(dict(name='accept', fn=accept))
    out.append(dict(name='delete', fn=delete))
    out.append(dict(name='fresh', fn=fresh_fn))
    return out
