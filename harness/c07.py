"""C07: append_pack concatenates, is all-or-nothing, and leaves the other
pack alone for ever."""
import numpy as np
from harness.packlib import farr, barr, bits

BOUNDS = ('two or three packs; key sets and names key sets from {}, {0}, '
          '{1}, {0,1}, {0,1,4} each (all pairs); 0..2 elements per channel, '
          'symbolic floats (NaN included) or mixed integer/float dtypes; '
          'chains of up to 3 appends in any direction, self-append included; 12 '
          'channels, 302 rows or 12 appends with 2 symbolic values')
OUTSIDE = 'more packs, more channels, longer chains'
ASSUMPTIONS = ['packs are not ragged']

SETS = ((), (0,), (1,), (0, 1), (4, 0, 1))


class Model(object):
    def __init__(self, data, names, files):
        self.data = {k: list(v) for k, v in data.items()}
        self.names = dict(names)
        self.files = list(files)
        self.n = len(data[min(data)]) if data else 0
        self.mask = [True] * self.n

    def append(self, o):
        """None, or ValueError when the packs do not align."""
        if self.data and o.data and set(self.data) != set(o.data):
            return ValueError
        if self.names and o.names and set(self.names) != set(o.names):
            return ValueError
        if not self.data:
            self.data = {k: list(v) for k, v in o.data.items()}
        elif o.data:
            for k in o.data:
                self.data[k] = self.data[k] + o.data[k]
        if not self.names:
            self.names = dict(o.names)
        self.files = self.files + list(o.files)
        self.n = len(self.data[min(self.data)]) if self.data else 0
        self.mask = [True] * self.n


def mk(env, tag, keys, nkeys, n, kind='f', fn=None, blank=False):
    P = env.load('channelpack.pack')
    if kind == 'f':
        d = {k: farr(env, '%s%d_' % (tag, k), n) for k in keys}
    elif kind == 'i':
        d = {k: env.array([env.int('%s%d_%d' % (tag, k, i), -9, 9)
                           for i in range(n)], int) for k in keys}
    elif kind == 'U':
        d = {k: np.array(['%s%d%d' % (tag * 3, k, i) for i in range(n)])
             for k in keys}
    else:
        d = {k: np.array([None, 'x', 1.5][:n], dtype=object) for k in keys}
    nm = {k: '%sn%d' % (tag, k) for k in nkeys}
    if blank and nm:
        nm[min(nm)] = ''
    p = P.ChannelPack(dict(d), dict(nm))
    files = ['']
    if fn is not None:
        p.fn = fn
        files = [fn]
    return p, Model(d, nm, files)


def matches(env, p, m, what):
    env.check(sorted(p.data) == sorted(m.data), what + ': channel keys')
    for k in m.data:
        env.check_same(p(k, nof='ignore'), m.data[k], what + ': data')
        env.check(isinstance(p.data[k], np.ndarray) and p.data[k].ndim == 1,
                  what + ': flat arrays')
    env.check(dict(p.names) == m.names, what + ': names')
    env.check(list(p.filenames) == m.files, what + ': file names')
    env.check(bits(p.mask) == m.mask, what + ': mask')


def do(env, a, ma, b, mb, what):
    want = ma.append(mb)
    r, exc = env.attempt(a.append_pack, b)
    if want is None:
        env.check(exc is None, what + ': append succeeds')
    else:
        env.check(isinstance(exc, want), what + ': ValueError')


def write(p, m, kind):
    """Change the first element of each channel in place."""
    for k in m.data:
        if m.data[k]:
            v = {'f': 99.0, 'i': 99, 'U': 'Z', 'O': 'Z'}[kind]
            p(k, nof='ignore')[0] = v
            m.data[k][0] = v


def pair(env, k1, k2, n1keys, n2keys, kinds=('f', 'f')):
    n1 = env.choice('n1', (0, 2))
    n2 = env.choice('n2', (1, 0))
    a, ma = mk(env, 'a', k1, n1keys, n1, kinds[0],
               env.choice('fna', (None, 'fa')),
               bool(n1keys) and env.choice('blank', (False, True)))
    b, mb = mk(env, 'b', k2, n2keys, n2, kinds[1],
               env.choice('fnb', ('fb', None)))
    if ma.n:
        a.mask = barr(env, 'm', ma.n)
        ma.mask = bits(a.mask)
    if mb.n:
        b.mask = barr(env, 'mb', mb.n)
        mb.mask = bits(b.mask)
    do(env, a, ma, b, mb, 'first')
    matches(env, a, ma, 'this pack')
    matches(env, b, mb, 'other pack')
    # changes made in the arrays stay in their pack
    write(a, ma, kinds[0] if k1 and (n1 or kinds[0] == 'O') else kinds[1])
    matches(env, b, mb, 'other pack after a change of this')
    write(b, mb, kinds[1])
    matches(env, a, ma, 'this pack after a change of the other')
    matches(env, b, mb, 'other pack')


def chain(env, sets, nsets, moves):
    ps = []
    for j, tag in enumerate('abc'):
        keys = sets[j]
        ps.append(mk(env, tag, keys, nsets[j], 1, 'f', 'f' + tag))
    for i, j in moves:
        do(env, ps[i][0], ps[i][1], ps[j][0], ps[j][1], 'append %d %d' %
           (i, j))
        for q, (p, m) in enumerate(ps):
            matches(env, p, m, 'pack %d' % q)


def large(env, keys, n, times):
    """Many channels and rows, appended many times."""
    P = env.load('channelpack.pack')
    x, y = env.float('x'), env.float('y')
    names = {k: 'n%d' % k for k in keys}

    def one(i):
        v = x if i % 2 else y
        d = {k: env.array([v, float(k)] + [i * 0.5] * n, float)
             for k in keys}
        p = P.ChannelPack(dict(d), dict(names))
        p.fn = 'f%d' % i
        return p, Model(d, names, ['f%d' % i])
    a, ma = one(0)
    others = [one(i + 1) for i in range(times)]
    for b, mb in others:
        a.mask = env.array([False] * ma.n, bool)
        do(env, a, ma, b, mb, 'append')
        matches(env, a, ma, 'this pack')
    for b, mb in others:
        matches(env, b, mb, 'other pack')


def names_after(env):
    """Names set after adopting them stay with the pack that was changed."""
    a, ma = mk(env, 'a', (), (), 0)
    b, mb = mk(env, 'b', (0, 1), (0, 1), 1, 'f', 'fb')
    do(env, a, ma, b, mb, 'adopt')
    who = env.choice('who', (0, 1))
    p, m = ((a, ma), (b, mb))[who]
    what = env.choice('what', ('name', 'data', 'del', 'files'))
    if what == 'name':
        p.names[0] = 'new'
        m.names[0] = 'new'
    elif what == 'data':
        p.data[1] = [5.0]
        m.data[1] = [5.0]
    elif what == 'del':
        del p.data[1]
        del m.data[1]
        del p.names[1]
        del m.names[1]
    else:
        p.fn = 'zz'
        m.files[0] = 'zz'
    matches(env, a, ma, 'this pack')
    matches(env, b, mb, 'other pack')


def cases(tier):
    out = []
    for k1 in SETS:
        for k2 in SETS:
            for a, b in ((k1, k2), (k1, ()), ((), k2), ((0,), (1,)),
                         ((0, 1), (0, 1))):
                out.append(dict(name='pair:%s:%s:%s:%s' % (k1, k2, a, b),
                                fn=pair, params=dict(k1=k1, k2=k2, n1keys=a,
                                                     n2keys=b)))
    for kinds in (('i', 'f'), ('f', 'i'), ('i', 'i'), ('U', 'U'),
                  ('O', 'O'), ('f', 'O'), ('O', 'f')):
        out.append(dict(name='kinds:%s' % (kinds,), fn=pair,
                        params=dict(k1=(1, 0), k2=(0, 1), n1keys=(0, 1),
                                    n2keys=(0, 1), kinds=kinds)))
    e, x, y = (), (0, 1), (1, 0)
    moves = [(i, j) for i in range(3) for j in range(3)]
    seqs = [(m1, m2) for m1 in moves for m2 in moves]
    if tier == 'thorough':
        seqs = [s + (m,) for s in seqs for m in moves]
    else:
        seqs += [((0, 1), (0, 2), (2, 0)), ((0, 1), (2, 0), (0, 2)),
                 ((0, 1), (1, 2), (0, 1)), ((0, 1), (0, 1), (0, 0))]
    for sets, nsets in (((e, x, y), (e, x, y)), ((e, e, x), (e, x, e)),
                        ((x, y, x), (x, e, (0,))), ((x, e, (0,)),
                                                    (e, x, x))):
        for s in seqs:
            out.append(dict(name='chain:%s:%s:%s' % (sets, nsets, s),
                            fn=chain, params=dict(sets=sets, nsets=nsets,
                                                  moves=s)))
    for keys, n, times in ((range(12), 3, 2), ((0, 1), 300, 2),
                           ((0,), 1, 12), (range(30, -1, -3), 20, 4)):
        out.append(dict(name='large:%s:%d:%d' % (tuple(keys), n, times),
                        fn=large, params=dict(keys=tuple(keys), n=n,
                                              times=times)))
    out.append(dict(name='names_after', fn=names_after))
    return out
