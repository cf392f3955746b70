"""C22: spread sheet notation of columns and cells."""

BOUNDS = ('column strings of 0..4 symbolic characters (all letters, both '
          'cases, and characters next to them); cell addresses of 1..4 '
          'letters and 0..7 symbolic digits; usecols strings of up to 3 '
          'elements, each a column or a range with symbolic letters, blanks '
          'around them, or 16 elements beyond column Z; integer sequences of up to 4 symbolic members; '
          'column numbers 0..16383 for the inverse')
OUTSIDE = 'trailing characters after a cell address; longer notation'
ASSUMPTIONS = []

UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LET = UP + UP.lower()
NEAR = 'AZaz@[`{09 :$'


def num(env, s):
    """0-based number of a column string of letters."""
    v = 0
    for i in range(len(s)):
        c = env.ord(s[i:i + 1])
        if c >= 97:
            c = c - 32
        v = v * 26 + (c - 64)
    return v - 1


def letters(env, n, zbase):
    X = env.load('channelpack.readxl')
    s = env.str('s', n, LET)
    want = num(env, s)
    if zbase is None:
        got = X.letter2num(s)
    else:
        got = X.letter2num(s, zbase=zbase)
        if not zbase:
            want = want + 1
    env.check_same(got, want, 'the number of a column')


def bad(env, n):
    X = env.load('channelpack.readxl')
    s = env.str('s', n, NEAR)
    ok = n > 0
    for i in range(n):
        c = env.ord(s[i:i + 1])
        if not ((c >= 65 and c <= 90) or (c >= 97 and c <= 122)):
            ok = False
    r, e = env.attempt(X.letter2num, s)
    if ok:
        env.check(e is None, 'letters are a column')
        env.check_same(r, num(env, s), 'the number of a column')
    else:
        env.check(e is not None, 'other characters are rejected')


def cell(env, nl, nd):
    X = env.load('channelpack.readxl')
    col = env.str('c', nl, 'AKZakz')
    row = env.str('r', nd, '0123456789')
    r, e = env.attempt(X.cellreference, xladdr=env.concat(col, row))
    v = 0
    for i in range(nd):
        v = v * 10 + (env.ord(row[i:i + 1]) - 48)
    if nd and v < 1:
        env.check(isinstance(e, ValueError), 'there is no row 0')
        return
    env.check(e is None, 'an address is understood')
    env.check_same(r.col, num(env, col), 'column')
    env.check_same(r.row, v - 1 if nd else 0, 'row')


def cell_more(env):
    X = env.load('channelpack.readxl')
    row, col = env.int('row', 0, 70000), env.int('col', 0, 20000)
    r = X.cellreference(row, col)
    env.check_same((r.row, r.col), (row, col), 'as given')
    r = X.cellreference(row, col, env.choice('none', (None, '')))
    env.check_same((r.row, r.col), (row, col), 'as given without address')
    r = X.cellreference(row, col, 'C')
    env.check_same((r.row, r.col), (row, 2), 'the row with a column letter')
    r = X.cellreference(row, col, 'C7')
    env.check_same((r.row, r.col), (6, 2), 'the address')
    s = env.str('x', 2, '1 :$-')
    env.raises(ValueError, X.cellreference, 0, 0, s)


def usecols(env, shape, pad):
    """shape: elements 'x' (a column) or 'x:y' (a range)."""
    X = env.load('channelpack.readxl')
    parts, want = [], []
    for j, s in enumerate(shape):
        lp = env.choice('p%d' % j, ('', ' ', '  ')) if pad else ''
        c = env.str('c%d' % j, 1, 'ABCEz')
        if s == 'aa':
            c = env.concat('A', c)
        if ':' in s:
            d = env.str('d%d' % j, 1, 'ACFz')
            parts.append(env.concat(lp, c, ':', d, lp))
            a, b = num(env, c), num(env, d)
            i = a
            while i <= b:
                want.append(i)
                i = i + 1
        else:
            parts.append(env.concat(lp, c, lp))
            want.append(num(env, c))
    got = X.normalize_usecols(env.join(',', parts))
    want = sorted(want)
    env.check(len(got) == len(want), 'as many columns')
    for g, w in zip(got, want):
        env.check_same(g, w, 'the columns in order')


def wide(env, n):
    """Ranges beyond Z and many elements."""
    X = env.load('channelpack.readxl')
    a, b = env.str('a', 1, 'XYZxyz'), env.str('b', 1, 'ABCabc')
    want = list(range(int(num(env, a)), int(num(env, env.concat('A', b))) + 1))
    parts = [env.concat(a, ':A', b)] + ['A' + chr(90 - i) for i in range(n)] +\
        ['ABC', 'zz', 'AMJ:AML']
    want += [51 - i for i in range(n)] + [730, 701, 1023, 1024, 1025]
    k = env.choice('k', range(len(parts)))
    got = X.normalize_usecols(env.join(',', parts[k:] + parts[:k]))
    env.check_same(list(got), sorted(want), 'the columns in order')


def ints(env, n, kind):
    X = env.load('channelpack.readxl')
    v = [env.int('v%d' % i, 0, 300) for i in range(n)]
    arg = dict(list=list, tuple=tuple, iter=iter)[kind](v)
    got = X.normalize_usecols(arg)
    env.check(len(got) == n, 'as many columns')
    for a, b in zip(got, got[1:]):
        env.check(env.decide(a <= b), 'in order')
    for x in v:
        env.check(env.lor(*[g == x for g in got]), 'each of them')
    for g in got:
        env.check(env.lor(*[g == x for x in v]), 'nothing else')


def inverse(env, lo, hi):
    X = env.load('channelpack.readxl')
    B = env.load('channelpack.xlrd.book')
    k = env.int('k', lo, hi)
    name = B.colname(k)
    env.check_same(X.letter2num(name), k, 'name of a column and back')
    env.check_same(name, name.upper(), 'upper case')


def xlsxname(env, nl, nd):
    L = env.load('channelpack.xlrd.xlsx')
    col = env.str('c', nl, 'ABMXZaz' if nl < 3 else
                  ['AVa', 'ABx', 'ABx'])
    row = env.str('r', nd, ['123456789'] + ['0123456789'] * (nd - 1))
    v = 0
    for i in range(nd):
        v = v * 10 + (env.ord(row[i:i + 1]) - 48)
    r = L.cell_name_to_rowx_colx(env.concat(col, row))
    env.check_same(r[0], v - 1, 'row')
    env.check_same(r[1], num(env, col), 'column')


def cases(tier):
    out = []
    q = tier == 'quick'
    for n in range(1, 5):
        for z in (None, True, False):
            out.append(dict(name='letters:%d:%s' % (n, z), fn=letters,
                            params=dict(n=n, zbase=z)))
    for n in range(0, 3 if q else 4):
        out.append(dict(name='bad:%d' % n, fn=bad, params=dict(n=n)))
    for nl in (1, 2, 3, 4):
        for nd in range(0, 8):
            out.append(dict(name='cell:%d:%d' % (nl, nd), fn=cell,
                            params=dict(nl=nl, nd=nd)))
    out.append(dict(name='cell:more', fn=cell_more))
    for shape in (('x',), ('x', 'x'), ('x:y',), ('x', 'x:y'), ('x:y', 'x'),
                  ('x', 'x', 'x'), ('aa', 'x'), ('x:y', 'x:y')):
        for pad in (False, True):
            if pad and len(shape) > 2 or pad and shape == ('x:y', 'x:y'):
                continue
            out.append(dict(name='usecols:%s:%s' % (shape, pad), fn=usecols,
                            params=dict(shape=shape, pad=pad)))
    for n in (1, 12):
        out.append(dict(name='wide:%d' % n, fn=wide, params=dict(n=n)))
    for n in range(1, 4 if q else 5):
        for kind in ('list', 'tuple', 'iter'):
            out.append(dict(name='ints:%d:%s' % (n, kind), fn=ints,
                            params=dict(n=n, kind=kind)))
    spans = [(0, 60), (670, 760), (16300, 16383)] if q else \
        [(i, min(i + 511, 16383)) for i in range(0, 16384, 512)]
    for lo, hi in spans:
        out.append(dict(name='inverse:%d-%d' % (lo, hi), fn=inverse,
                        params=dict(lo=lo, hi=hi)))
    for nl in (1, 2, 3):
        for nd in range(1, 8):
            out.append(dict(name='xlsx:%d:%d' % (nl, nd), fn=xlsxname,
                            params=dict(nl=nl, nd=nd)))
    return out
