"""C24: sheetpack reads exactly the range asked for."""
from . import xllib as L

BOUNDS = ('sheets of 4 rows and 4 columns of distinct symbolic numbers and '
          'texts; start and stop cells with symbolic letters (any case) and '
          'row digits; usecols as sorted or unsorted integers or as a '
          'string; header True, False or a cell address; sheet by number or '
          'name of a book of 3 or 12 sheets; a sheet of 14 rows and 30 columns '
          'with 4 symbolic cells and ranges beyond row 9 and column Z; header '
          'cells missing; sheet names with blanks around')
OUTSIDE = ('a stop cell given as a column letter only (its row is then 0); '
           'header row outside the sheet')
ASSUMPTIONS = []

R, C = 4, 4


def sheet(env, tag=''):
    """Row 0 is text, the rest numbers: (rows, values)."""
    rows, vals = [], []
    for r in range(R):
        cells, vs = [], []
        for c in range(C):
            ref = 'ABCDE'[c] + str(r + 1)
            if r == 0:
                t = env.concat('ABCD'[c], env.str('n%s%d' % (tag, c), 1,
                                                  'xyz'))
                cells.append(L.cell(ref, 'str', t))
                vs.append(t)
            else:
                # the digits differ: no two cells are alike
                t = env.concat(str(r), str(c), env.str(
                    'v%s%d%d' % (tag, r, c), 1, '0123456789'))
                cells.append(L.cell(ref, v=t))
                vs.append(env.tofloat(t))
        rows.append(L.row(str(r + 1), cells))
        vals.append(vs)
    return L.sheet(rows), vals


def addr(env, name, rlo, rhi):
    """(address text, row, column) with symbolic letter and row."""
    s = env.str(name, 2, ['ABCDabcd', ''.join(
        str(i + 1) for i in range(rlo, rhi + 1))])
    c = env.ord(s[:1])
    c = c - 97 if c >= 97 else c - 65
    return s, int(env.ord(s[1:])) - 49, int(c)


def expect(env, vals, r0, r1, cols):
    """Columns of rows r0..r1: all numbers, all text, or both."""
    return {c: [vals[r][c] for r in range(r0, r1 + 1)] for c in cols}


def compare(env, pack, want, names, p):
    env.check(sorted(pack.data) == sorted(want), 'the columns')
    for c in want:
        env.check_same(list(pack(c)), want[c], 'the data of a column')
    env.check_same(dict(pack.names), names, 'the names')
    env.check(pack.fn == p, 'the file name')


def ranged(env, header, start, stop):
    """Start and stop cells."""
    X = env.load('channelpack.readxl')
    tree, vals = sheet(env)
    p = L.book(env, [('S', tree)])
    k = {}
    r0, c0, r1, c1 = 0, 0, R - 1, C - 1
    if start:
        k['startcell'], r0, c0 = addr(env, 'start', 0, R - 2)
    if stop:
        k['stopcell'], r1, c1 = addr(env, 'stop', 1, R - 1)
    if header == 'cell':
        s, hr, hc = addr(env, 'head', 0, R - 1)
        h = s
    else:
        h = header
    cols = list(range(c0, c1 + 1))
    if not cols:
        env.raises((ValueError, IndexError), X.sheetpack, p, header=h, **k)
        return
    data0 = r0 + 1 if header is True else r0
    env.assume(data0 <= r1)
    pack = X.sheetpack(p, header=h, **k)
    names = {} if header is False else {
        c: vals[r0 if header is True else hr][c] for c in cols}
    want = expect(env, vals, data0, r1, cols)
    compare(env, pack, want, names, p)


def chosen(env, header, how, n, ranged):
    """usecols: exactly these columns."""
    X = env.load('channelpack.readxl')
    tree, vals = sheet(env)
    p = L.book(env, [('S', tree)])
    k, c0, c1 = {}, 0, C - 1
    if ranged:
        c0, c1 = env.choice('range', ((0, 3), (1, 2), (1, 3), (0, 1)))
        k = dict(startcell='ABCD'[c0] + '1', stopcell='ABCD'[c1] + str(R))
    if how == 'ints':
        use = [env.int('u%d' % i, 0, C) for i in range(n)]
        for i in range(n):
            for j in range(i):
                env.assume(use[i] != use[j])
        cols = sorted(int(u) for u in use)
    elif how == 'letters':
        ls = [env.str('u%d' % i, 1, 'ABCDEabcde') for i in range(n)]
        cols = []
        for s in ls:
            c = env.ord(s)
            cols.append(int(c - 97 if c >= 97 else c - 65))
        env.assume(len(set(cols)) == n)
        cols = sorted(cols)
        use = env.join(env.choice('sep', (',', ', ')), ls)
    else:
        a, b = env.str('a', 1, 'ABCD'), env.str('b', 1, 'ABCDE')
        env.assume(env.ord(a) <= env.ord(b))
        cols = list(range(int(env.ord(a)) - 65, int(env.ord(b)) - 64))
        use = env.join(':', [a, b])
    if cols[0] < c0 or cols[-1] > c1:
        env.raises(ValueError, X.sheetpack, p, header=header, usecols=use,
                   **k)
        return
    pack = X.sheetpack(p, header=header, usecols=use, **k)
    names = {c: vals[0][c] for c in cols} if header else {}
    want = expect(env, vals, 0 if header is False else 1
                  if header is True else 0, R - 1, cols)
    compare(env, pack, want, names, p)


def letters(c):
    s = ''
    c += 1
    while c:
        c, d = divmod(c - 1, 26)
        s = chr(65 + d) + s
    return s


def large(env, header, use):
    """Beyond column Z and row 9."""
    X = env.load('channelpack.readxl')
    nr, nc = 14, 30
    vals = [['n%d' % c if r == 0 else float('%d%02d' % (r, c))
             for c in range(nc)] for r in range(nr)]
    for r, c in ((10, 26), (11, 27), (12, 25), (10, 25)):
        vals[r][c] = env.str('v%d_%d' % (r, c), 2, '123456789')
    rows = []
    for r in range(nr):
        rows.append(L.row(str(r + 1), [
            L.cell(letters(c) + str(r + 1), 'str' if r == 0 else None,
                   '%d' % vals[r][c] if isinstance(vals[r][c], float)
                   else vals[r][c]) for c in range(nc)]))
    for r in range(1, nr):
        for c in range(nc):
            if not isinstance(vals[r][c], float):
                vals[r][c] = env.tofloat(vals[r][c])
    p = L.book(env, [('S', L.sheet(rows))])
    r0, c0 = env.choice('start', ((9, 24), (10, 25), (11, 26), (1, 3)))
    r1, c1 = env.choice('stop', ((11, 27), (12, 28), (13, 29)))
    s0 = letters(c0) + str(r0 + 1)
    h = env.choice('hr', ('A1', 'Z1', 'AA1')) if header == 'cell' else header
    k = {}
    cols = list(range(c0, c1 + 1))
    if use == 'str':
        k['usecols'] = env.choice('use', ('AA', 'AB,AA', 'AA:AB'))
        cols = {'AA': [26], 'AB,AA': [26, 27], 'AA:AB': [26, 27]}[
            k['usecols']]
    elif use == 'ints':
        cols = env.choice('use', ((26,), (27, 26), (26, 27)))
        k['usecols'] = cols
        cols = sorted(cols)
    pack = X.sheetpack(p, header=h, startcell=s0.lower() if env.bool('low')
                       else s0, stopcell=letters(c1) + str(r1 + 1), **k)
    d0 = r0 + 1 if header is True else r0
    compare(env, pack, expect(env, vals, d0, r1, cols), {} if header is False
            else {c: vals[r0 if header is True else 0][c] for c in cols}, p)


def sheets(env, n):
    """One of many sheets."""
    X = env.load('channelpack.readxl')
    i = env.choice('i', [j for j in (0, 1, 9, 10, 11) if j < n])
    x = env.str('x', 2, '123456789')
    trees = [L.sheet([L.row('1', [L.cell('A1', v=x if j == i else
                                         str(100 + j))])]) for j in range(n)]
    p = L.book(env, [('Sheet%d' % (j + 1), trees[j]) for j in range(n)])
    pack = X.sheetpack(p, sheet=env.choice('by', (i, 'Sheet%d' % (i + 1))),
                       header=False)
    env.check_same(list(pack(0)), [env.tofloat(x)], 'the sheet')


def which(env, by):
    """The sheet by number (also from the end) or by name."""
    X = env.load('channelpack.readxl')
    xs = [env.str('x%d' % i, 2, ['123456789', '0123456789'])
          for i in range(3)]
    trees = [L.sheet([L.row('1', [L.cell('A1', v=x)])]) for x in xs]
    names = [env.concat(env.str('s%d' % i, 1, 'abc '), 'n', env.str(
        'e%d' % i, 1, 'a '))
             for i in range(3)]
    for i in range(3):
        for j in range(i):
            env.assume(names[i] != names[j])
    p = L.book(env, list(zip(names, trees)))
    if by == 'int':
        i = env.int('i', 0, 2)
        pack = X.sheetpack(p, sheet=i, header=False)
        want = xs[int(i)]
    elif by == 'name':
        i = env.choice('i', (0, 1, 2))
        pack = X.sheetpack(p, sheet=names[i], header=False)
        want = xs[i]
    elif by == 'default':
        pack = X.sheetpack(p, header=False)
        want = xs[0]
    else:
        r, e = env.attempt(X.sheetpack, p, sheet=env.choice(
            'bad', ('other', 3, '0', '')), header=False)
        env.check(e is not None, 'no such sheet')
        return
    env.check_same(list(pack(0)), [env.tofloat(want)], 'the sheet')
    env.check_same(dict(pack.names), {}, 'no names')


def partly(env, header):
    """Some cells, or all, of the header row are missing."""
    X = env.load('channelpack.readxl')
    heads, names = [], {}
    for c in range(3):
        ref = 'ABC'[c] + '1'
        if env.bool('has%d' % c):
            t = env.str('n%d' % c, 1, 'xyz ')
            heads.append(L.cell(ref, 'str', kids=[L.node(
                'v', {L.SPACE: 'preserve'}, t)]))
            names[c] = t
        else:
            names[c] = ''
    vs = [env.str('v%d' % c, 2, '123456789') for c in range(3)]
    rows = ([L.row('1', heads)] if heads else []) + [
        L.row('2', [L.cell('ABC'[c] + '2', v=vs[c]) for c in range(3)])]
    p = L.book(env, [('S', L.sheet(rows))])
    k = dict(startcell='A2') if header == 'A1' else {}
    pack = X.sheetpack(p, header=header, **k)
    compare(env, pack, {c: [env.tofloat(vs[c])] for c in range(3)}, names, p)


def cases(tier):
    q = tier == 'quick'
    out = []
    for h in (True, False, 'cell'):
        for a, b in ((0, 0), (1, 0), (0, 1), (1, 1)):
            if h == 'cell' and a and b and q:
                continue
            out.append(dict(name='range:%s:%d:%d' % (h, a, b), fn=ranged,
                            params=dict(header=h, start=a, stop=b)))
    for h in (True, False, 'A1'):
        for how in ('ints', 'letters', 'range'):
            for n in (1, 2) + (() if q else (3,)):
                if how == 'range' and n > 1:
                    continue
                for rg in (False, True):
                    out.append(dict(name='use:%s:%s:%d:%d' % (
                        h, how, n, rg), fn=chosen, params=dict(
                            header=h, how=how, n=n, ranged=rg)))
    for h in (False, 'cell', True):
        for use in ('', 'str', 'ints'):
            out.append(dict(name='large:%s:%s' % (h, use), fn=large,
                            params=dict(header=h, use=use)))
    for h in (True, 'A1'):
        out.append(dict(name='partly:%s' % h, fn=partly,
                        params=dict(header=h)))
    for n in (2, 12):
        out.append(dict(name='sheets:%d' % n, fn=sheets, params=dict(n=n)))
    for by in ('int', 'name', 'default', 'bad'):
        out.append(dict(name='sheet:' + by, fn=which, params=dict(by=by)))
    return out
