"""C23: spreadsheet columns keep what each cell holds."""
import datetime
import numpy as np
from symx.values import SymBool
from . import xllib as L

BOUNDS = ('columns of 1..3 (quick) or 1..4 (thorough) cells, each a number, '
          'text, date, boolean, error, blank or absent cell (symbolic kind), '
          'with symbolic values; both date systems; two columns side by '
          'side; cells of any kind above and below the range; columns of 12 '
          'and 70 cells of one kind with one or two others among them; all '
          'through sheetpack on an xlsx workbook')
OUTSIDE = ('longer columns; the file formats themselves (C26-C29); date '
           'numbers beyond four digits (C25)')
ASSUMPTIONS = ['real arithmetic for date fractions']

KINDS = ('number', 'text', 'date', 'bool', 'error', 'absent')
NONE = {'error', 'absent'}
BOOL = (bool, np.bool_, SymBool)
DAYUS = 86400 * 10 ** 6


def make(env, kind, col, r, tag, mode):
    """(cell or None, value of the cell)."""
    ref = '%s%d' % (col, r)
    if kind == 'number':
        s = env.str('x' + tag, 3, ['-0123456789', '0123456789', '05'])
        s = env.concat(s[:2], '.', s[2:])
        return L.cell(ref, v=s), env.tofloat(s)
    if kind == 'text':
        s = env.str('x' + tag, 2, 'aZ1 ')
        return L.cell(ref, 'str', kids=[L.node('v', {L.SPACE: 'preserve'},
                                               s)]), s
    if kind == 'date':
        s = env.str('x' + tag, 4, ['123456789'] + ['0123456789'] * 3)
        f = env.choice('f' + tag, (('', 0), ('.5', DAYUS // 2)))
        n = 0
        for i in range(4):
            n = n * 10 + env.ord(s[i:i + 1]) - 48
        base = datetime.datetime(1904, 1, 1) if mode else \
            datetime.datetime(1899, 12, 30)
        return L.cell(ref, v=env.concat(s, f[0]), s='1'), \
            env.datetime_us(base, n * DAYUS + f[1])
    if kind == 'bool':
        s = env.str('x' + tag, 1, '01')
        return L.cell(ref, 'b', s), s == '1'
    if kind == 'error':
        return L.cell(ref, 'e', env.choice('x' + tag, (
            '#N/A', '#DIV/0!'))), None
    return None, None


def expected(env, kinds, vals):
    """What the column is to be."""
    ks = set(kinds) - NONE
    nan = float('nan')
    if ks <= {'number'}:
        return [nan if k in NONE else v for k, v in zip(kinds, vals)]
    if ks <= {'text'}:
        return ['' if k in NONE else v for k, v in zip(kinds, vals)]
    return vals


def column(env, got, want):
    got = list(got)
    env.check_same(got, want, 'the column')
    for g, w in zip(got, want):
        env.check(isinstance(g, BOOL) == isinstance(w, BOOL),
                  'truth values and nothing else as such')


def typed(env, n, mode, kinds, cols):
    X = env.load('channelpack.readxl')
    want, cells = {}, [[] for i in range(n)]
    for j in range(cols):
        col = 'BC'[j]
        ks, vs = [], []
        for i in range(n):
            tag = '%d%d' % (i, j)
            k = env.choice('k' + tag, kinds) if j == 0 else \
                ('number' if i else 'absent')
            c, v = make(env, k, col, i + 1, tag, mode)
            if c is not None:
                cells[i].append(c)
            ks.append(k)
            vs.append(v)
        want[1 + j] = expected(env, ks, vs)
    # column A has a number in each row: the range is known
    rows = [L.row(str(i + 1), [L.cell('A%d' % (i + 1), v='1')] + cells[i] +
                  [L.cell('D%d' % (i + 1), v='2')]) for i in range(n)]
    style = L.styles([], ['0', '14'])
    p = L.book(env, [('S', L.sheet(rows))], style=style,
               wbpr={'date1904': str(mode)})
    pack = X.sheetpack(p, header=False, usecols=range(1, 1 + cols))
    env.check(sorted(pack.data) == sorted(want), 'the columns')
    for c in sorted(want):
        column(env, pack(c), want[c])
    env.check_same(pack.names, {}, 'no names')
    env.check(pack.fn == p, 'the file name')


def around(env, n, inner, header):
    """Cells above and below the range do not matter."""
    X = env.load('channelpack.readxl')
    ks = ['text' if n > 1 else env.choice('k0', KINDS)] + [env.choice('k%d' % (i + 1), inner)
                                      for i in range(n)] + \
        [env.choice('k9', KINDS)]
    rows, vs = [], []
    for i, k in enumerate(ks):
        if 0 < i <= n:
            c, v = make(env, k, 'B', i + 1, str(i), 0)
        else:
            ref = 'B%d' % (i + 1)
            c, v = dict(number=L.cell(ref, v='7.5'),
                        text=L.cell(ref, 'str', 'x'),
                        date=L.cell(ref, v='40000', s='1'),
                        bool=L.cell(ref, 'b', '1'),
                        error=L.cell(ref, 'e', '#N/A'),
                        absent=None)[k], None
        vs.append(v)
        rows.append(L.row(str(i + 1), [L.cell('A%d' % (i + 1), v='1')] +
                          ([c] if c is not None else []) +
                          [L.cell('D%d' % (i + 1), v='2')]))
    p = L.book(env, [('S', L.sheet(rows))],
               style=L.styles([], ['0', '14']))
    pack = X.sheetpack(p, header=header, startcell='A%d' % (
        1 if header is True else 2), stopcell='D%d' % (n + 1), usecols='B')
    column(env, pack(1), expected(env, ks[1:-1], vs[1:-1]))


def long(env, n, base, odd, mode):
    """Many cells of one kind, one or two of another anywhere."""
    X = env.load('channelpack.readxl')
    at = env.choice('at', sorted({0, 1, 9, 10, n // 2, n - 2, n - 1}))
    kinds = [base] * n
    kinds[at] = odd
    kinds[n - 1 - at] = env.choice('other', (base, odd, 'absent'))
    rows, vs = [], []
    for i, k in enumerate(kinds):
        if i in (0, at, n - 1 - at, n - 1):
            c, v = make(env, k, 'B', i + 1, str(i), mode)
        else:
            ref = 'B%d' % (i + 1)
            t = '%d' % (40000 + i)
            d = datetime.datetime(1904, 1, 1) if mode else \
                datetime.datetime(1899, 12, 30)
            c, v = dict(number=(L.cell(ref, v=t), float(t)),
                        text=(L.cell(ref, 'str', 'x' + t), 'x' + t),
                        date=(L.cell(ref, v=t, s='1'),
                              d + datetime.timedelta(40000 + i)),
                        bool=(L.cell(ref, 'b', '1'), True),
                        error=(L.cell(ref, 'e', '#N/A'), None),
                        absent=(None, None))[k]
        vs.append(v)
        rows.append(L.row(str(i + 1), [L.cell('A%d' % (i + 1), v='1')] +
                          ([c] if c is not None else []) +
                          [L.cell('D%d' % (i + 1), v='2')]))
    p = L.book(env, [('S', L.sheet(rows))], style=L.styles([], ['0', '14']),
               wbpr={'date1904': str(mode)})
    pack = X.sheetpack(p, header=False, usecols='B')
    column(env, pack(1), expected(env, kinds, vs))


def missing(env, n):
    """Nothing but missing cells is nan."""
    X = env.load('channelpack.readxl')
    cells, e = [], []
    for i in range(n):
        e.append(env.choice('e%d' % i, (None, '#REF!', '#N/A')))
        cells.append([] if e[i] is None else [L.cell('B%d' % (i + 1), 'e',
                                                     e[i])])
    rows = [L.row(str(i + 1), [L.cell('A%d' % (i + 1), v='1')] + cells[i] +
                  [L.cell('C%d' % (i + 1), v='2')]) for i in range(n)]
    p = L.book(env, [('S', L.sheet(rows))])
    pack = X.sheetpack(p, header=False)
    env.check_same(list(pack(1)), [float('nan')] * n, 'missing is nan')
    env.check_same(list(pack(0)), [1.0] * n, 'the neighbour')
    env.check_same(list(pack(2)), [2.0] * n, 'the neighbour')
    env.check(pack.data[1].dtype == float, 'a numeric channel')


def cases(tier):
    q = tier == 'quick'
    out = []
    for mode in (0, 1):
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            if n <= 2:
                sets = (KINDS,)
            elif n == 3:
                sets = (KINDS,) if not q else (
                    ('number', 'error', 'absent'),
                    ('text', 'error', 'absent'),
                    ('date', 'error', 'absent'),
                    ('bool', 'error', 'absent'),
                    ('number', 'text', 'date'), ('number', 'date', 'bool'),
                    ('text', 'date', 'absent'), ('text', 'bool', 'number'),
                    ('number', 'text', 'absent'))
            else:
                sets = (('number', 'text', 'absent'),
                        ('date', 'bool', 'error'),
                        ('number', 'error', 'absent'),
                        ('text', 'error', 'absent'))
            for i, ks in enumerate(sets):
                out.append(dict(name='typed:%d:%d:%d' % (mode, n, i),
                                fn=typed, params=dict(
                                    n=n, mode=mode, kinds=ks, cols=1)))
        out.append(dict(name='two:%d' % mode, fn=typed, params=dict(
            n=2, mode=mode, kinds=KINDS, cols=2)))
    for n in (1, 2):
        for i, ks in enumerate((('number', 'absent'), ('text', 'error'),
                                ('date', 'bool'), ('number', 'text')) +
                               (() if q else (KINDS,))):
            for h in (False, True, 'B1'):
                out.append(dict(name='around:%d:%d:%s' % (n, i, h),
                                fn=around, params=dict(n=n, inner=ks,
                                                       header=h)))
    for n in (12, 70):
        for base in KINDS:
            for odd in KINDS:
                out.append(dict(name='long:%d:%s:%s' % (n, base, odd),
                                fn=long, params=dict(
                                    n=n, base=base, odd=odd,
                                    mode=int(odd == 'date'))))
    for n in (1, 2, 3):
        out.append(dict(name='missing:%d' % n, fn=missing,
                        params=dict(n=n)))
    return out
