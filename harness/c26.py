"""C26: a sheet is the grid of its cells, whatever order they come in."""
from . import xllib as L

BOUNDS = ('1..3 cells (thorough 4) at symbolic places of a 4 by 4 grid '
          '(3 by 3 from 3 cells), each row element in any order, with '
          'regular and ragged rows; every slice with symbolic limits from '
          '-5 to 6 of a column and a row of a sheet of 4 by 3 cells; 3 cells at '
          'all pairs of 10 places up to row 70001 and column AAA')
OUTSIDE = 'other large sheets; the limits of the formats (65536 or 2**20 rows)'
ASSUMPTIONS = []


def made(env, n, size, ragged):
    X = env.load('channelpack.xlrd')
    want, rows, seen = {}, [], []
    for i in range(n):
        r, c = env.int('r%d' % i, 0, size - 1), env.int('c%d' % i, 0,
                                                        size - 1)
        r, c = int(r), int(c)
        env.assume((r, c) not in seen)
        seen.append((r, c))
        v = env.str('v%d' % i, 1, '123456789')
        ref = env.concat('ABCDEF'[c], str(r + 1))
        rows.append(L.row(str(r + 1), [L.cell(ref, v=v)]))
        want[r, c] = (L.NUMBER, env.tofloat(v))
    p = L.book(env, [('S', L.sheet(rows))])
    ws = X.open_workbook(p, ragged_rows=ragged).sheet_by_index(0)
    nr, nc = max(r for r, c in want) + 1, max(c for r, c in want) + 1
    env.check(ws.nrows == nr and ws.ncols == nc, 'the size')
    for r in range(nr):
        cols = [c for a, c in want if a == r]
        last = nc if not ragged else max(cols) + 1 if cols else 0
        env.check(ws.row_len(r) == last, 'the length of a row')
        env.check_same(list(ws.row_types(r)), [
            want[r, c][0] if (r, c) in want else L.EMPTY
            for c in range(last)], 'the types of a row')
        env.check_same(list(ws.row_values(r)), [
            want[r, c][1] if (r, c) in want else ''
            for c in range(last)], 'the values of a row')
    if not ragged:
        for c in range(nc):
            env.check_same(ws.col_values(c), [
                want[r, c][1] if (r, c) in want else ''
                for r in range(nr)], 'the values of a column')
            env.check_same(list(ws.col_types(c)), [
                want[r, c][0] if (r, c) in want else L.EMPTY
                for r in range(nr)], 'the types of a column')


FAR = ((0, 0), (9, 25), (10, 26), (99, 51), (100, 52), (255, 255),
       (256, 256), (300, 701), (1023, 702), (70000, 1))


def column(c):
    s = ''
    c += 1
    while c:
        c, d = divmod(c - 1, 26)
        s = chr(65 + d) + s
    return s


def far(env, lo, hi, ragged):
    """Two cells far apart, in any order, and one beside the first."""
    X = env.load('channelpack.xlrd')
    a = env.choice('a', FAR[lo:hi])
    b = env.choice('b', FAR)
    env.assume(a != b)
    want, rows = {}, []
    for i, (r, c) in enumerate((a, b, (a[0], a[1] + 1))):
        if (r, c) in want:
            continue
        v = env.str('v%d' % i, 1, '123456789')
        want[r, c] = env.tofloat(v)
        rows.append(L.row(str(r + 1), [L.cell(column(c) + str(r + 1), v=v)]))
    p = L.book(env, [('S', L.sheet(rows))])
    ws = X.open_workbook(p, ragged_rows=ragged).sheet_by_index(0)
    nr, nc = max(r for r, c in want) + 1, max(c for r, c in want) + 1
    env.check(ws.nrows == nr and ws.ncols == nc, 'the size')
    for r, c in want:
        env.check(ws.cell_type(r, c) == L.NUMBER, 'the type of a cell')
        env.check_same(ws.cell_value(r, c), want[r, c], 'the cell')
        cols = sorted(k for x, k in want if x == r)
        last = max(cols) + 1 if ragged else nc
        env.check(ws.row_len(r) == last, 'the length of a row')
        t = ws.row_types(r)
        env.check([k for k in range(len(t)) if t[k] != L.EMPTY] == cols,
                  'the other cells of the row are empty')
        if not ragged:
            t = ws.col_types(c)
            env.check([k for k in range(len(t)) if t[k] != L.EMPTY] ==
                      sorted(x for x, k in want if k == c),
                      'the other cells of the column are empty')


def sliced(env, what):
    """Slices of rows and columns are those of the list."""
    X = env.load('channelpack.xlrd')
    vals = [[env.str('v%d%d' % (r, c), 1, '123456789') for c in range(3)]
            for r in range(4)]
    p = L.book(env, [('S', L.sheet([L.row(str(r + 1), [
        L.cell('ABC'[c] + str(r + 1), v=vals[r][c]) for c in range(3)])
        for r in range(4)]))])
    ws = X.open_workbook(p).sheet_by_index(0)
    a = env.int('a', -5, 6)
    b = env.choice('b', [None] + list(range(-5, 7)))
    i = env.choice('i', (0, 1, 2))
    line = [env.tofloat(vals[i][c]) for c in range(3)] \
        if what.startswith('row') else [env.tofloat(vals[r][i])
                                        for r in range(4)]
    full = [L.NUMBER] * len(line) if what.endswith('types') else line
    n = len(line)
    if b is None or b > -n:
        want = full[int(a):b]
    else:
        want = []
    got = getattr(ws, what)(i, a) if b is None else \
        getattr(ws, what)(i, a, b)
    if what.endswith('slice'):
        env.check(all(c.ctype == L.NUMBER for c in got), 'the types')
        got = [c.value for c in got]
    env.check_same(list(got), want, 'the slice')


def single(env):
    """All ways to get at a cell agree."""
    X = env.load('channelpack.xlrd')
    vals = [[env.str('v%d%d' % (r, c), 1, '123456789') for c in range(3)]
            for r in range(3)]
    p = L.book(env, [('S', L.sheet([L.row(str(r + 1), [
        L.cell('ABC'[c] + str(r + 1), v=vals[r][c]) for c in range(3)])
        for r in range(3)]))])
    wb = X.open_workbook(p)
    ws = wb.sheet_by_index(0)
    r, c = env.int('r', 0, 3), env.int('c', 0, 3)
    r, c = int(r), int(c)
    if r > 2 or c > 2:
        env.raises(IndexError, ws.cell_value, r, c)
        env.raises(IndexError, ws.cell_type, r, c)
        env.raises(IndexError, ws.cell, r, c)
        return
    w = env.tofloat(vals[r][c])
    env.check_same(ws.cell_value(r, c), w, 'cell_value')
    env.check(ws.cell_type(r, c) == L.NUMBER, 'cell_type')
    for k in (ws.cell(r, c), ws[r, c], ws[r][c], ws.row(r)[c],
              ws.col(c)[r], list(ws.get_rows())[r][c], list(ws)[r][c],
              wb['S'][r, c], wb[0][r, c]):
        env.check_same(k.value, w, 'the value')
        env.check(k.ctype == L.NUMBER, 'the type')


def cases(tier):
    q = tier == 'quick'
    out = []
    for ragged in (False, True):
        for n, size in ((1, 4), (2, 4), (3, 3)) + (
                () if q else ((3, 4), (4, 3))):
            out.append(dict(name='made:%d:%d:%d' % (n, size, ragged),
                            fn=made, params=dict(n=n, size=size,
                                                 ragged=ragged)))
    for what in ('col_values', 'col_types', 'col_slice', 'row_values',
                 'row_types', 'row_slice'):
        out.append(dict(name='slice:' + what, fn=sliced,
                        params=dict(what=what)))
    for ragged in (False, True):
        for i in range(0, len(FAR), 2):
            out.append(dict(name='far:%d:%d' % (i, ragged), fn=far,
                            params=dict(lo=i, hi=i + 2, ragged=ragged)))
    out.append(dict(name='single', fn=single))
    return out
