"""C27: every cell of an xlsx file arrives in its place as what it is."""
from . import xllib as L

BOUNDS = ('up to 3 rows of up to 3 cells with symbolic columns A..D, with '
          'and without row and cell references, in any order of columns; '
          'cell names of up to 3 letters of A, B, Y, Z; each cell type with '
          'symbolic text of up to 4 characters (6 thorough), shared strings '
          'with runs, escapes and space attributes; 62 built-in formats; up '
          'to 3 sheets in any relation order; 300 shared strings and formats, '
          'texts of 1200 characters, tables of 360 cells with 5 symbolic')
OUTSIDE = ('XML parsing and unzipping themselves (real ElementTree and '
           'zipfile in the replays); ISO date cells')
ASSUMPTIONS = ['trees given to the code are those ElementTree builds: the '
               'replay of each path goes through a real zip file']


def place(env, ncells, nrows, refs):
    """Numbers in symbolic columns of several rows."""
    X = env.load('channelpack.xlrd')
    want, rows = {}, []
    first = env.int('first', 1, 2)
    r = 0
    gap = env.choice('gap', (0, 1)) if nrows > 1 else 0
    for i in range(nrows):
        r = first if i == 0 else r + 1 + (gap if i == 1 else 0)
        if refs == 'none':
            r = i + 1
        cells = []
        for j in range(ncells):
            d = env.str('v%d%d' % (i, j), 1, '123456789')
            if refs == 'all':
                c = env.str('c%d%d' % (i, j), 1, 'ABCD')
                col = env.ord(c) - 65
                for k in range(j):
                    env.assume(col != cells[k][0])
                ref = env.concat(c, env.str_of(r))
            else:
                ref, col = None, j
            cells.append((col, ref, d))
            want[int(r) - 1, int(col)] = (L.NUMBER, env.tofloat(d))
        rows.append(L.row(None if refs == 'none' else env.str_of(r),
                          [L.cell(ref, v=d) for col, ref, d in cells]))
    p = L.book(env, [('S', L.sheet(rows))])
    ws = X.open_workbook(p).sheet_by_index(0)
    full, empty = L.grid(ws)
    env.check_same(full, want, 'the cells')
    env.check(all(v == '' for v in empty), 'the rest is empty')
    env.check(ws.nrows == max(a for a, b in want) + 1 and
              ws.ncols == max(b for a, b in want) + 1, 'the size')


def mixed(env, nrows, ncells):
    """Rows and cells with and without addresses, some of them empty."""
    X = env.load('channelpack.xlrd')
    want, rows = {}, []
    r = 0
    for i in range(nrows):
        named = env.choice('r%d' % i, (0, 1))
        r = r + 1 + (env.choice('g%d' % i, (0, 1)) if named else 0)
        cells, c = [], 0
        for j in range(ncells if not i else env.choice('n%d' % i,
                                                       (ncells, 0))):
            how = env.choice('c%d%d' % (i, j), (0, 1, 2))
            c = c + 1 + (how == 1)
            ref = 'ABCDEFG'[c - 1] + str(r) if how == 1 else None
            if how == 2:
                # no value
                cells.append(L.cell(None))
                continue
            d = env.str('v%d%d' % (i, j), 1, '123456789')
            cells.append(L.cell(ref, v=d))
            want[r - 1, c - 1] = (L.NUMBER, env.tofloat(d))
        rows.append(L.row(str(r) if named else None, cells))
    env.assume(len(want) > 0)
    p = L.book(env, [('S', L.sheet(rows))])
    ws = X.open_workbook(p).sheet_by_index(0)
    full, empty = L.grid(ws)
    env.check_same(full, want, 'the cells')
    env.check(all(v == '' for v in empty), 'the rest is empty')
    env.check(ws.nrows == max(a for a, b in want) + 1 and
              ws.ncols == max(b for a, b in want) + 1, 'the size')


def column(env, n, r, lower, dollar):
    """Any cell name is its column."""
    X = env.load('channelpack.xlrd')
    s = env.str('s', n, 'ABYZ' if n < 3 else ['AX', 'ABYZ', 'ABYZ'])
    if n == 3:
        env.assume(env.lor(s[:1] == 'A', s[1:2] != 'Y'))
        env.assume(env.lor(s[:1] == 'A', s[1:2] != 'Z'))
    col = 0
    for i in range(n):
        col = col * 26 + env.ord(s[i:i + 1]) - 64
    name = s.lower() if lower else s
    if dollar:
        name = env.concat('$', name)
    v = env.str('v', 1, '0123456789')
    p = L.book(env, [('S', L.sheet([L.row(str(r), [L.cell(
        env.concat(name, str(r)), v=v)])]))])
    ws = X.open_workbook(p).sheet_by_index(0)
    env.check(ws.ncols == col, 'the column')
    env.check(ws.nrows == r, 'the row')
    env.check_same(ws.cell_value(r - 1, ws.ncols - 1), env.tofloat(v),
                   'the value')


NUMS = {'int': ['123456789', '0123456789', '0123456789'],
        'dec': ['0123456789', '.', '0123456789', '05'],
        'neg': ['-', '0123456789', '.', '0123456789'],
        'exp': ['123456789', 'eE', '-+', '012'],
        'big': ['123456789', 'E', '1']}


def value(env, kind, n, formula):
    """One cell of each type: its value and type."""
    X = env.load('channelpack.xlrd')
    f = [L.node('f', {}, env.str('f', 1, 'A1'))] if formula else []

    def v(text):
        return f + [L.node('v', {}, text)]
    t, sst = kind.split('/')[0], None
    if t == 'n':
        s = env.str('x', len(NUMS[n]), NUMS[n])
        c, want = L.cell('B2', env.choice('t', (None, 'n')), kids=v(s)), \
            (L.NUMBER, env.tofloat(s))
    elif t == 'b':
        s = env.str('x', 1, '01')
        c, want = L.cell('B2', 'b', kids=v(s)), (
            L.BOOLEAN, env.ord(s) - 48)
    elif t == 'e':
        code, s = env.choice('e', ((0x00, '#NULL!'), (0x07, '#DIV/0!'),
                                   (0x0f, '#VALUE!'), (0x17, '#REF!'),
                                   (0x1d, '#NAME?'), (0x24, '#NUM!'),
                                   (0x2a, '#N/A')))
        c, want = L.cell('B2', 'e', kids=v(s)), (L.ERROR, code)
    elif t == 's':
        texts = [env.str('t%d' % i, 2, 'ab c') for i in range(3)]
        k = env.str('k', 1, '012')
        sst = [L.si(s, 'preserve') for s in texts]
        c = L.cell('B2', 's', kids=v(k))
        want = (L.TEXT, texts[int(env.ord(k)) - 48])
    elif t == 'str':
        s = env.str('x', n, 'aB1"\'<&')
        c, want = L.cell('B2', 'str', kids=v(s)), (L.TEXT, s)
    elif t == 'inlineStr':
        s = env.str('x', n, 'aB1"\'<&')
        c = L.cell('B2', 'inlineStr', kids=[L.node('is', {}, None, [
            L.node('t', {}, s)])] + f)
        want = (L.TEXT, s) if n else None
    elif t == 'empty':
        c = L.cell('B2', env.choice('t', (None, 'n', 's', 'inlineStr')),
                   kids=f + env.choice('v', ([], [L.node('v', {}, '')])))
        want = None
    p = L.book(env, [('S', L.sheet([L.row('2', [
        L.cell('A2', v='7'), c, L.cell('C2', v='8')])]))], sst=sst)
    ws = X.open_workbook(p).sheet_by_index(0)
    full, empty = L.grid(ws)
    w = {(1, 0): (L.NUMBER, 7.0), (1, 2): (L.NUMBER, 8.0)}
    if want is not None:
        w[1, 1] = want
    env.check_same(full, w, 'the cell')
    env.check(all(x == '' for x in empty), 'the rest is empty')


def strip(env, s):
    while len(s) and (s[:1] == ' ' or s[:1] == '\t' or s[:1] == '\n'):
        s = s[1:]
    while len(s) and (s[-1:] == ' ' or s[-1:] == '\t' or s[-1:] == '\n'):
        s = s[:-1]
    return s


def text(env, n, where, space, runs):
    """White space is kept where the file asks for it and runs of rich
    text are joined."""
    X = env.load('channelpack.xlrd')
    parts = [env.str('x%d' % i, n, 'ab \n') for i in range(max(runs, 1))]
    a = {L.SPACE: 'preserve'} if space else {}
    want = [s if space else strip(env, s) for s in parts]
    if runs:
        kids = [L.node('r', {}, None, [L.node('rPr'), L.node('t', a, s)])
                for s in parts]
        # phonetic text is not part of it
        kids.append(L.node('rPh', {}, None, [L.node('t', {}, 'zz')]))
    else:
        kids = [L.node('t', a, parts[0])]
    w = env.concat('', *want)
    if where == 'sst':
        c, sst = L.cell('A1', 's', '1'), [L.si('other'), L.node(
            'si', {}, None, kids), L.si('last')]
    elif where == 'inline':
        c, sst = L.cell('A1', 'inlineStr', kids=[L.node('is', {}, None,
                                                        kids)]), None
    else:
        c, sst = L.cell('A1', 'str', kids=[L.node('v', a, parts[0])]), None
    p = L.book(env, [('S', L.sheet([L.row('1', [c, L.cell(
        'B1', v='1')])]))], sst=sst)
    ws = X.open_workbook(p).sheet_by_index(0)
    if where == 'inline' and len(w) == 0:
        env.check(ws.cell_type(0, 0) == L.EMPTY, 'no text')
        return
    env.check(ws.cell_type(0, 0) == L.TEXT, 'text')
    env.check_same(ws.cell_value(0, 0), w, 'the text')


def escape(env, where):
    """_xHHHH_ stands for the character with that code, in text."""
    X = env.load('channelpack.xlrd')
    h = env.str('h', 3, '0149aAfF')
    mark = env.choice('mark', ('_x%s_', '_x%s', 'x%s_', '_X%s_'))
    a, b = mark.split('%s')
    s = env.concat('a', a, '0', h, b, 'c')
    if mark == '_x%s_':
        v = 0
        for i in range(3):
            c = env.ord(h[i:i + 1])
            v = v * 16 + (c - 48 if c < 58 else c - 55 if c < 71 else c - 87)
        w = env.concat('a', env.chr(v), 'c')
    else:
        w = s
    if where == 'sst':
        c, sst = L.cell('A1', 's', '0'), [L.si(s)]
    elif where == 'inline':
        c, sst = L.cell('A1', 'inlineStr', kids=[L.node('is', {}, None, [
            L.node('t', {}, s)])]), None
    else:
        c, sst = L.cell('A1', 'str', s), None
    p = L.book(env, [('S', L.sheet([L.row('1', [c])]))], sst=sst)
    ws = X.open_workbook(p).sheet_by_index(0)
    env.check_same(ws.cell_value(0, 0), w, 'the text')


DATES = set(range(14, 23)) | set(range(45, 48))


def builtin(env, lo, hi):
    """The built-in date formats make dates of numbers."""
    X = env.load('channelpack.xlrd')
    i = env.int('i', lo, hi)
    v = env.str('v', 1, '123456789')
    p = L.book(env, [('S', L.sheet([L.row('1', [
        L.cell('A1', v=v, s='1'), L.cell('B1', v=v, s='0'),
        L.cell('C1', v=v), L.cell('D1', 't' and None, v=v, s='2')])]))],
        style=L.styles(xfs=['0', env.str_of(i), None],
                       stylexfs=['14', '14', '14', '14']))
    ws = X.open_workbook(p).sheet_by_index(0)
    date = False
    for d in sorted(DATES):
        if i == d:
            date = True
    env.check(ws.cell_type(0, 0) == (L.DATE if date else L.NUMBER),
              'date or number')
    for c in (1, 2, 3):
        env.check(ws.cell_type(0, c) == L.NUMBER, 'a number')
    for c in range(4):
        env.check_same(ws.cell_value(0, c), env.tofloat(v), 'the value')


CODES = (('yyyy-mm-dd', True), ('0.00', False), ('hh:mm:ss', True),
         ('#,##0', False), ('[Red]0.0', False), ('d/m/yy', True),
         ('General', False), ('"day "0', False), ('mmm\\ d', True))


def custom(env, n):
    """Formats of the file: each cell by the format of its style."""
    X = env.load('channelpack.xlrd')
    fm = [(str(164 + i), env.choice('f%d' % i, CODES[i:i + 5]))
          for i in range(n)]
    use = [env.choice('x%d' % i, range(n)) for i in range(n)]
    date1904 = env.choice('d', (None, '0', '1', 'true', 'false'))
    s = env.int('s', 0, n - 1)
    p = L.book(env, [('S', L.sheet([L.row('1', [L.cell(
        'A1', v='40000.5', s=env.str_of(s))])]))], style=L.styles(
            [(i, c[0]) for i, c in fm], [fm[u][0] for u in use],
            ['14', '0']),
        wbpr=None if date1904 is None else {'date1904': date1904})
    wb = X.open_workbook(p)
    ws = wb.sheet_by_index(0)
    env.check(ws.cell_type(0, 0) == (
        L.DATE if fm[use[int(s)]][1][1] else L.NUMBER), 'date or number')
    env.check_same(ws.cell_value(0, 0), 40000.5, 'the value')
    env.check(wb.datemode == (1 if date1904 in ('1', 'true') else 0),
              'the date system')


TARGETS = ('worksheets/sheet1.xml', '/xl/worksheets/sheet2.xml',
           'worksheets/Data.xml')


def sheets(env, n):
    """The sheets come in the order of the workbook whatever the relation
    ids and file names are."""
    X = env.load('channelpack.xlrd')
    vals = [env.str('v%d' % i, 1, '0123456789') for i in range(n)]
    names = [env.str('n%d' % i, 1, 'PQpq') for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(names[i] != names[j])
    perm = env.choice('perm', {1: ((0,),), 2: ((0, 1), (1, 0)),
                               3: ((0, 1, 2), (0, 2, 1), (1, 0, 2),
                                   (1, 2, 0), (2, 0, 1), (2, 1, 0))}[n])
    chart = env.choice('chart', [None] + list(range(n)))
    trees = [L.sheet([L.row('1', [L.cell('A1', v=v)])]) for v in vals]
    rels = [('rId%d' % (perm[i] + 1),
             'chartsheet' if chart == i else 'worksheet', TARGETS[perm[i]])
            for i in range(n)]
    p = L.book(env, list(zip(names, trees)), rels=rels)
    wb = X.open_workbook(p)
    keep = [i for i in range(n) if i != chart]
    env.check(wb.nsheets == len(keep), 'the number of sheets')
    env.check_same(wb.sheet_names(), [names[i] for i in keep], 'the names')
    for k, i in enumerate(keep):
        env.check_same(wb.sheet_by_index(k).cell_value(0, 0),
                       env.tofloat(vals[i]), 'the sheet by number')
        env.check_same(wb.sheet_by_name(names[i]).cell_value(0, 0),
                       env.tofloat(vals[i]), 'the sheet by name')
    env.raises(X.XLRDError, wb.sheet_by_name, 'other')
    env.raises(IndexError, wb.sheet_by_index, len(keep))


def merged(env):
    """Merged cells are part of the sheet, with the value in the first."""
    X = env.load('channelpack.xlrd')
    c = env.str('c', 1, 'ABC')
    r = env.int('r', 1, 4)
    p = L.book(env, [('S', L.sheet([L.row('1', [L.cell('A1', v='5'), L.cell(
        'B1', v='6')]), L.row('2', [L.cell('A2', v='7')])], [L.node(
            'mergeCells', {}, None, [L.node('mergeCell', {'ref': env.concat(
                'A2:', c, env.str_of(r + 1))})])]))])
    ws = X.open_workbook(p).sheet_by_index(0)
    full, empty = L.grid(ws)
    env.check_same(full, {(0, 0): (2, 5.0), (0, 1): (2, 6.0),
                          (1, 0): (2, 7.0)}, 'the cells')
    env.check(all(v == '' for v in empty), 'the rest is empty')
    col = env.ord(c) - 64
    if col < 2:
        col = 2
    env.check(ws.ncols == col, 'the columns')
    env.check(ws.nrows == r + 1, 'the rows')


def many(env, n):
    """Many shared strings and formats; the cells use some of them."""
    X = env.load('channelpack.xlrd')
    ks = sorted({k for k in (0, 1, 9, 10, 63, 64, 99, 100, 127, 128, 255,
                             256, n - 1) if k < n})
    sst = [L.si(env.concat('t', env.str('s%d' % k, 1, 'abc')))
           if k in ks else L.si('t%d' % k) for k in range(n)]
    want, rows = {}, []
    k = env.choice('k', ks)
    s = env.choice('s', ks)
    x = env.str('x', 1, '123456789')
    rows = [L.row('1', [L.cell('A1', 's', str(k)),
                        L.cell('B1', v=x, s=str(s))])]
    p = L.book(env, [('S', L.sheet(rows))], sst, L.styles(
        [(str(164 + i), 'yyyy' if i % 3 == 1 else '0.00')
         for i in range(n)], [str(164 + i) for i in range(n)]))
    ws = X.open_workbook(p).sheet_by_index(0)
    env.check_same(ws.cell_value(0, 0), sst[k][3][0][2], 'the text')
    env.check_same(ws.cell_value(0, 1), env.tofloat(x), 'the number')
    env.check(ws.cell_type(0, 1) == (L.DATE if s % 3 == 1 else L.NUMBER),
              'date or number')


def longtext(env, where, n):
    """Long text, in one piece or in runs."""
    X = env.load('channelpack.xlrd')
    a, b = env.str('a', 1, 'ab '), env.str('b', 1, 'ab')
    s = env.concat('x', a, 'xyz ' * n, b)
    t = L.node('t', {}, s)
    sst = None
    if where == 'str':
        c = L.cell('A1', 'str', s)
    elif where == 'inline':
        c = L.cell('A1', 'inlineStr', kids=[L.node('is', {}, None, [t])])
    else:
        c = L.cell('A1', 's', '1')
        kids = [t] if where == 'sst' else [
            L.node('r', {}, None, [L.node('t', {}, x)])
            for x in [env.concat('x', a)] + ['xyz'] * n + [b]]
        sst = [L.si('q'), L.node('si', {}, None, kids)]
        if where == 'runs':
            s = env.concat('x', a, 'xyz' * n, b)
            env.assume(a != ' ')
    p = L.book(env, [('S', L.sheet([L.row('1', [c])]))], sst)
    ws = X.open_workbook(p).sheet_by_index(0)
    env.check_same(ws.cell_value(0, 0), s, 'the text')


def table(env, nr, nc, refs):
    """Many rows and columns."""
    X = env.load('channelpack.xlrd')
    want, rows = {}, []
    sym = {(0, 0), (9, 9), (10, 26), (nr - 1, nc - 1), (nr - 1, 0)}
    for r in range(nr):
        cells = []
        for c in range(nc):
            d = env.str('v%d_%d' % (r, c), 1, '123456789') \
                if (r, c) in sym else '%d' % (r * 100 + c)
            ref = ('' if c < 26 else chr(64 + c // 26)) + chr(65 + c % 26)
            cells.append(L.cell(ref + str(r + 1) if refs == 'all' else None,
                                v=d))
            want[r, c] = (L.NUMBER, env.tofloat(d))
        rows.append(L.row(None if refs == 'none' else str(r + 1), cells))
    p = L.book(env, [('S', L.sheet(rows))])
    ws = X.open_workbook(p).sheet_by_index(0)
    full, empty = L.grid(ws)
    env.check_same(full, want, 'the cells')
    env.check(not empty, 'no other cells')


def letters(env, comments):
    """Names of the members in any letter case; the sheet has relations
    and perhaps comments, which are no cells."""
    X = env.load('channelpack.xlrd')
    up, low = env.choice('up', (0, 1)), env.choice('low', (0, 1))
    v = env.str('v', 1, '0123456789')
    t = 'worksheets/%sheet1.xml' % ('S' if up else 's')
    rel, target = ('comments', '../comments1.xml') if comments else (
        'hyperlink', 'http://example')
    more = {'xl/worksheets/_rels/%s.rels' % t[11:]: (
        L.PR + 'Relationships', {}, None, [
            (L.PR + 'Relationship', {'Id': 'rId1', 'Type': L.TYPE + rel,
                                     'Target': target}, None, [])])}
    if comments:
        more['xl/%somments1.xml' % ('c' if low else 'C')] = L.node(
            'comments', {}, None, [
                L.node('authors', {}, None, [L.node('author', {}, 'me')]),
                L.node('commentList', {}, None, [
                    L.node('comment', {'ref': 'C3', 'authorId': '0'}, None, [
                        L.node('text', {}, None, [L.node('t', {}, v)])])])])
    p = L.book(env, [('S', L.sheet([L.row('1', [L.cell('A1', v=v)])]))],
               rels=[('rId1', 'worksheet', t)], more=more)
    ws = X.open_workbook(p).sheet_by_index(0)
    env.check_same(ws.cell_value(0, 0), env.tofloat(v), 'the cell')
    env.check(ws.nrows == 1 and ws.ncols == 1, 'the size')


def cases(tier):
    q = tier == 'quick'
    out = []
    for ncells, nrows in ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3)) + (
            () if q else ((3, 1), (3, 2), (2, 3))):
        out.append(dict(name='mixed:%d:%d' % (nrows, ncells), fn=mixed,
                        params=dict(nrows=nrows, ncells=ncells)))
        for refs in ('all', 'rows', 'none'):
            out.append(dict(name='place:%d:%d:%s' % (ncells, nrows, refs),
                            fn=place, params=dict(
                                ncells=ncells, nrows=nrows, refs=refs)))
    for n in (1, 2, 3):
        for r in (1, 10):
            for lower in (False, True):
                out.append(dict(name='column:%d:%d:%d' % (n, r, lower),
                                fn=column, params=dict(
                                    n=n, r=r, lower=lower, dollar=False)))
    for formula in (False, True):
        for k in sorted(NUMS):
            out.append(dict(name='value:n:%s:%d' % (k, formula), fn=value,
                            params=dict(kind='n', n=k, formula=formula)))
        for k in ('b', 'e', 's', 'empty'):
            out.append(dict(name='value:%s:%d' % (k, formula), fn=value,
                            params=dict(kind=k, n=0, formula=formula)))
        for n in range(1, 4 if q else 6):
            for k in ('str', 'inlineStr'):
                out.append(dict(name='value:%s:%d:%d' % (k, n, formula),
                                fn=value, params=dict(
                                    kind=k, n=n, formula=formula)))
    for where in ('sst', 'inline', 'str'):
        out.append(dict(name='escape:' + where, fn=escape,
                        params=dict(where=where)))
        for space in (False, True):
            for runs in (0, 1, 2) if where != 'str' else (0,):
                for n in range(1, 3 if runs == 2 else 4 if q else 5):
                    out.append(dict(name='text:%s:%d:%d:%d' % (
                        where, space, runs, n), fn=text, params=dict(
                            n=n, where=where, space=space, runs=runs)))
    for lo in range(0, 62, 8):
        for a, b in ((lo, min(lo + 7, 26)), (max(lo, 37), min(lo + 7, 49))):
            if a <= b:
                out.append(dict(name='builtin:%d:%d' % (a, b), fn=builtin,
                                params=dict(lo=a, hi=b)))
    for n in (1, 2) if q else (1, 2, 3):
        out.append(dict(name='custom:%d' % n, fn=custom, params=dict(n=n)))
    for n in (1, 2, 3):
        out.append(dict(name='sheets:%d' % n, fn=sheets, params=dict(n=n)))
    for n in (12, 130, 300):
        out.append(dict(name='many:%d' % n, fn=many, params=dict(n=n)))
    for n in (70, 300):
        for where in ('str', 'inline', 'sst', 'runs'):
            out.append(dict(name='longtext:%s:%d' % (where, n), fn=longtext,
                            params=dict(n=n, where=where)))
    for nr, nc in ((3, 60), (12, 30), (120, 2)):
        for refs in ('all', 'rows', 'none'):
            out.append(dict(name='table:%d:%d:%s' % (nr, nc, refs), fn=table,
                            params=dict(nr=nr, nc=nc, refs=refs)))
    out.append(dict(name='merged', fn=merged))
    for c in (False, True):
        out.append(dict(name='letters:%d' % c, fn=letters,
                        params=dict(comments=c)))
    return out
