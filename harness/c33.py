"""C33: how a workbook is opened does not change its cells."""
import io
import struct
from . import bifflib as B
from . import xllib as L
from . import c32

BOUNDS = ('xls workbooks of up to 2 sheets with up to 3 cells (numbers, '
          'dates, packed and shared texts, booleans, blanks) at symbolic '
          'places 0..1 and with symbolic values, of BIFF8, BIFF5, and BIFF 2-4 '
          'worksheets; xlsx '
          'workbooks of 2 sheets; combinations (quick: in part) of: by name or as bytes, '
          'memory map or not, on demand or not (sheets asked for in either '
          'order, once, again and after unloading), ragged rows or not, '
          'formatting or not, messages or not; encoding given in 3 code '
          'pages against those of the file')
OUTSIDE = ('the formatting itself, other than the number of the format of '
           'each cell')
ASSUMPTIONS = []


def place(env, i, used, n=1):
    b = env.bytes('at%d' % i, 2, bytes(range(n + 1)))
    p = env.concat(b[0:1], b'\0', b[1:2], b'\0')
    at = (int(b[0]), int(b[1]))
    env.assume(at not in used)
    return p, at


def cells(env, kinds):
    """Records, and {place: (type, value, format)}."""
    recs, want = [], {}
    for i, kind in enumerate(kinds):
        p, at = place(env, i, want)
        if kind == 'blank':
            x = env.bytes('x%d' % i, 1, b'\0\1')
            recs.append(B.rec(env, 0x201, p, x, b'\0'))
            want[at] = (L.BLANK, '', x[0])
        elif kind == 'mulblank':
            env.assume(at[1] == 0 and (at[0], 1) not in want)
            recs.append(B.rec(env, 0xbe, p, B.u16(1), B.u16(0), B.u16(1)))
            want[at] = (L.BLANK, '', 1)
            want[at[0], 1] = (L.BLANK, '', 0)
        elif kind == 'text':
            k = env.bytes('k%d' % i, 1, b'\0\1')
            recs.append(B.rec(env, 0xfd, p, b'\1\0', k, b'\0\0\0'))
            want[at] = (L.TEXT, 'ab' if k[0] == 0 else 'c', 1)
        elif kind == 'bool':
            v = env.bytes('v%d' % i, 1, b'\0\1')
            recs.append(B.rec(env, 0x205, p, b'\0\0', v, b'\0'))
            want[at] = (L.BOOLEAN, v[0], 0)
        else:
            x = env.bytes('x%d' % i, 1, b'\0\1')
            v = env.bytes('v%d' % i, 1, bytes(range(256)))
            recs.append(B.rec(env, 0x27e, p, x, b'\0\2', v, b'\0\0'))
            want[at] = (L.DATE if x[0] == 1 else L.NUMBER,
                        env.tofloat(v[0] * 64), x[0])
    return recs, want


def globs(env, version=0x0600):
    out = [B.rec(env, 0x31, struct.pack('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0,
                                        0, 0, 0, 0), b'\1', b'\0' if version
                 == 0x0600 else b'', b'A')]
    out += [B.xf(env, 0, version), B.xf(env, 14, version)]
    if version == 0x0600:
        out.append(B.rec(env, 0xfc, struct.pack('<ii', 2, 2),
                         B.ustr(env, 'ab'), B.ustr(env, 'c')))
    return out


def options(env, names):
    kw = {}
    for n in names:
        if n == 'contents':
            continue
        if n == 'use_mmap':
            if env.bool(n):
                kw[n] = False
        elif env.bool(n):
            kw[n] = 1 if n == 'verbosity' else True
    return kw


def compare(env, ws, want, kw, maxpad=True):
    """The cells of the sheet are as put, with the blanks if the formatting
    is asked for."""
    fmt, ragged = kw.get('formatting_info'), kw.get('ragged_rows')
    want = {k: v for k, v in want.items() if fmt or v[0] != L.BLANK}
    nr = max([r for r, c in want] + [-1]) + 1
    nc = max([c for r, c in want] + [-1]) + 1
    env.check(ws.nrows == nr and ws.ncols == nc, 'the size')
    for r in range(nr):
        cs = [c for a, c in want if a == r]
        n = nc if not ragged else max(cs) + 1 if cs else 0
        env.check(ws.row_len(r) == n, 'the length of a row')
        for c in range(n):
            t, v, x = want.get((r, c), (L.EMPTY, '', None))
            env.check(ws.cell_type(r, c) == t, 'the type')
            env.check_same(ws.cell_value(r, c), v, 'the value')
            if fmt and x is not None:
                env.check(ws.cell_xf_index(r, c) == x,
                          'the number of the format')


def opened(env, data, kw, contents=True, fname='t.xls'):
    X = env.load('channelpack.xlrd')
    if contents and env.bool('contents'):
        return X.open_workbook(file_contents=data, logfile=io.StringIO(),
                               **kw)
    return X.open_workbook(env.file(fname, data), logfile=io.StringIO(),
                           **kw)


OPTS = ('on_demand', 'ragged_rows', 'formatting_info')
FULL = OPTS + ('use_mmap', 'contents')


def xls(env, kinds, opts, version=0x0600):
    recs, want = cells(env, kinds)
    kw = options(env, opts)
    wb = opened(env, B.stream(env, globs(env, version),
                              [('S', 0, 0, recs)], version), kw,
                'contents' in opts)
    compare(env, wb.sheet_by_index(0), want, kw)


def merged(env, kinds):
    """A merged range, within the cells or outside: the sheet is as large as
    to hold it, the cells are the same."""
    recs, want = cells(env, kinds)
    b = env.bytes('merged', 2, [b'\0\1\3', b'\1\2\5'])
    r, c = int(b[0]), int(b[1])
    recs.append(B.rec(env, 0xe5, b'\1\0', b'\0\0', b[0:1], b'\0', b'\0\0',
                      b[1:2], b'\0'))
    kw = options(env, OPTS[1:])
    ws = opened(env, B.stream(env, globs(env), [('S', 0, 0, recs)]), kw,
                False).sheet_by_index(0)
    fmt, ragged = kw.get('formatting_info'), kw.get('ragged_rows')
    want = {k: v for k, v in want.items() if fmt or v[0] != L.BLANK}
    nr = max([a for a, _ in want] + [-1]) + 1
    nc = max([a for _, a in want] + [-1]) + 1
    if fmt:
        nr, nc = max(nr, r + 1), max(nc, c + 1)
    env.check(ws.nrows == nr and ws.ncols == nc, 'the size')
    for i in range(nr):
        cs = [b for a, b in want if a == i]
        n = ws.row_len(i)
        if not ragged:
            env.check(n == nc, 'the length of a row')
        elif cs:
            env.check(n == max(cs) + 1, 'the length of a ragged row')
        else:
            env.check(n <= 1, 'the length of a row without cells')
        for j in range(n):
            t, v, x = want.get((i, j), (L.EMPTY, '', None))
            env.check(ws.cell_type(i, j) == t, 'the type')
            env.check_same(ws.cell_value(i, j), v, 'the value')
            if fmt and x is not None:
                env.check(ws.cell_xf_index(i, j) == x,
                          'the number of the format')


def sheets(env, names, verbose):
    """Two sheets on demand, in either order, unloaded and loaded again."""
    vals = [env.bytes('v%d' % i, 1, bytes(range(256))) for i in range(2)]
    ss = [('S%d' % i, 0, 0, [
        B.rec(env, 0x27e, b'\0\0\0\0', bytes([i]), b'\0\2', vals[i],
              b'\0\0'),
        B.rec(env, 0xfd, b'\1\0\1\0\0\0', bytes([i]), b'\0\0\0')])
        for i in range(2)]
    want = [{(0, 0): ((L.NUMBER, L.DATE)[i], env.tofloat(vals[i][0] * 64), i),
             (1, 1): (L.TEXT, ('ab', 'c')[i], 0)} for i in range(2)]
    kw = options(env, ('use_mmap', 'ragged_rows'))
    if verbose:
        kw['verbosity'] = verbose
    kw['on_demand'] = True
    wb = opened(env, B.stream(env, globs(env), ss), kw)
    env.check(wb.nsheets == 2 and wb.sheet_names() == ['S0', 'S1'],
              'the names before loading')
    loaded = [False, False]
    for k in range(3):
        i = env.choice('i%d' % k, (0, 1))
        key = ('S0', 'S1')[i] if names else i
        env.check(wb.sheet_loaded(key) == loaded[i], 'loaded or not')
        ws = wb.sheet_by_name(key) if names else wb.sheet_by_index(key)
        env.check(ws.name == 'S%d' % i, 'the name')
        compare(env, ws, want[i], kw)
        loaded[i] = True
        env.check(wb.sheet_loaded(key), 'loaded now')
        if k < 2 and env.choice('unload%d' % k, (False, True)):
            wb.unload_sheet(key)
            loaded[i] = False
            env.check(not wb.sheet_loaded(key), 'not loaded any more')
    how = env.choice('all', ('sheets', 'iter', 'getitem'))
    if how == 'sheets':
        got = wb.sheets()
    elif how == 'iter':
        got = list(wb)
    else:
        got = [wb[0], wb['S1']]
    env.check(len(got) == 2, 'all sheets')
    for i in range(2):
        compare(env, got[i], want[i], kw)
    wb.release_resources()
    for i in range(2):
        compare(env, wb.sheet_by_index(i), want[i], kw)


PAGES = ((None, 'latin-1'), (1251, 'cp1251'), (437, 'cp437'))


def encoding(env, version, n):
    """The encoding given stands in for that of the file."""
    page = env.choice('page', PAGES)
    over = env.choice('over', (None, 'cp1251', 'cp437', 'latin-1'))
    enc = over or page[1]
    b = env.bytes('s', n, bytes([0x41, 0x7e, 0xe5, 0xc6]))
    X = env.load('channelpack.xlrd')
    recs = [] if page[0] is None else [B.rec(env, 0x42, B.u16(page[0]))]
    if version == 5:
        lab = B.rec(env, 0x204, b'\0' * 6, B.u16(n), b)
        data = B.stream(env, recs, [('S', 0, 0, [lab])], 0x0500)
    else:
        lab = B.rec(env, 4 if version == 2 else 0x204, b'\0' * 4,
                    c32.attr(version), bytes([n]) if version == 2 else
                    B.u16(n), b)
        data = env.concat(c32.bof(version), *(recs + [lab, B.EOF]))
    kw = {'encoding_override': over} if over else {}
    ws = opened(env, data, kw).sheet_by_index(0)
    env.check(ws.cell_type(0, 0) == L.TEXT, 'text')
    env.check_same(ws.cell_value(0, 0), b.decode(enc), 'the text')


def old(env, v, kinds, opts):
    """Worksheets before BIFF5."""
    recs, want = [], {}
    recs += [c32.fmt(env, v, 'General'), c32.fmt(env, v, 'yyyy-mm-dd')]
    if v > 2:
        recs += [c32.xf(env, v, b'\0'), c32.xf(env, v, b'\1')]
    for i, kind in enumerate(kinds):
        p, at = place(env, i, want)
        x = env.choice('x%d' % i, (0, 1))
        a = c32.attr(v, x)
        if kind == 'blank':
            recs.append(B.rec(env, 1 if v == 2 else 0x201, p, a))
            want[at] = (L.BLANK, '', None if v == 2 else x)
        else:
            m = env.bytes('m%d' % i, 2, bytes(range(256)))
            d = env.concat(b'\0' * 4, m, b'\xf0\x40')
            recs.append(B.rec(env, 3 if v == 2 else 0x203, p, a, d))
            want[at] = ((L.NUMBER, L.DATE)[x], env.double(d),
                        None if v == 2 else x)
    kw = options(env, opts)
    wb = opened(env, env.concat(c32.bof(v), *(recs + [B.EOF])), kw,
                'contents' in opts)
    compare(env, wb.sheet_by_index(0), want, kw)


def xlsx(env, verbose):
    vals = [env.str('v%d' % i, 1, '0123456789') for i in range(2)]
    col = [env.choice('c%d' % i, (0, 1)) for i in range(2)]
    trees = [L.sheet([
        L.row('1', [L.cell('AB'[col[i]] + '1', None, vals[i])]),
        L.row('2', [L.cell('B2', 's', str(i))])]) for i in range(2)]
    want = [{(0, col[i]): (L.NUMBER, env.tofloat(vals[i]), None),
             (1, 1): (L.TEXT, ('ab', 'c')[i], None)} for i in range(2)]
    kw = options(env, ('use_mmap', 'on_demand', 'ragged_rows'))
    if verbose:
        kw['verbosity'] = verbose
    X = env.load('channelpack.xlrd')
    p = L.book(env, [('S0', trees[0]), ('S1', trees[1])],
               sst=[L.si('ab'), L.si('c')])
    if env.bool('contents'):
        wb = X.open_workbook(file_contents=env.content(p),
                             logfile=io.StringIO(), **kw)
    else:
        wb = X.open_workbook(p, logfile=io.StringIO(), **kw)
    i = env.choice('first', (0, 1))
    for k in (i, 1 - i):
        compare(env, wb.sheet_by_index(k), want[k], kw)
        compare(env, wb.sheet_by_name('S%d' % k), want[k], kw)


KINDS = (('num', 'text'), ('num', 'blank'), ('blank', 'num'),
         ('mulblank', 'bool'), ('num', 'mulblank'), ('text', 'blank'),
         ('num', 'num'), ('blank', 'blank'))


def cases(tier):
    out = []
    opts = FULL if tier == 'thorough' else OPTS

    def add(name, fn, **params):
        out.append(dict(name=name, fn=fn, params=params))
    for k in KINDS:
        add('xls:' + ','.join(k), xls, kinds=k, opts=FULL if
            k == ('num', 'text') else opts)
    add('xls:verbose', xls, kinds=('num', 'text'), opts=(
        'verbosity', 'formatting_info', 'ragged_rows'))
    add('xls:corrupt', xls, kinds=('num', 'bool'), opts=(
        'ignore_workbook_corruption', 'use_mmap'))
    for k in (('num', 'blank'), ('mulblank', 'num')):
        add('xls5:' + ','.join(k), xls, kinds=k, opts=opts, version=0x0500)
    if tier == 'thorough':
        for k in (('num', 'blank', 'text'), ('blank', 'num', 'num'),
                  ('num', 'text', 'blank'), ('mulblank', 'num', 'bool'),
                  ('bool', 'blank', 'blank')):
            add('xls:' + ','.join(k), xls, kinds=k, opts=OPTS)
    for k in (('num', 'blank'), ('num',), ('text', 'num')):
        add('merged:' + ','.join(k), merged, kinds=k)
    for names in (False, True):
        for verbose in (0, 1, 2):
            add('sheets:%d:%d' % (names, verbose), sheets, names=names,
                verbose=verbose)
    for v in (2, 3, 4, 5):
        for n in ((1, 2) if tier == 'quick' else (1, 2, 3)):
            add('encoding:%d:%d' % (v, n), encoding, version=v, n=n)
    for v in (2, 3, 4):
        for k in (('num', 'blank'), ('blank', 'num'), ('num', 'num')):
            add('old:%d:%s' % (v, ','.join(k)), old, v=v, kinds=k, opts=opts)
    for verbose in (0, 1):
        add('xlsx:%d' % verbose, xlsx, verbose=verbose)
    return out
