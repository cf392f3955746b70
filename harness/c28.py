"""C28: every cell of an xls file arrives in its place as what it is."""
import io
import struct
from . import bifflib as B
from . import xllib as L

BOUNDS = ('one sheet with up to 3 cell records of each kind (NUMBER, RK, '
          'MULRK, LABEL, LABELSST, RSTRING, BOOLERR, FORMULA with each kind '
          'of result) at symbolic rows and columns 0..3; numbers of symbolic '
          'mantissa and 6 exponents, all 32-bit RK integers; texts of up to '
          '3 symbolic characters, compressed or wide; unknown and '
          'formatting records between them; up to 3 sheets; cells down to row '
          '65536 and column IV, texts of 3000 characters, 300 shared strings '
          'and formats, 12 sheets; BIFF8, and '
          'BIFF5 for the records it shares')
OUTSIDE = ('BIFF 2-4 (C32); encrypted files; the compound document around the '
           'stream (C30)')
ASSUMPTIONS = ['RK numbers divided by 100: real division for the double '
               'division']


def pos(env, tag, n=3):
    """(4 bytes of row and column, row, column)."""
    b = env.bytes('at' + tag, 2, bytes(range(n + 1)))
    p = env.concat(b[0:1], b'\0', b[1:2], b'\0')
    return p, int(b[0]), int(b[1])


def opened(env, recs, globs=(), version=0x0600):
    X = env.load('channelpack.xlrd')
    p = B.book(env, list(globs), recs, version)
    return X.open_workbook(p, logfile=io.StringIO()).sheet_by_index(0)


def same(env, ws, want):
    full, empty = L.grid(ws)
    env.check_same(full, want, 'the cells')
    env.check(all(v == '' for v in empty), 'the rest is empty')
    if want:
        env.check(ws.nrows == max(r for r, c in want) + 1 and
                  ws.ncols == max(c for r, c in want) + 1, 'the size')


EXPS = bytes([0x3f, 0x40, 0xbf, 0xc0])


def anydouble(env, tag, full=True, exps=EXPS):
    """8 bytes of a double."""
    m = env.bytes('m' + tag, 6, bytes(range(256))) if full else \
        env.concat(b'\0\0\0\0', env.bytes('m' + tag, 2, bytes(range(256))))
    x = env.bytes('e' + tag, 2, [b'\xf3\x04\x58', exps]) if exps else \
        env.concat(env.bytes('e' + tag, 1, bytes(range(0xf0, 0x100))),
                   b'\x40')
    return env.concat(m, x)


def number(env, n, version):
    recs, want = [], {}
    for i in range(n):
        p, r, c = pos(env, str(i), 3 if n == 1 else 1)
        env.assume((r, c) not in want)
        d = anydouble(env, str(i), exps=EXPS if n == 1 else None)
        more = env.choice('x%d' % i, (b'', b'\1\2')) if i == 0 else b''
        recs.append(B.rec(env, 0x203, p, b'\0\0', d, more))
        want[r, c] = (L.NUMBER, env.double(d))
    same(env, opened(env, recs, version=version), want)


def rk(env, kind, n):
    """RK records: a shifted integer or the top of a double, perhaps in
    hundredths."""
    recs, want = [], {}
    for i in range(n):
        p, r, c = pos(env, str(i), 1)
        env.assume((r, c) not in want)
        b, v = rkvalue(env, str(i), kind, n == 1)
        recs.append(B.rec(env, 0x27e, p, b'\0\0', b))
        want[r, c] = (L.NUMBER, v)
    same(env, opened(env, recs), want)


def rkvalue(env, tag, kind, exps):
    """(4 bytes, value)."""
    every = bytes(range(256))
    if kind[0] == 'i':
        first = bytes(range(2 if kind == 'int' else 3, 256, 4))
        b = env.bytes('k' + tag, 4, [first, every, every, every])
        v = (b[0] - b[0] % 4) + b[1] * 256 + b[2] * 65536 + b[3] * 16777216
        if b[3] >= 128:
            v = v - 2 ** 32
        v = v // 4
        return b, env.tofloat(v) if kind == 'int' else env.div(v, 100.0)
    first = bytes(range(0 if kind == 'double' else 1, 256, 4))
    b = env.bytes('k' + tag, 4, [first, every, b'\xf3\x04\x58', EXPS] if
                  exps else [first, every, bytes(range(0xf0, 0x100)),
                             b'\x40'])
    low = b[0] - b[0] % 4
    d = env.double(env.concat(b'\0\0\0\0', env.encode(env.chr(low),
                                                      'latin-1'), b[1:]))
    return b, d if kind == 'double' else env.div(d, 100.0)


KINDS = ('int', 'icent', 'double', 'dcent')


def mulrk(env, n, kind, fmts):
    """Several numbers of a row in one record."""
    r = env.bytes('r', 1, bytes(range(3)))
    c = env.bytes('c', 1, bytes(range(3)))
    first = int(c[0])
    parts, want = [], {}
    for i in range(n):
        b, v = rkvalue(env, str(i), kind, n == 1)
        x = env.bytes('x%d' % i, 1, b'\0\1') if fmts else b'\0'
        parts += [x, b'\0', b]
        date = fmts and bool(x[0] == 1)
        want[int(r[0]), first + i] = (L.DATE if date else L.NUMBER, v)
    recs = [B.rec(env, 0xbd, r, b'\0', c, b'\0', *(parts + [
        B.u16(first + n - 1)]))]
    globs = [B.xf(env, 0), B.xf(env, 14)] if fmts else []
    same(env, opened(env, recs, globs), want)


def chars(env, tag, n, wide):
    """(text, its bytes in the file)."""
    if not wide:
        s = env.str('s' + tag, n, [chr(c) for c in range(256)] and
                    ''.join(map(chr, list(range(32, 127)) +
                                list(range(160, 256)))))
        return s, env.encode(s, 'latin-1')
    lo = env.bytes('l' + tag, n, bytes(range(256)))
    hi = env.bytes('h' + tag, n, bytes([0, 1, 4, 0x20, 0x30]))
    s, b = '', b''
    for i in range(n):
        s = env.concat(s, env.chr(lo[i] + 256 * hi[i]))
        b = env.concat(b, lo[i:i + 1], hi[i:i + 1])
    return s, b


def text(env, kind, n, wide):
    """Text of each kind of record."""
    p, r, c = pos(env, '', 2)
    s, b = chars(env, '', n, wide)
    opt = b'\1' if wide else b'\0'
    globs, want = [], {(r, c): (L.TEXT, s)}
    if kind == 'label':
        recs = [B.rec(env, 0x204, p, b'\0\0', B.u16(n), opt, b)]
    elif kind == 'rlabel':
        # rich text
        recs = [B.rec(env, 0xd6, p, b'\0\0', B.u16(n), opt, b, B.u16(2),
                      B.u16(0), B.u16(1), B.u16(1), B.u16(2))]
    elif kind == 'sst':
        others = [env.str('o%d' % i, i, 'pq') for i in range(3)]
        k = env.bytes('k', 1, bytes(range(4)))
        strs = [B.ustr(env, o) for o in others]
        at = int(k[0])
        strs.insert(at, env.concat(B.u16(n), opt, b))
        globs = [B.rec(env, 0xfc, struct.pack('<ii', 9, 4), *strs)]
        recs = [B.rec(env, 0xfd, p, b'\0\0', k, b'\0\0\0')]
    elif kind == 'formula':
        recs = [B.rec(env, 6, p, b'\0\0', b'\0\0\0\0\0\0\xff\xff',
                      b'\0' * 8)]
        between = env.choice('between', (None, 0x4bc, 0x221, 0x236))
        if between:
            recs.append(B.rec(env, between, b'\0' * 16))
        recs.append(B.rec(env, 0x207, B.u16(n), opt, b))
    # a cell after the text, to see that reading goes on
    recs.append(B.rec(env, 0x203, B.u16(3), B.u16(3), b'\0\0',
                      struct.pack('<d', 2.5)))
    want[3, 3] = (L.NUMBER, 2.5)
    same(env, opened(env, recs, globs), want)


def parted(env, n, cut, wide1, wide2):
    """A formula text continued in the next record."""
    p, r, c = pos(env, '', 2)
    s1, b1 = chars(env, 'a', cut, wide1)
    s2, b2 = chars(env, 'b', n - cut, wide2)
    recs = [B.rec(env, 6, p, b'\0\0', b'\0\0\0\0\0\0\xff\xff', b'\0' * 8),
            B.rec(env, 0x207, B.u16(n), b'\1' if wide1 else b'\0', b1),
            B.rec(env, 0x3c, b'\1' if wide2 else b'\0', b2)]
    same(env, opened(env, recs), {(r, c): (L.TEXT, env.concat(s1, s2))})


def astral(env, kind):
    """A text with a character outside the first plane (two units)."""
    k = env.int('k', 0, 3)
    t = ('\U0001d11e', 'a\U0001f600', '\U0001f600b', '\U0001f600' * 2)[int(k)]
    b = t.encode('utf-16-le')
    globs = []
    if kind == 'label':
        recs = [B.rec(env, 0x204, b'\0' * 6, B.u16(len(b) // 2), b'\1', b)]
    elif kind == 'sst':
        globs = [B.rec(env, 0xfc, struct.pack('<ii', 1, 1), B.u16(
            len(b) // 2), b'\1', b)]
        recs = [B.rec(env, 0xfd, b'\0' * 10)]
    else:
        recs = [B.rec(env, 6, b'\0' * 12, b'\xff\xff', b'\0' * 8),
                B.rec(env, 0x207, B.u16(len(b) // 2), b'\1', b)]
    same(env, opened(env, recs, globs), {(0, 0): (L.TEXT, t)})


def boolerr(env, formula):
    p, r, c = pos(env, '')
    v = env.bytes('v', 1, bytes([0, 1, 7, 15, 23, 29, 36, 42]))
    e = env.bytes('e', 1, b'\0\1')
    if not e[0]:
        env.assume(v[0] <= 1)
    if formula:
        recs = [B.rec(env, 6, p, b'\0\0', b'\2' if e[0] else b'\1', b'\0', v,
                      b'\0\0\0\xff\xff', b'\0' * 8)]
    else:
        recs = [B.rec(env, 0x205, p, b'\0\0', v, e)]
    same(env, opened(env, recs), {
        (r, c): (L.ERROR if e[0] else L.BOOLEAN, v[0])})


def formula(env, n):
    """Numbers and empty text as results."""
    recs, want = [], {}
    for i in range(n):
        p, r, c = pos(env, str(i), 2)
        env.assume((r, c) not in want)
        code = env.choice('code%d' % i, (6, 0x206, 0x406)) if i == 0 else 6
        if env.choice('kind%d' % i, (0, 1)):
            recs.append(B.rec(env, code, p, b'\0\0', b'\3\0\0\0\0\0\xff\xff',
                              b'\0' * 8))
            want[r, c] = (L.TEXT, '')
        else:
            d = anydouble(env, str(i), False, EXPS if n == 1 else None)
            recs.append(B.rec(env, code, p, b'\0\0', d, b'\0' * 8))
            want[r, c] = (L.NUMBER, env.double(d))
    same(env, opened(env, recs), want)


NOISE = ((0x201, b'\5\0\6\0\0\0'),                 # BLANK
         (0xbe, b'\5\0\5\0\0\0\0\0\6\0'),          # MULBLANK
         (0x208, b'\x09\0' + b'\0' * 14),          # ROW
         (0x200, struct.pack('<iiHHH', 0, 9, 0, 9, 0)),  # DIMENSIONS
         (0x7d, b'\0' * 12),                       # COLINFO
         (0xfff1, b'\1\2\3'),                      # not known
         (0x23e, b'\0' * 18))                      # WINDOW2


def noise(env):
    """Records that hold no data change nothing."""
    code, body = env.choice('noise', NOISE)
    v = env.bytes('v', 1, bytes(range(256)))
    first = env.choice('first', (0, 1, 2))
    cell = B.rec(env, 0x27e, b'\1\0\1\0\0\0\2', v, b'\0\0')
    other = B.rec(env, 0x203, b'\2\0\0\0\0\0', struct.pack('<d', 4.5))
    recs = [cell, other]
    env.assume(first == 0 or code != 0x200)
    recs.insert(first, B.rec(env, code, body))
    same(env, opened(env, recs), {
        (1, 1): (L.NUMBER, env.tofloat(v[0] * 64)),
        (2, 0): (L.NUMBER, 4.5)})


DATES = set(range(14, 23)) | set(range(27, 37)) | set(range(45, 48)) | \
    set(range(50, 59))


def builtin(env, lo, hi, version):
    """Built-in formats; the second of three formats is used."""
    f = env.bytes('f', 1, bytes(range(lo, hi + 1)))
    x = env.bytes('x', 1, b'\0\1\2')
    d = anydouble(env, '', False)
    globs = [B.xf(env, 0, version), B.xf(env, env.concat(f, b'\0'), version),
             B.xf(env, 1, version)]
    # formats of the file's own beside them
    own = env.choice('own', ((), (0xa4,), (0x3f, 0xa5)))
    globs = [B.fmt(env, key, 'yyyy', version) for key in own] + globs
    ws = opened(env, [B.rec(env, 0x203, b'\0' * 4, x, b'\0', d)], globs,
                version)
    date = False
    for i in sorted(DATES):
        if f[0] == i:
            date = True
    env.check(ws.cell_type(0, 0) == (
        L.DATE if date and bool(x[0] == 1) else L.NUMBER), 'date or number')
    env.check_same(ws.cell_value(0, 0), env.double(d), 'the value')


CODES = (('yyyy-mm-dd', True), ('0.00', False), ('hh:mm', True),
         ('#,##0', False), ('"d "0', False), ('[Red]0', False))


def custom(env, version):
    """Formats of the file; the date system."""
    a, b = env.choice('a', CODES), env.choice('b', CODES)
    k = env.bytes('k', 1, b'\xa4\xa5')
    mode = env.bytes('mode', 1, b'\0\1')
    X = env.load('channelpack.xlrd')
    globs = [B.rec(env, 0x22, mode, b'\0'),
             B.fmt(env, 0xa4, a[0], version), B.fmt(env, 0xa5, b[0], version),
             B.xf(env, env.concat(k, b'\0'), version)]
    wb = X.open_workbook(B.book(env, globs, [B.rec(
        env, 0x203, b'\0' * 6, struct.pack('<d', 40000.25))], version),
        logfile=io.StringIO())
    ws = wb.sheet_by_index(0)
    f = a if k[0] == 0xa4 else b
    env.check(ws.cell_type(0, 0) == (L.DATE if f[1] else L.NUMBER),
              'date or number')
    env.check_same(ws.cell_value(0, 0), 40000.25, 'the value')
    env.check(wb.datemode == mode[0], 'the date system')


def sheets(env, n, version):
    """The sheets by their offsets, in the order of the workbook."""
    X = env.load('channelpack.xlrd')
    vals = [env.bytes('v%d' % i, 1, bytes(range(256))) for i in range(n)]
    names = [env.concat('n', env.str('n%d' % i, 1, 'pqr')) for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(names[i] != names[j])
    chart = env.choice('chart', [None] + list(range(n)))
    vis = env.bytes('vis', 1, b'\0\1\2')
    ss = [(names[i], 2 if chart == i else 0, int(vis[0]), [B.rec(
        env, 0x27e, b'\0\0\0\0\0\0\2', vals[i], b'\0\0')]) for i in range(n)]
    gap = env.choice('gap', (b'', b'\0\0\0\0'))
    p = env.file('t.xls', B.stream(env, [], ss, version, gap))
    wb = X.open_workbook(p, logfile=io.StringIO())
    keep = [i for i in range(n) if i != chart]
    env.check(wb.nsheets == len(keep), 'the number of sheets')
    env.check_same(wb.sheet_names(), [names[i] for i in keep], 'the names')
    for k, i in enumerate(keep):
        w = env.tofloat(vals[i][0] * 64)
        env.check_same(wb.sheet_by_index(k).cell_value(0, 0), w,
                       'the sheet by number')
        env.check_same(wb.sheet_by_name(names[i]).cell_value(0, 0), w,
                       'the sheet by name')


def old(env, kind, n):
    """BIFF5: texts in the code page of the file."""
    p, r, c = pos(env, '', 2)
    page, enc = env.choice('page', ((None, 'latin-1'), (1252, 'cp1252'),
                                    (1251, 'cp1251')))
    s = env.str('s', n, 'aZ~' + ('\xe5\xf6' if enc != 'cp1251' else
                                 '\u0416\u044f'))
    b = env.encode(s, enc)
    globs = [] if page is None else [B.rec(env, 0x42, B.u16(page))]
    if kind == 'label':
        recs = [B.rec(env, 0x204, p, b'\0\0', B.u16(n), b)]
    elif kind == 'rlabel':
        recs = [B.rec(env, 0xd6, p, b'\0\0', B.u16(n), b, b'\1\0\1')]
    else:
        recs = [B.rec(env, 6, p, b'\0\0', b'\0\0\0\0\0\0\xff\xff',
                      b'\0' * 8), B.rec(env, 0x207, B.u16(n), b)]
    same(env, opened(env, recs, globs, 0x0500), {(r, c): (L.TEXT, s)})


def spots(env, ws, want, size):
    """As same, for a large sheet."""
    env.check((ws.nrows, ws.ncols) == size, 'the size')
    for r, c in want:
        env.check_same((ws.cell_type(r, c), ws.cell_value(r, c)),
                       want[r, c], 'the cell')
        t = ws.row_types(r)
        env.check([k for k in range(len(t)) if t[k]] ==
                  sorted(k for x, k in want if x == r),
                  'the other cells of the row are empty')


def far(env, kind, rows):
    """Cells far down and far to the right."""
    r = env.choice('r', rows)
    c = env.choice('c', (0, 127, 128, 255))
    p = B.u16(r) + B.u16(c)
    b = env.bytes('b', 1, bytes(range(256)))
    globs = []
    if kind == 'number':
        d = env.concat(b'\0' * 5, b, struct.pack('<H', 0x4070))
        cell, v = B.rec(env, 0x203, p, b'\0\0', d), (L.NUMBER,
                                                     env.double(d))
    elif kind == 'rk':
        cell = B.rec(env, 0x27e, p, b'\0\0\2', b, b'\0\0')
        v = (L.NUMBER, env.tofloat(b[0] * 64))
    elif kind == 'mulrk':
        n = env.choice('n', (1, 2, 20))
        env.assume(c + n <= 256)
        cell = B.rec(env, 0xbd, p, *([b'\0\0\2' + bytes([i]) + b'\0\0'
                                      for i in range(n - 1)] +
                                     [b'\0\0\2', b, b'\0\0',
                                      B.u16(c + n - 1)]))
        v = (L.NUMBER, env.tofloat(b[0] * 64))
    elif kind == 'label':
        cell = B.rec(env, 0x204, p, b'\0\0', B.u16(1), b'\0', b)
        v = (L.TEXT, env.chr(b[0]))
    elif kind == 'sst':
        globs = [B.rec(env, 0xfc, struct.pack('<ii', 1, 1), B.u16(1), b'\0',
                       b)]
        cell = B.rec(env, 0xfd, p, b'\0' * 6)
        v = (L.TEXT, env.chr(b[0]))
    elif kind == 'bool':
        b = env.bytes('tf', 1, b'\0\1')
        cell = B.rec(env, 0x205, p, b'\0\0', b, b'\0')
        v = (L.BOOLEAN, b[0])
    else:
        d = env.concat(b'\0' * 5, b, struct.pack('<H', 0x4070))
        cell = B.rec(env, 6, p, b'\0\0', d, b'\0' * 8)
        v = (L.NUMBER, env.double(d))
    want = {(0, 0): (L.NUMBER, 2.5)}
    nc = c + 1
    if kind == 'mulrk':
        nc = c + n
        for i in range(n - 1):
            want[r, c + i] = (L.NUMBER, i * 64.0)
        want[r, c + n - 1] = v
    else:
        want[r, c] = v
    first = B.rec(env, 0x203, b'\0' * 6, struct.pack('<d', 2.5))
    env.assume((r, c) != (0, 0))
    recs = [first, cell] if env.choice('order', (0, 1)) else [cell, first]
    spots(env, opened(env, recs, globs), want, (r + 1, nc))


def longtext(env, kind, n, wide):
    """Texts longer than the 255 of one byte."""
    a, b = env.str('a', 1, 'abc'), env.str('b', 1, 'abc')
    s = env.concat(a, 'xy' * n, b)
    data = env.encode(s, 'utf-16-le' if wide else 'latin-1')
    opt = b'\1' if wide else b'\0'
    p, globs = b'\1\0\1\0', []
    if kind == 'label':
        recs = [B.rec(env, 0x204, p, b'\0\0', B.u16(len(s)), opt, data)]
    elif kind == 'sst':
        globs = [B.rec(env, 0xfc, struct.pack('<ii', 1, 1), B.u16(len(s)),
                       opt, data)]
        recs = [B.rec(env, 0xfd, p, b'\0' * 6)]
    else:
        recs = [B.rec(env, 6, p, b'\0\0', b'\0\0\0\0\0\0\xff\xff',
                      b'\0' * 8), B.rec(env, 0x207, B.u16(len(s)), opt,
                                       data)]
    same(env, opened(env, recs, globs), {(1, 1): (L.TEXT, s)})


def many(env, n, nf):
    """Many shared strings, formats and sheets."""
    X = env.load('channelpack.xlrd')
    ks = [k for k in (0, 9, 10, 127, 128, 255, 256, n - 1) if k < n]
    k = env.choice('k', ks)
    f = env.choice('f', [i for i in (0, 10, 63, 64, 255, 256, nf - 1)
                         if i < nf])
    i = env.choice('sheet', (0, 9, 10, 11))
    t = env.str('t', 1, 'abc')
    strs = [B.ustr(env, env.concat('s', t)) if j == k else
            B.ustr(env, 'q%d' % j) for j in range(n)]
    globs = [B.fmt(env, 164 + j, 'yyyy' if j % 3 == 1 else '0.00')
             for j in range(nf)] + [B.xf(env, 164 + j) for j in range(nf)] + \
        [B.rec(env, 0xfc, struct.pack('<ii', n, n), *strs)]
    cells = [B.rec(env, 0xfd, b'\0' * 6, struct.pack('<i', k)),
             B.rec(env, 0x203, B.u16(1), b'\0\0', B.u16(f),
                   struct.pack('<d', 7.5))]
    p = env.file('t.xls', B.stream(env, globs, [
        ('S%d' % j, 0, 0, cells if j == i else []) for j in range(12)]))
    wb = X.open_workbook(p, logfile=io.StringIO())
    env.check_same(wb.sheet_names(), ['S%d' % j for j in range(12)],
                   'the sheets')
    for j in (0, 1, 9, 10, 11):
        ws = wb.sheet_by_index(j)
        same(env, ws, {(0, 0): (L.TEXT, env.concat('s', t)),
                       (1, 0): (L.DATE if f % 3 == 1 else L.NUMBER, 7.5)}
             if i == j else {})


def cases(tier):
    q = tier == 'quick'
    out = []

    def case(name, fn, **p):
        out.append(dict(name='%s:%s' % (name, ':'.join(
            str(v) for v in p.values())), fn=fn, params=p))
    for v in (0x0600, 0x0500):
        for n in (1, 2) if q else (1, 2, 3):
            case('number', number, n=n, version=v)
        for lo in range(0, 60, 10):
            case('builtin', builtin, lo=lo, hi=lo + 9 if lo < 50 else 58,
                 version=v)
        case('custom', custom, version=v)
        for n in (1, 2, 3):
            case('sheets', sheets, n=n, version=v)
    for k in KINDS:
        for n in (1, 2):
            case('rk', rk, kind=k, n=n)
        for n in (1, 2) if q and k[0] == 'i' else (1, 2, 3):
            case('mulrk', mulrk, n=n, kind=k, fmts=n < 3)
    for k in ('label', 'rlabel', 'sst', 'formula'):
        for w in (False, True):
            for n in (1, 2, 3) if q else (1, 2, 3, 5):
                case('text', text, kind=k, n=n, wide=w)
    for w1 in (False, True):
        for w2 in (False, True):
            for n, cut in ((2, 1), (3, 1), (3, 2)):
                case('parted', parted, n=n, cut=cut, wide1=w1, wide2=w2)
    for k in ('label', 'sst', 'formula'):
        case('astral', astral, kind=k)
    for f in (False, True):
        case('boolerr', boolerr, formula=f)
    for n in (1, 2):
        case('formula', formula, n=n)
    case('noise', noise)
    for k in ('label', 'rlabel', 'formula'):
        for n in (1, 2):
            case('old', old, kind=k, n=n)
    for kind in ('number', 'rk', 'mulrk', 'label', 'sst', 'bool', 'formula'):
        for rows in ((9, 255, 256), (4000,), (32767, 32768), (65535,)):
            out.append(dict(name='far:%s:%s' % (kind, rows), fn=far,
                            params=dict(kind=kind, rows=rows)))
    for n in (126, 127, 128, 1500):
        for wide in (False, True):
            for kind in ('label', 'sst', 'formula'):
                out.append(dict(name='longtext:%s:%d:%s' % (kind, n, wide),
                                fn=longtext, params=dict(
                                    kind=kind, n=n, wide=wide)))
    out.append(dict(name='many:300', fn=many, params=dict(n=300, nf=20)))
    out.append(dict(name='many:12', fn=many, params=dict(n=12, nf=300)))
    return out
