"""C32: worksheets of Excel 2, 3 and 4 are read cell by cell."""
import io
import struct
from . import bifflib as B
from . import xllib as L
from .c28 import anydouble, rkvalue, same, EXPS, KINDS

BOUNDS = ('worksheet files of BIFF 2 (with and without XF records), 3 and 4 '
          'and Excel 4 workbooks of up to 3 sheets, with up to 3 cell '
          'records of each kind (NUMBER, INTEGER, RK, LABEL, BOOLERR, '
          'FORMULA with each kind of result) at symbolic rows and columns '
          '0..2; numbers of symbolic mantissa and 6 exponents, all 16-bit '
          'integers, all RK integers; texts of up to 3 symbolic characters '
          'in 3 code pages; up to 3 formats and 3 XF records in any order '
          'of use; both date systems')
OUTSIDE = ('encrypted files; row and column default formats; format '
           'strings other than 6 common ones (C31)')
ASSUMPTIONS = ['RK numbers divided by 100: real division for the double '
               'division']

V = {2: (0x0009, 4, 2), 3: (0x0209, 6, 3), 4: (0x0409, 6, 4)}


def bof(v, kind=0x10):
    code, n, ver = V[v]
    return struct.pack('<HHHH', code, n, ver, kind) + b'\0' * (n - 4)


def fmt(env, v, code):
    if v == 4:
        return B.rec(env, 0x41e, b'\0\0', bytes([len(code)]), code.encode())
    return B.rec(env, 0x1e, bytes([len(code)]), code.encode())


def xf(env, v, f):
    """f: the byte of the format (bytes of length 1)."""
    if v == 2:
        return B.rec(env, 0x43, b'\0\0', f, b'\0')
    return B.rec(env, 0x243 if v == 3 else 0x443, b'\0', f, b'\0' * 10)


def pos(env, tag, n=1):
    b = env.bytes('at' + tag, 2, bytes(range(n + 1)))
    return env.concat(b[0:1], b'\0', b[1:2], b'\0'), int(b[0]), int(b[1])


def opened(env, v, recs):
    X = env.load('channelpack.xlrd')
    p = env.file('t.xls', env.concat(bof(v), *(list(recs) + [B.EOF])))
    return X.open_workbook(p, logfile=io.StringIO())


def attr(v, f=0):
    """The cell attributes (BIFF 2) or the XF index."""
    return bytes([0, f, 0]) if v == 2 else B.u16(f)


def number(env, v, n):
    recs, want = [], {}
    for i in range(n):
        p, r, c = pos(env, str(i), 2 if n == 1 else 1) if i == 0 else (
            B.u16(i + 1) + B.u16(0), i + 1, 0)
        env.assume((r, c) not in want)
        d = anydouble(env, str(i), exps=EXPS if n == 1 else None)
        recs.append(B.rec(env, 3 if v == 2 else 0x203, p, attr(v), d))
        want[r, c] = (L.NUMBER, env.double(d))
    same(env, opened(env, v, recs).sheet_by_index(0), want)


def integer(env, n):
    """Integers of BIFF 2 alone."""
    recs, want = [], {}
    for i in range(n):
        p, r, c = pos(env, str(i), 1)
        env.assume((r, c) not in want)
        b = env.bytes('v%d' % i, 2, bytes(range(256)))
        recs.append(B.rec(env, 2, p, attr(2), b))
        want[r, c] = (L.NUMBER, env.tofloat(b[0] + 256 * b[1]))
    same(env, opened(env, 2, recs).sheet_by_index(0), want)


def rk(env, v, kind):
    p, r, c = pos(env, '', 1)
    b, x = rkvalue(env, '', kind, True)
    same(env, opened(env, v, [B.rec(env, 0x27e, p, attr(v), b)]
                     ).sheet_by_index(0), {(r, c): (L.NUMBER, x)})


def text(env, v, kind, n):
    p, r, c = B.u16(0) + B.u16(1), 0, 1
    page, enc = env.choice('page', ((None, 'latin-1'), (1252, 'cp1252'),
                                    (1251, 'cp1251')))
    s = env.str('s', n, 'aZ~' + ('\xe5\xf6' if enc != 'cp1251' else
                                 '\u0416\u044f'))
    b = env.encode(s, enc)
    recs = [] if page is None else [B.rec(env, 0x42, B.u16(page))]
    ln = bytes([n]) if v == 2 else B.u16(n)
    if kind == 'label':
        recs.append(B.rec(env, 4 if v == 2 else 0x204, p, attr(v), ln, b))
    else:
        recs.append(frec(env, v, p, attr(v), b'\0\0\0\0\0\0\xff\xff'))
        recs.append(B.rec(env, 7 if v == 2 else 0x207, ln, b))
    recs.append(B.rec(env, 3 if v == 2 else 0x203, B.u16(2), B.u16(2),
                      attr(v), struct.pack('<d', 2.5)))
    same(env, opened(env, v, recs).sheet_by_index(0), {
        (r, c): (L.TEXT, s), (2, 2): (L.NUMBER, 2.5)})


def frec(env, v, p, a, result):
    code = {2: 6, 3: 0x206, 4: 0x406}[v]
    return B.rec(env, code, p, a, result, b'\0' * (2 if v == 2 else 4))


def boolerr(env, v, formula):
    p, r, c = pos(env, '')
    x = env.bytes('v', 1, bytes([0, 1, 7, 15, 23, 29, 36, 42]))
    e = env.bytes('e', 1, b'\0\1')
    if not e[0]:
        env.assume(x[0] <= 1)
    if formula:
        rec = frec(env, v, p, attr(v), env.concat(
            b'\2' if e[0] else b'\1', b'\0', x, b'\0\0\0\xff\xff'))
    else:
        rec = B.rec(env, 5 if v == 2 else 0x205, p, attr(v), x, e)
    same(env, opened(env, v, [rec]).sheet_by_index(0), {
        (r, c): (L.ERROR if e[0] else L.BOOLEAN, x[0])})


def formula(env, v, n):
    recs, want = [], {}
    for i in range(n):
        p, r, c = pos(env, str(i), 1) if i == 0 else (
            B.u16(i + 1) + B.u16(0), i + 1, 0)
        env.assume((r, c) not in want)
        if env.choice('kind%d' % i, (0, 1)):
            recs.append(frec(env, v, p, attr(v), b'\3\0\0\0\0\0\xff\xff'))
            want[r, c] = (L.TEXT, '')
        else:
            d = anydouble(env, str(i), False, EXPS if n == 1 else None)
            recs.append(frec(env, v, p, attr(v), d))
            want[r, c] = (L.NUMBER, env.double(d))
    same(env, opened(env, v, recs).sheet_by_index(0), want)


FMTS = (('General', False), ('yyyy-mm-dd', True), ('0.00', False),
        ('h:mm', True), ('"d "0', False), ('[Red]0', False))


def dates(env, v, how, n, kind='number'):
    """Formats in the order of their records; XF records use them; cells
    use XF records.  BIFF 2 cells: by format (no XF records), by the XF of
    the cell, or by that of a record before it."""
    if n == 1:
        fmts = [env.choice('f%d' % i, FMTS) for i in range(2)] + [FMTS[1]]
        mode = b'\0'
    else:
        fmts = [FMTS[0], FMTS[1], FMTS[2]]
        mode = env.bytes('mode', 1, b'\0\1') if how != 'plain' else b'\1'
    recs = [B.rec(env, 0x22, mode, b'\0')]
    recs += [fmt(env, v, f[0]) for f in fmts]
    if how != 'plain':
        xs = [b'\2', b'\0', b'\1']
        if n > 1:
            xs[:2] = [env.bytes('x%d' % i, 1, b'\0\1\2') for i in range(2)]
        recs += [xf(env, v, x) for x in xs]
    want = {}
    for i in range(n):
        k = env.bytes('k%d' % i, 1, b'\0\1\2')
        if how == 'plain':
            a, f = env.concat(b'\0', k, b'\0'), fmts[int(k[0])]
        else:
            f = fmts[int(xs[int(k[0])][0])]
            if how == 'ixfe':
                recs.append(B.rec(env, 0x44, k, b'\0'))
                a = b'\x3f\0\0'
            elif v == 2:
                a = env.concat(k, b'\0\0')
            else:
                a = env.concat(k, b'\0')
        if kind == 'integer':
            recs.append(B.rec(env, 2, B.u16(i), B.u16(1), a, b'\7\1'))
        elif kind == 'formula':
            recs.append(frec(env, v, env.concat(B.u16(i), B.u16(1)), a,
                             struct.pack('<d', 263)))
        else:
            recs.append(B.rec(env, 3 if v == 2 else 0x203, B.u16(i),
                              B.u16(1), a, struct.pack('<d', 263)))
        want[i, 1] = (L.DATE if f[1] else L.NUMBER, 263.0)
    wb = opened(env, v, recs)
    same(env, wb.sheet_by_index(0), want)
    env.check(wb.datemode == mode[0], 'the date system')
    env.check(wb.nsheets == 1, 'one sheet')


def workbook(env, n):
    """The sheets of an Excel 4 workbook."""
    X = env.load('channelpack.xlrd')
    vals = [env.bytes('v%d' % i, 1, bytes(range(256))) for i in range(n)]
    names = [env.concat('n', env.str('n%d' % i, 1, 'pqr')) for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(names[i] != names[j])
    # each sheet has formats of its own
    k = [env.bytes('k%d' % i, 1, b'\0\1') for i in range(n)]
    extra = env.choice('extra', (b'', B.rec(env, 0x1234, b'abc')))
    bodies = []
    for i in range(n):
        body = env.concat(
            bof(4), fmt(env, 4, 'General'), fmt(env, 4, 'yyyy-mm-dd'),
            xf(env, 4, k[i]), B.rec(env, 0x27e, b'\0\0\0\0\0\0\2', vals[i],
                                    b'\0\0'), B.EOF)
        bodies.append(body)

    def nm(i):
        return env.concat(bytes([len(names[i])]),
                          env.encode(names[i], 'latin-1'))
    head = [bof(4, 0x100), B.rec(env, 0x8e, struct.pack(
        '<i', 10 + 8 + sum(4 + 3 for i in range(n))))]
    head += [B.rec(env, 0x85, nm(i)) for i in range(n)]
    for i in range(n):
        head += [B.rec(env, 0x8f, struct.pack('<i', len(bodies[i])), nm(i)),
                 bodies[i], extra]
    p = env.file('t.xls', env.concat(*(head + [B.EOF])))
    wb = X.open_workbook(p, logfile=io.StringIO())
    env.check(wb.nsheets == n, 'the number of sheets')
    env.check_same(wb.sheet_names(), names, 'the names')
    for i in range(n):
        for ws in (wb.sheet_by_index(i), wb.sheet_by_name(names[i])):
            same(env, ws, {(0, 0): (
                L.DATE if k[i][0] == 1 else L.NUMBER,
                env.tofloat(vals[i][0] * 64))})


def noise(env, v):
    """Records that hold no data change nothing."""
    code, body = env.choice('noise', (
        (1 if v == 2 else 0x201, b'\5\0\6\0\0\0\0'[:7 if v == 2 else 6]),
        (8 if v == 2 else 0x208, b'\x09\0' + b'\0' * 14),
        (0 if v == 2 else 0x200, b'\0\0\7\0\0\0\7\0' + (
            b'' if v == 2 else b'\0\0')), (0x1234, b'\1\2\3'),
        (0x24 if v == 2 else 0x7d, b'\0' * (4 if v == 2 else 12)),
        (0x31 if v == 2 else 0x231, b'\xc8\0\0\0' + (
            b'' if v == 2 else b'\0\0') + b'\1A')))
    x = env.bytes('v', 1, bytes(range(256)))
    first = env.choice('first', (0, 1, 2))
    d = env.concat(b'\0' * 5, x, b'\xf3\x40')
    recs = [B.rec(env, 3 if v == 2 else 0x203, b'\1\0\1\0', attr(v), d),
            B.rec(env, 3 if v == 2 else 0x203, b'\2\0\0\0', attr(v),
                  struct.pack('<d', 4.5))]
    env.assume(first == 0 or code not in (0, 0x200))
    recs.insert(first, B.rec(env, code, body))
    same(env, opened(env, v, recs).sheet_by_index(0), {
        (1, 1): (L.NUMBER, env.double(d)), (2, 0): (L.NUMBER, 4.5)})


def cases(tier):
    q = tier == 'quick'
    out = []

    def case(name, fn, **p):
        out.append(dict(name='%s:%s' % (name, ':'.join(
            str(v) for v in p.values())), fn=fn, params=p))
    for v in (2, 3, 4):
        for n in (1, 2) if q else (1, 2, 3):
            case('number', number, v=v, n=n)
        if v > 2:
            for k in KINDS:
                case('rk', rk, v=v, kind=k)
        for k in ('label', 'formula'):
            for n in (1, 2) if q else (1, 2, 3):
                case('text', text, v=v, kind=k, n=n)
        for f in (False, True):
            case('boolerr', boolerr, v=v, formula=f)
        for n in (1, 2):
            case('formula', formula, v=v, n=n)
        for how in ('plain', 'xf', 'ixfe') if v == 2 else ('xf',):
            for n in (1, 2) if q else (1, 2, 3):
                case('dates', dates, v=v, how=how, n=n)
            case('dates', dates, v=v, how=how, n=1, kind='formula')
        case('noise', noise, v=v)
    case('dates', dates, v=2, how='plain', n=1, kind='integer')
    case('dates', dates, v=2, how='xf', n=1, kind='integer')
    for n in (1, 2) if q else (1, 2, 3):
        case('integer', integer, n=n)
    for n in (1, 2, 3):
        case('workbook', workbook, n=n)
    return out
