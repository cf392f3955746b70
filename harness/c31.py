"""C31: a number format makes a date of a number by its date letters alone."""
import io
import struct
from . import bifflib as B
from . import xllib as L

BOUNDS = ('format strings of up to 3 (thorough 4) characters of an alphabet '
          'with every kind of character the format language has; strings '
          'of up to 3 (thorough 4) pieces, each a plain character, an '
          'escaped character, a quoted text of 2 characters or a bracketed '
          'text of 2; real formats under 13 numbers, among up to 30 others; in '
          'xls and xlsx workbooks')
OUTSIDE = ('formats with both date letters and digit places outside of '
           'text (ambiguous; the code goes by their number); elapsed time '
           'alone in brackets, like [h]; era and Thai calendar letters; '
           'unfinished quotes or brackets')
ASSUMPTIONS = []

DATELET = 'ymdhsYMDHS'
PLACES = '0#?'
PLAIN = DATELET + PLACES + '.,;%@EGx$-/: '
QUOTED = 'ydmhs0#?[]\\;_x '
BRACKETED = 'Rdy0x<=1'
ESCAPED = 'ydhmsMD0#"[]\\x '


def opened(env, code, kind, key=164, others=()):
    """The type of a cell with the format."""
    X = env.load('channelpack.xlrd')
    if kind == 'xls':
        globs = [B.fmt(env, k, c) for k, c in others] + [
            B.fmt(env, key, code), B.xf(env, 0), B.xf(env, key)]
        p = B.book(env, globs, [B.rec(env, 0x203, b'\0' * 4, b'\1\0',
                                      struct.pack('<d', 40000.25))])
    else:
        p = L.book(env, [('S', L.sheet([L.row('1', [L.cell(
            'A1', v='40000.25', s='1')])]))], style=L.styles(
                [(str(k), c) for k, c in others] + [(str(key), code)],
                ['0', str(key)]))
    ws = X.open_workbook(p, logfile=io.StringIO()).sheet_by_index(0)
    env.check_same(ws.cell_value(0, 0), 40000.25, 'the value')
    return ws.cell_type(0, 0)


def kinds(env, ch):
    """(a date letter, a digit place)."""
    d, n = False, False
    for c in DATELET:
        d = env.lor(d, ch == c)
    for c in PLACES:
        n = env.lor(n, ch == c)
    return bool(d), bool(n)


def verdict(env, got, date, places):
    env.assume(not (date and places))
    env.check(got == (L.DATE if date else L.NUMBER), 'date or number')


def pieces(env, shape, kind):
    """shape: p plain, e escaped, q quoted, b bracketed."""
    code, date, places = '', False, False
    for i, s in enumerate(shape):
        if s == 'p':
            t = env.str('p%d' % i, 1, PLAIN)
            d, n = kinds(env, t[0])
            date, places = date or d, places or n
        elif s == 'e':
            t = env.concat(env.str('m%d' % i, 1, '\\_*'),
                           env.str('e%d' % i, 1, ESCAPED))
        elif s == 'q':
            t = env.concat('"', env.str('q%d' % i, 2, QUOTED), '"')
        else:
            t = env.concat('[', env.str('b%d' % i, 2, BRACKETED), ']')
        code = env.concat(code, t)
    verdict(env, opened(env, code, kind), date, places)


ALL = 'ymdhsMD0#?.;@x$-/: "\\_*'


def raw(env, n, first, kind):
    """Any string."""
    code = env.concat(first, env.str('s', n - 1, ALL)) if n > 1 else first
    state, date, places = 0, False, False
    for i in range(n):
        c = code[i]
        if state == 1:
            if c == '"':
                state = 0
        elif state == 2:
            state = 0
        elif c == '"':
            state = 1
        elif c == '\\' or c == '_' or c == '*':
            state = 2
        else:
            d, p = kinds(env, c)
            date, places = date or d, places or p
    env.assume(state == 0)
    verdict(env, opened(env, code, kind), date, places)


REAL = (('yyyy\\-mm\\-dd', 1), ('d/m/yyyy;@', 1), ('[$-409]d\\-mmm\\-yy', 1),
        ('[$-F800]dddd\\,\\ mmmm\\ dd\\,\\ yyyy', 1), ('[h]:mm:ss', 1),
        ('hh:mm:ss.000', 1), ('yyyy-mm-dd\\ hh:mm:ss.000', 1),
        ('h:mm AM/PM', 1), ('"Day" d', 1), ('_-* #,##0.00\\ "kr"_-', 0),
        ('#,##0.00\\ [$DM-407]', 0), ('[Red]-0.0', 0), ('0.00E+00', 0),
        ('##0.0E+0', 0), ('0%', 0), ('General', 0), ('GENERAL', 0), ('@', 0),
        ('0" days"', 0), ('"Yes";"Yes";"No"', 0), ('# ?/?', 0),
        ('[<=9999]0;(000)', 0), ('0\\h', 0), ('General" s"', 0),
        ('mmm-yy', 1), ('[Red]yyyy', 1), ('hh\\hmm\\mss\\s', 1))


def real(env, kind):
    code, date = env.choice('code', REAL)
    env.check(opened(env, code, kind) == (L.DATE if date else L.NUMBER),
              'date or number')


def keyed(env, kind):
    """A format under any number, also one of those built in, among
    others."""
    key = env.choice('key', (5, 14, 22, 44, 45, 63, 163, 164, 165, 255, 256,
                             400, 1000))
    code, date = env.choice('code', REAL[::4] + REAL[9:12])
    others = env.choice('others', ((), ((200, 'yyyy'), (201, '0')),
                                   ((201, '0'),) * 1, tuple(
        (300 + i, ('0', 'd')[i % 2]) for i in range(30))))
    env.check(opened(env, code, kind, key, others) == (
        L.DATE if date else L.NUMBER), 'date or number')


def cases(tier):
    q = tier == 'quick'
    out = []
    for kind in ('xls', 'xlsx'):
        out.append(dict(name='real:' + kind, fn=real, params=dict(kind=kind)))
        out.append(dict(name='keyed:' + kind, fn=keyed,
                        params=dict(kind=kind)))
    shapes = ['p', 'pp', 'ep', 'pe', 'qp', 'pq', 'bp', 'pb', 'eq', 'qe',
              'epp', 'pqp', 'pep', 'pbp', 'bpe', 'qpb', 'eqp', 'pqe', 'qbp',
              'ppq', 'bb', 'qq']
    if not q:
        shapes += ['bpqp', 'pepe', 'qpqp', 'epep', 'bpep', 'pqep', 'ppp',
                   'pbpq']
    for i, s in enumerate(shapes):
        for kind in ('xls', 'xlsx') if len(s) < 3 or not q else (
                ('xls', 'xlsx')[i % 2],):
            out.append(dict(name='pieces:%s:%s' % (s, kind), fn=pieces,
                            params=dict(shape=s, kind=kind)))
    for n in (2, 3) if q else (2, 3, 4):
        for k, f in enumerate(('y', 'M', '0', '?', '.', ';', '-', '"', '\\',
                               '_', '*', 'x')):
            out.append(dict(name='raw:%d:%s' % (n, f), fn=raw, params=dict(
                n=n, first=f, kind=('xls', 'xlsx')[k % 2])))
    return out
