"""C12: textpack returns every field of a delimited table."""
from harness.textlib import (Table, body, source, expect_cols, NUMS, WORDS,
                             field, number)

BOUNDS = ('tables of 1..3 rows x 1..3 columns, 60 x 2 and 2 x 27; numeric fields of 10 shapes '
          '(signs, decimal dot or comma, leading/trailing point, exponent) '
          'with every digit symbolic, text fields of 1..3 symbolic '
          'characters; delimiters ; tab , space | whitespace-runs and ::; '
          'LF and CRLF, with and without final newline; text stream, bytes '
          'stream, file name; stripstrings on and off; text with characters '
          'that are line ends or blanks to some; nan, inf and numbers of 29 '
          'characters')
OUTSIDE = 'longer numbers, larger tables, quoting'
ASSUMPTIONS = ['the first row has a value in each column',
               'a comma delimiter comes with a decimal dot',
               'numbers with decimal comma: at least one field of the first '
               'row shows the comma',
               'text has no delimiter, newline or surrounding whitespace '
               'except where stated']


def table(env, rows, delim, dec, how, eol='\n', last=True, strip=False,
          pad='', dname=None):
    t = Table(env, rows, dec)
    d = delim if delim is not None else (dname or ' ')
    lines = t.lines(pad + d + pad if delim is not None else d)
    text = body(env, lines, eol, last)
    R = env.load('channelpack.readtext')
    src, enc = source(env, how, text)
    kw = {}
    if strip:
        kw['stripstrings'] = True
    if how == 'bytes':
        kw['encoding'] = 'ascii'
    pack = R.textpack(src, delimiter=enc(delim), **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(t.ncols)})
    env.check(dict(pack.names) == {}, 'no names unless asked for')
    for c in range(t.ncols):
        if t.num[c]:
            env.check(pack(c).dtype.kind == 'f', 'numbers are floats')
        else:
            env.check(pack(c).dtype.kind == 'U', 'text is text')
    env.check(pack.fn == (src if how == 'file' else ''), 'the file name')


def padded(env, how, strip):
    """Whitespace around the delimiter of an inner text field: kept, or
    removed with stripstrings."""
    R = env.load('channelpack.readtext')
    a = [env.str('a%d' % i, 2, 'ab') for i in range(2)]
    n = [env.str('n%d' % i, 2, '0123456789') for i in range(2)]
    lp = [env.choice('l%d' % i, ('', ' ', '  ')) for i in range(2)]
    rp = [env.choice('r%d' % i, ('', ' ')) for i in range(2)]
    lines = [env.join('', [n[i], ';', lp[i], a[i], rp[i], ';', lp[i], n[i]])
             for i in range(2)]
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(';'), stripstrings=strip, **kw)
    want = a if strip else [env.join('', [lp[i], a[i], rp[i]])
                            for i in range(2)]
    nums = [env.tofloat(x) for x in n]
    expect_cols(env, pack, {0: nums, 1: want, 2: nums})


def converters(env, how):
    """A converter given by the caller decides the value of its column."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('dd', 'aa', 'd'), ('dd', 'aa', 'd')])
    src, enc = source(env, how, body(env, t.lines(';')))
    which = env.choice('which', (0, 1, 2))
    seen = []

    def conv(s):
        seen.append(s)
        return len(seen)
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(';'), converters={which: conv},
                      **kw)
    cols = {c: t.column(c) for c in range(3)}
    want = cols[which] if not t.num[which] else \
        [r[which] for r in t.text]
    cols[which] = [1, 2]
    expect_cols(env, pack, cols)
    env.check(len(seen) == 2, 'each field converted once')
    for s, w in zip(seen, want):
        s = s.decode('ascii') if how == 'bytes' else s
        env.check_same(s, w, 'the converter gets the text of the field')


def wide(env, n, how, dec):
    """Many columns: every column arrives under its number."""
    R = env.load('channelpack.readtext')
    shapes = [('dPd', 'a*', 'dd')[c % 3] if c in (0, 1, 9, 10, n - 1) else
              ('%dP5' % c if c % 2 else 'a%d' % c) for c in range(n)]
    lines, cols = [], {c: [] for c in range(n)}
    for r in range(2):
        row = []
        for c, s in enumerate(shapes):
            if s[0] in 'da' and not s[1:].isdigit():
                t = field(env, 'f%d_%d' % (r, c), s if r == 0 or s[0] == 'a'
                          else 'd', dec)
            else:
                t = s.replace('P', dec) if r == 0 else (
                    '%d' % (c + 50) if c % 2 else 'z%d' % c)
            row.append(t)
            cols[c].append(number(env, t, dec) if 'a' not in s else t)
        lines.append(env.join(';', row))
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(';'), **kw)
    expect_cols(env, pack, cols)


def tall(env, n, sym):
    """Many rows: every row arrives, in order."""
    R = env.load('channelpack.readtext')
    lines, c0, c1 = [], [], []
    for i in range(n):
        if i in sym:
            a = env.str('a%d' % i, 2, '0123456789')
            b = env.str('b%d' % i, 2, 'abc')
        else:
            a, b = '%d.5' % i, 'w%d' % (i % 7)
        lines.append(env.join('', [a, ';', b]))
        c0.append(env.tofloat(a))
        c1.append(b)
    pack = R.textpack(env.textio(body(env, lines)), delimiter=';')
    expect_cols(env, pack, {0: c0, 1: c1})


ODD = '\x1c\x85\xa0\u2028\xe5'
INNER = ODD + '\x0b\x0c\x1e'


def odd(env, how, delim, strip):
    """Text with characters that are line ends or white space to some."""
    R = env.load('channelpack.readtext')
    col = {0: [], 1: [], 2: []}
    lines = []
    for r in range(2):
        last = ODD if not strip else '\xe5#'
        x = env.str('x%d' % r, 1, INNER if r == 0 else '\xe5')
        y = env.str('y%d' % r, 1, last)
        z = env.str('z%d' % r, 1, INNER if r == 1 else '\xe5')
        a = env.concat('a', x, 'b')
        n = env.str('n%d' % r, 1, '0123456789')
        b = env.concat('a', z, y)
        lines.append(env.join(delim, [a, n, b]))
        for c, v in enumerate((a, env.tofloat(n), b)):
            col[c].append(v)
    text = body(env, lines)
    kw = dict(stripstrings=True) if strip else {}
    if how == 'text':
        src = env.textio(text)
    else:
        src = env.file('data.txt', text)
        kw['encoding'] = 'utf-8'
    pack = R.textpack(src, delimiter=delim, **kw)
    expect_cols(env, pack, col)


def special(env, how, words, dec):
    """Numbers of many digits, infinite ones and nan as such."""
    R = env.load('channelpack.readtext')
    lines, col = [], {0: [], 1: [], 2: []}
    for r in range(2):
        w = env.choice('w%d' % r, words)
        if not isinstance(w, str):
            w = field(env, 's%d' % r, w[0], dec)
        b = field(env, 'b%d' % r, 'dPd', dec)
        c = env.str('c%d' % r, 2, 'xyz')
        lines.append(env.join(';', [c, w, b]))
        col[0].append(c)
        col[1].append(number(env, w, dec))
        col[2].append(number(env, b, dec))
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(';'), **kw)
    expect_cols(env, pack, col)


def cases(tier):
    out = []
    for how in ('text', 'file'):
        for delim in ';\t,':
            for strip in (False, True):
                out.append(dict(name='odd:%s:%r:%s' % (how, delim, strip),
                                fn=odd, params=dict(how=how, delim=delim,
                                                    strip=strip)))
    for how in ('text', 'bytes', 'file'):
        for dec in '.,':
            out.append(dict(name='special:%s:%s' % (how, dec), fn=special,
                            params=dict(how=how, dec=dec, words=(
                                'nan', 'inf', '-inf', 'NaN',
                                ('0P' + '0' * 24 + 'd',),
                                ('d' + '0' * 25,), ('-d' + '0' * 24 + 'Pd',),
                                ('0' * 26 + 'dPd',), ('dPdE+20',)))))
    for dec in '.,':
        for s in NUMS:
            for how in ('text', 'bytes'):
                out.append(dict(
                    name='num:%s:%s:%s' % (dec, s, how), fn=table,
                    params=dict(rows=[(s, 'dPd'), ('d', s)], delim=';',
                                dec=dec, how=how)))
    for delim, dec in ((';', '.'), (';', ','), ('\t', '.'), ('\t', ','),
                       (',', '.'), (' ', '.'), (None, '.'), (None, ','),
                       ('|', '.'), ('::', '.'), (' ', ',')):
        for how in ('text', 'bytes', 'file'):
            for eol in ('\n', '\r\n'):
                for last in (True, False):
                    out.append(dict(
                        name='mix:%r:%s:%s:%r:%s' % (delim, dec, how, eol,
                                                     last), fn=table,
                        params=dict(rows=[('dPd', 'aa', '-d'),
                                          ('d', 'a*', 'dPd')],
                                    delim=delim, dec=dec, how=how, eol=eol,
                                    last=last)))
    for ws in ('  ', '\t', ' \t '):
        for how in ('text', 'bytes'):
            out.append(dict(name='ws:%r:%s' % (ws, how), fn=table,
                            params=dict(rows=[('dPd', 'a', 'd'),
                                              ('d', '*', 'dd')],
                                        delim=None, dec='.', how=how,
                                        dname=ws)))
    for w in WORDS:
        for how in ('text', 'bytes'):
            out.append(dict(name='word:%s:%s' % (w, how), fn=table,
                            params=dict(rows=[('a', w), ('**', w)],
                                        delim=';', dec='.', how=how)))
    for rows in ([('d',)], [('a',)], [('dPd',), ('dd',), ('d',)],
                 [('a', 'd', 'a'), ('', 'd', '*'), ('*', '-d', '')],
                 [('d', 'dPd', 'd'), ('dPd', 'd', 'dPd')],
                 [('d', 'd', 'dPd'), ('d', 'dPd', 'd'), ('dPd', 'd', 'd')],
                 [('d', 'a', 'dPd'), ('dPd', 'aa', 'd')],
                 [('d', 'Pd'), ('dPd', 'd')], [('d', 'dP'), ('Pd', 'd')],
                 [('dPd', 'd', 'd')] * 3, [('dP', 'dPd')] * 2):
        for dec in '.,':
            for how in ('text', 'bytes', 'file'):
                out.append(dict(name='shape:%s:%s:%s' % (rows, dec, how),
                                fn=table,
                                params=dict(rows=rows, delim=';', dec=dec,
                                            how=how)))
    for how in ('text', 'bytes'):
        for s in (True, False):
            out.append(dict(name='pad:%s:%s' % (how, s), fn=padded,
                            params=dict(how=how, strip=s)))
            out.append(dict(name='pad2:%s' % how, fn=table,
                            params=dict(rows=[('dPd', 'aa', 'd')] * 2,
                                        delim=';', dec=',', how=how,
                                        pad=' ', strip=True)))
        out.append(dict(name='conv:%s' % how, fn=converters,
                        params=dict(how=how)))
    for sym in ((0, 1, 59), (30, 31, 32)):
        out.append(dict(name='tall:%s' % (sym,), fn=tall,
                        params=dict(n=60, sym=sym)))
    for n in (11, 27):
        for how in ('text', 'bytes'):
            for dec in '.,':
                out.append(dict(name='wide:%d:%s:%s' % (n, how, dec),
                                fn=wide,
                                params=dict(n=n, how=how, dec=dec)))
    if tier == 'thorough':
        for s1 in NUMS:
            for s2 in NUMS:
                for dec in '.,':
                    out.append(dict(
                        name='nn:%s:%s:%s' % (s1, s2, dec), fn=table,
                        params=dict(rows=[(s1, s2, 'aa', 'dPd'), (s2, s1, 'a**', 'd'),
                                          ('d', 'dPdd', '**', 'd')], delim=';',
                                    dec=dec, how='text')))
        out.append(dict(name='tall:300', fn=tall,
                        params=dict(n=300, sym=(0, 128, 256, 299))))
    return out
