"""C16: the same text as bytes, text or file gives the same pack."""
from harness.textlib import Table, body, field

BOUNDS = ('(a) free text: every string of up to 5 (quick) / 7 (thorough) '
          'characters over an alphabet of digits, signs, delimiters, blanks, '
          'newlines and letters, after a fixed first row, and every field of '
          'up to 3 / 4 of them between others; (b) every first '
          'line of up to 3 / 4 such characters; (c) structured tables with '
          'names, missing values, stripping, 3 encodings with symbolic '
          'non-ASCII letters; (d) 3 rows x 12 columns and 30 x 2 with lines of '
          'up to 200 characters; readers textpack and lazy_textpack')
OUTSIDE = 'longer texts, stateful multi-byte encodings (utf-16)'
ASSUMPTIONS = ['single-byte newline encodings (ascii, utf-8, latin-1, cp1252)']


def outcome(env, f):
    r, e = env.attempt(f)
    return ('error', type(e)) if e is not None else ('pack', r)


def compare(env, a, b, what, enc=None, given=False):
    """Two outcomes are the same; enc: b holds bytes where a holds text."""
    env.check(a[0] == b[0], what + ': both read or both fail')
    if a[0] == 'error':
        return
    a, b = a[1], b[1]
    env.check(sorted(a.data) == sorted(b.data), what + ': columns')
    for k in a.data:
        x, y = list(a(k)), list(b(k))
        env.check(len(x) == len(y), what + ': rows')
        for p, q in zip(x, y):
            if enc and a(k).dtype.kind == 'U':
                p = p.encode(enc)
            env.check_same(p, q, what + ': values')
    env.check(sorted(a.names) == sorted(b.names), what + ': named columns')
    for k in a.names:
        p = a.names[k]
        if enc and not given:
            p = p.encode(enc)
        env.check_same(p, b.names[k], what + ': names')


def three(env, text, delim, enc, lazy=False, raw=True, **kw):
    R = env.load('channelpack.readtext')
    f = R.lazy_textpack if lazy else R.textpack
    d = {} if lazy else {'delimiter': delim}
    bd = {} if lazy else {'delimiter': delim and delim.encode(enc)}
    data = text.encode(enc)
    a = outcome(env, lambda: f(env.textio(text), **dict(d, **kw)))
    b = outcome(env, lambda: f(env.bytesio(data), encoding=enc,
                               **dict(bd, **kw)))
    compare(env, a, b, 'bytes with encoding')
    c = outcome(env, lambda: f(env.file('f.txt', data), encoding=enc,
                               **dict(d, **kw)))
    compare(env, a, c, 'file by name')
    if raw and not lazy:
        e = outcome(env, lambda: f(env.bytesio(data), **dict(bd, **kw)))
        compare(env, a, e, 'bytes without encoding', enc,
                'names' in kw)
    return a


def free(env, n, alpha, delim, first, kw):
    text = env.concat(first, env.str('t', n, alpha))
    three(env, text, delim, 'ascii', **kw)


def inner(env, n, alpha, first, row, kw):
    """A field of any characters between others."""
    d = kw.get('delimiter', ';')
    text = env.concat(d.join(first) + '\n', d.join(('1',) * row),
                      d if row else '', env.str('t', n, alpha),
                      d + '3\n' + d.join(first[::-1]) + '\n')
    three(env, text, d, 'ascii', **{k: v for k, v in kw.items()
                                    if k != 'delimiter'})


def structured(env, enc, letters, delim, kw, lazy=False, short=False):
    n = 1 if kw.get('skiprows') and short else 2
    t = Table(env, [('dPd', 'aa'[:n], 'd'), ('d', '*a'[:n], 'dPd'),
                    ('', '', 'd')],
              alpha=letters, wild=letters + '1 ')
    lines = t.lines(delim)
    if kw.get('skiprows'):
        hdr = [field(env, 'h%d' % c, 'a', alpha=letters) for c in range(3)]
        lines = [env.join(delim, hdr)] + lines
    a = three(env, body(env, lines), delim, enc, lazy, **kw)
    env.check(a[0] == 'pack', 'a table is read')


def long(env, enc, letters, delim, rows, cols, kw, lazy):
    """Many rows and columns, long lines."""
    sym = {(0, 1), (rows - 1, 0), (rows - 1, cols - 1), (11, 11)}
    num = ('', '1') if lazy else ('x', letters[-1] * 70)
    lines = [env.join(delim, [
        field(env, 'f%d_%d' % (r, c), 'a*' if c % 2 and not lazy else 'dPd',
              alpha=letters, wild=letters + '1 ') if (r, c) in sym else
        '%s%d.%d' % (num[c == 3] if c % 2 else '', r, c) for c in range(cols)])
        for r in range(rows)]
    hdr = [env.concat('n' if c else letters[-1] * 140,
                      field(env, 'h%d' % c, 'a', alpha=letters)
                      if c in (0, 1, 10) else 'q') for c in range(cols)]
    if lazy:
        lines = [letters[-1] * 200, env.join(delim, hdr)] + lines
    elif kw.get('hasnames'):
        lines = ['title'] * (kw['skiprows'] - 1) + [env.join(delim, hdr)] + \
            lines
    a = three(env, body(env, lines), delim, enc, lazy, **kw)
    env.check(a[0] == 'pack', 'a table is read')


def numeric(env, enc, letters, delim, dec, kw):
    t = Table(env, [('dPd', 'd'), ('d', 'dPd')], dec)
    hdr = [field(env, 'h%d' % c, 'a', alpha=letters) for c in range(2)]
    lines = [env.str('title', 2, letters), env.join(delim, hdr)] + \
        t.lines(delim)
    a = three(env, body(env, lines), delim, enc, lazy=True, **kw)
    env.check(a[0] == 'pack', 'a table is read')


def undecodable(env, enc, bad, where, kw):
    """A text field that is no text in the encoding: no pack."""
    R = env.load('channelpack.readtext')
    d = env.str('d', 1, '019')
    f = env.concat(b'a', bad, env.str('z', 1, 'ab').encode('ascii'))
    rows = [[d.encode('ascii'), b'x'], [b'2', b'y'], [b'3', b'z']]
    rows[where][1] = f
    lines = [b'p;q'] + [env.concat(a, b';', b) for a, b in rows]
    data = env.concat(*[env.concat(x, b'\n') for x in lines])
    kw = dict(kw, skiprows=1, encoding=enc)
    a = outcome(env, lambda: R.textpack(env.bytesio(data), delimiter=b';',
                                        **kw))
    b = outcome(env, lambda: R.textpack(env.file('f.txt', data),
                                        delimiter=';', **kw))
    env.check(a[0] == 'error', 'bytes: an error')
    env.check(b[0] == 'error', 'a file: an error')


def cases(tier):
    out = []
    q = tier == 'quick'
    for n in range(0, 5 if q else 7):
        for i, (alpha, delim) in enumerate((
                ('1;a\n', ';'), ('1,\n ', ';'), ('1\t \n', '\t'),
                ('.;-\n', ';'), ('1a \n', None))):
            out.append(dict(name='free:%d:%d' % (i, n), fn=free,
                            params=dict(n=n, alpha=alpha, delim=delim,
                                        first='1,5' + (delim or ' ') + 'x\n',
                                        kw={})))
    for n in range(0, 4 if q else 6):
        for i, (alpha, delim) in enumerate((
                ('\t a;', ';'), ('\x0b\x0c a', ';'), (' \ta1', None),
                ('\x1c\x1f b', ';'))):
            for lead in ('1;', '1; x'):
                out.append(dict(name='strip:%d:%d:%r' % (i, n, lead),
                                fn=free,
                                params=dict(n=n, alpha=alpha, delim=delim,
                                            first=lead,
                                            kw={'stripstrings': True,
                                                'raw': '\x1c' not in alpha}
                                            )))
        for alpha, delim in (('\x0b\x0c a', ';'), ('\x0b\x0c1', ';'),
                             ('\x0c\ta\n', '\t'), ('\x0b a\n', None)):
            for lead in ('1' + (delim or ' '), '',
                         '1%sx\n2%s' % (delim or ' ', delim or ' ')):
                out.append(dict(name='blanks:%r:%d:%r' % (alpha, n, lead),
                                fn=free,
                                params=dict(n=n, alpha=alpha, delim=delim,
                                            first=lead, kw={})))
        for enc in ('latin-1', 'utf-8', 'cp1252'):
            for kw in ({'stripstrings': True},
                       {'skiprows': 1, 'hasnames': True}):
                out.append(dict(name='nbsp:%d:%s:%s' % (n, enc, kw),
                                fn=nbsp, params=dict(n=n, enc=enc, kw=kw)))
    for n in range(0, 4 if q else 5):
        for first in (('1', '2,5', '3'), ('1', '2.5', '3'),
                      ('1', 'x', '3'), ('1,5', '2', 'x')):
            for alpha in (' 1,.', '\t -e', '\x0b\x0cn_'):
                for row in (0, 1):
                    for kw in ({}, {'stripstrings': True},
                               {'delimiter': '\t'}):
                        if kw and n == 3 and q or '\t' in alpha and \
                                'delimiter' in kw:
                            continue
                        out.append(dict(name='inner:%s:%r:%d:%d:%s' % (
                            first, alpha, n, row, kw), fn=inner,
                            params=dict(n=n, alpha=alpha, first=first,
                                        row=row, kw=kw)))
    for n in range(1, 4 if q else 5):
        for i, (alpha, delim, tail) in enumerate((
                ('1;a,.', ';', '\n2;b\n'), ('1 \te', None, '\n2 b\n'),
                ('+-1;', ';', '\n2;3\n'), ('\n1a', ';', '2;a\n'),
                ('1,; ', ',', '\n4,5\n'))):
            out.append(dict(name='first:%d:%d' % (i, n), fn=first_line,
                            params=dict(n=n, alpha=alpha, delim=delim,
                                        tail=tail)))
    for enc, bad in (('ascii', b'\xe5'), ('utf-8', b'\xff'),
                     ('utf-8', b'\xc3'), ('cp1252', b'\x81')):
        for where in (0, 1, 2):
            for kw in ({}, {'stripstrings': True}, {'hasnames': True},
                       {'debug': True}):
                out.append(dict(name='bad:%s:%r:%d:%s' % (enc, bad, where,
                                                          kw),
                                fn=undecodable,
                                params=dict(enc=enc, bad=bad, where=where,
                                            kw=kw)))
    for enc, letters in (('ascii', 'abz'), ('utf-8', u'a\xe5\u20ac'),
                         ('latin-1', u'a\xe5\xff'),
                         ('cp1252', u'a\xe5\u20ac')):
        for delim in (';', '\t', ','):
            for kw in ({}, {'stripstrings': True}, {'usecols': (0, 1)},
                       {'skiprows': 1, 'hasnames': True}, {'debug': True},
                       {'skiprows': 1, 'hasnames': True, 'usecols': [2, 1]},
                       {'names': {1: 'x'}}):
                out.append(dict(name='table:%s:%r:%s' % (enc, delim, kw),
                                fn=structured,
                                params=dict(enc=enc, letters=letters,
                                            delim=delim, kw=kw,
                                            short=q)))
        for rows, cols in ((3, 12), (30, 2)):
            for kw, lazy in (({}, False), ({}, True),
                             ({'stripstrings': True}, False),
                             ({'skiprows': 11, 'hasnames': True}, False),
                             ({'usecols': (cols - 1, 1)}, False),
                             ({'usecols': (cols - 1, 1)}, True)):
                out.append(dict(name='long:%s:%d:%d:%s:%s' % (
                    enc, rows, cols, kw, lazy), fn=long,
                    params=dict(enc=enc, letters=letters, delim=';',
                                rows=rows, cols=cols, kw=kw, lazy=lazy)))
        for delim, dec in ((';', '.'), (';', ','), ('\t', '.'), ('\t', ',')):
            out.append(dict(name='lazy:%s:%r:%s' % (enc, delim, dec),
                            fn=numeric, params=dict(enc=enc, letters=letters,
                                                    delim=delim, dec=dec,
                                                    kw={})))
    return out


def nbsp(env, n, enc, kw):
    """White space that only text knows as such, around a text field."""
    w = env.str('w', n, u'\xa0 a')
    f = env.join('', ['1;', w, ';x;', w])
    text = env.join('\n', [f, f, ''])
    three(env, text, ';', enc, raw=False, **kw)


def first_line(env, n, alpha, delim, tail):
    text = env.concat(env.str('t', n, alpha), tail)
    three(env, text, delim, 'ascii')
