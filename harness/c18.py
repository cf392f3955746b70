"""C18: lazy_textpack finds the table in numeric text."""
from harness.textlib import Table, body, source, expect_cols, field, NUMS

BOUNDS = ('1..3 rows x 1..3 columns of numbers (10 shapes, digits symbolic, '
          'decimal dot or comma), delimiters ; tab space | : and " ; "; 0..2 '
          'header lines of symbolic letters and blanks, with or without a '
          'names line of symbolic letters, blank lines above and below; '
          'parselines from just enough to 60; 40 header lines, lines of 400 '
          'characters, 60 rows, 27 columns with 5 symbolic; overrides of every keyword; '
          'texts of up to 4 symbolic characters with no digits (failure); '
          'text, bytes and file input')
OUTSIDE = ('missing values, comma delimiters, delimiters that differ from '
           'line to line, header text with digits')
ASSUMPTIONS = ['no digits in the header', 'every data line uses one '
               'delimiter', 'with decimal comma: the last parsed line shows '
               'a digit, comma, digit']


def names_of(env, pack, want):
    env.check(sorted(pack.names) == sorted(want), 'columns with names')
    for c in want:
        env.check_same(pack.names[c], want[c], 'the names of the file')


def title(env, name, shape):
    """A header line without digits that is no names line: shape says letter
    or blank."""
    return env.join('', [env.str('%s.%d' % (name, i), 1, 'abt')
                         if c == 'a' else c for i, c in enumerate(shape)])


def lazy(env, rows, delim, dec, how, titles=(), header=True, tail=0,
         parselines=None, eol='\n', blank_above=0, hpad='', mid=()):
    R = env.load('channelpack.readtext')
    t = Table(env, rows, dec)
    lines = [title(env, 't%d' % i, s) for i, s in enumerate(titles)]
    hdr = {}
    if header:
        hdr = {c: field(env, 'h%d' % c, 'a' if c else 'aa', wild='abt')
               for c in range(t.ncols)}
        d = hpad + delim + hpad
        lines.append(env.join(d, [hdr[c] for c in range(t.ncols)]))
    lines += [title(env, 'm%d' % i, s) for i, s in enumerate(mid)]
    lines += [''] * blank_above
    top = len(lines)
    lines += t.lines(delim)
    lines += [''] * tail
    src, enc = source(env, how, body(env, lines, eol))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    if parselines is not None:
        kw['parselines'] = top + parselines
    pack = R.lazy_textpack(src, **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(t.ncols)})
    names_of(env, pack, hdr)
    for c in range(t.ncols):
        env.check(pack(c).dtype.kind == 'f', 'numbers')


def large(env, rows, cols, dec, delim, how, top, width, parse, header=True):
    """Many columns, rows, header lines, or long lines."""
    R = env.load('channelpack.readtext')
    sym = {(0, 0), (0, cols - 1), (rows - 1, 0), (rows - 1, cols - 1),
           (1, 10)}
    t = Table(env, [tuple('dPd' if (r, c) in sym else '%dP%d' % (r, c)
                          for c in range(cols)) for r in range(rows)], dec)
    lines = [env.concat('tt ' * (width // 3), env.str('t%d' % i, 1, 'ab')
                        if i in (0, top - 1) else 'x') for i in range(top)]
    hdr = {c: env.concat('n' * (width // cols or 1),
                         field(env, 'h%d' % c, 'a', wild='abt')
                         if c in (0, 10, cols - 1) else 'q')
           for c in range(cols)}
    if header:
        lines.append(env.join(delim, [hdr[c] for c in range(cols)]))
    else:
        hdr = {}
    n = len(lines)
    lines += t.lines(delim)
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    if parse:
        kw['parselines'] = n + parse
    pack = R.lazy_textpack(src, **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(cols)})
    names_of(env, pack, hdr)


def derived(env, rows, delim, dec, titles):
    """What preparse derives is right for the table."""
    R = env.load('channelpack.readtext')
    t = Table(env, rows, dec)
    lines = [title(env, 't%d' % i, s) for i, s in enumerate(titles)]
    top = len(lines)
    lines += t.lines(delim)
    kw = R.preparse([env.concat(x, '\n') for x in lines])
    env.check_same(kw['skiprows'], top, 'skiprows')
    if t.ncols == 1:
        env.check(kw['delimiter'] is None, 'delimiter')
    else:
        env.check_same(kw['delimiter'], delim.strip() or delim, 'delimiter')
    env.check(tuple(kw['usecols']) == tuple(range(t.ncols)), 'usecols')
    if dec == ',':
        env.check(sorted(kw['converters']) == list(range(t.ncols)),
                  'converters')
        for c in range(t.ncols):
            env.check_same(kw['converters'][c](t.text[-1][c]),
                           t.column(c)[-1], 'converter')
    else:
        env.check(kw['converters'] is None, 'converters')


def failing(env, n, how, alpha):
    """No numbers, no pack."""
    R = env.load('channelpack.readtext')
    src, enc = source(env, how, env.str('x', n, alpha))
    env.raises(ValueError, R.lazy_textpack, src)


OVER = ('delimiter', 'skiprows', 'skipmore', 'names', 'converters', 'usecols',
        'hasnames', 'debug', 'names+usecols', 'nothing', 'nonames',
        'encoding')


def override(env, which, how, dec='.'):
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'd', '-d'), ('d', 'dPd', 'd'),
                    ('dPd', 'd', 'd')], dec)
    hdr = {c: field(env, 'h%d' % c, 'aa', wild='abt') for c in range(3)}
    lines = ['a title', env.join(';', [hdr[c] for c in range(3)])]
    lines += t.lines(';')
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    cols = {c: t.column(c) for c in range(3)}
    if which == 'delimiter':
        kw['delimiter'] = enc(';')
    elif which == 'skiprows':
        kw['skiprows'] = 2
    elif which == 'skipmore':
        k = env.choice('k', (2, 3, 4))
        kw['skiprows'] = k
        cols = {c: cols[c][k - 2:] for c in cols}
    elif which == 'names':
        c = env.choice('c', (0, 1, 2))
        kw['names'] = {c: 'own'}
        cols, hdr = {c: cols[c]}, {c: 'own'}
    elif which == 'converters':
        c = env.choice('c', (0, 1, 2))
        kw['converters'] = {c: lambda s: 7.25}
        cols[c] = [7.25] * 3
    elif which == 'usecols':
        c = env.choice('c', (0, 1, 2, (0, 2), [1], (2, 1), {0, 1}))
        kw['usecols'] = c
        keep = (c,) if isinstance(c, int) else c
        cols = {c: cols[c] for c in keep}
        hdr = {c: hdr[c] for c in keep}
    elif which == 'names+usecols':
        kw['names'] = {0: 'p', 2: 'q'}
        kw['usecols'] = (1,)
        cols = {c: cols[c] for c in (0, 2)}
        hdr = kw['names']
    elif which == 'hasnames':
        kw['hasnames'] = True       # derived names come first
    elif which == 'debug':
        kw['debug'] = True
    elif which == 'nothing':
        kw[env.choice('which', ('usecols', 'converters'))] = None
    elif which == 'nonames':
        kw['names'] = env.choice('which', (None, {}))
        hdr = {}
    elif which == 'encoding':
        kw['encoding'] = None
    pack = R.lazy_textpack(src, **kw)
    expect_cols(env, pack, cols)
    names_of(env, pack, hdr)


def skip0(env, how):
    """No lines skipped: the names are the first row, text."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'd'), ('d', 'dd')])
    hdr = {c: field(env, 'h%d' % c, 'aa', wild='abt') for c in range(2)}
    lines = [env.join(';', [hdr[c] for c in range(2)])] + t.lines(';')
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.lazy_textpack(src, skiprows=0, **kw)
    expect_cols(env, pack, {c: [hdr[c]] + [r[c] for r in t.text]
                            for c in range(2)})


def anywhite(env, how):
    """Any white space for delimiter, and not the one derived."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'd'), ('d', 'dd'), ('d', 'd')])
    lines = ['aa bb'] + [env.join(d, row) for d, row in
                         zip((' ', ' ', '  '), t.text)]
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.lazy_textpack(src, parselines=3, delimiter=None, **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(2)})
    names_of(env, pack, {0: 'aa', 1: 'bb'})


def letters(env, delim):
    """Names of other letters than the English."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'd'), ('d', 'dPd')])
    hdr = {c: env.concat(env.choice('h%d' % c, ('\xc5', '\xe9', '\xb5')),
                         env.str('x%d' % c, 1, 'ab')) for c in range(2)}
    lines = ['\xe5', env.join(delim, [hdr[0], hdr[1]])] + t.lines(delim)
    pack = R.lazy_textpack(env.textio(body(env, lines)))
    expect_cols(env, pack, {c: t.column(c) for c in range(2)})
    names_of(env, pack, hdr)


def cases(tier):
    out = []
    q = tier == 'quick'
    hows = ('text', 'bytes', 'file')
    for dec in '.,':
        for delim in (';', '\t', ' ', '|', ':', ' ; '):
            for how in hows:
                for header in (False, True):
                    out.append(dict(
                        name='table:%s:%r:%s:%s' % (dec, delim, how, header),
                        fn=lazy,
                        params=dict(rows=[('d', '-dPd'), ('dPd', 'd')],
                                    delim=delim, dec=dec, how=how,
                                    header=header,
                                    titles=('aa a', 'a') if header else
                                    ('a a a',))))
    for dec in '.,':
        for s in NUMS:
            out.append(dict(name='num:%s:%s' % (dec, s), fn=lazy,
                            params=dict(rows=[(s, 'd'), ('d', s),
                                              ('dPd', 'd')],
                                        delim=';', dec=dec, how='text')))
            out.append(dict(name='last:%s:%s' % (dec, s), fn=lazy,
                            params=dict(rows=[('d', 'dPd'), (s, 'dPd')],
                                        delim=';', dec=dec, how='text')))
            out.append(dict(name='derive:%s:%s' % (dec, s), fn=derived,
                            params=dict(rows=[(s, 'd'), ('dPd', s)],
                                        delim=';', dec=dec,
                                        titles=('a', 'a a'))))
        for rows in ([('dPd',)], [('d',), ('dPd',)], [('dPd',)] * 3,
                     [('dPd', 'd', '-d')], [('dPd', 'd', 'dPd')] * 2,
                     [('dd', 'dPd', 'd')] * 3):
            for header in (False, True):
                for how in hows:
                    out.append(dict(
                        name='shape:%s:%s:%s:%s' % (dec, rows, header, how),
                        fn=lazy, params=dict(rows=rows, delim=';', dec=dec,
                                             how=how, header=header,
                                             titles=('a a',) if
                                             len(rows[0]) == 1 else ('a',),
                                             tail=len(rows))))
    for pl in (1, 2, 3, 5):
        for how in hows:
            out.append(dict(name='lines:%d:%s' % (pl, how), fn=lazy,
                            params=dict(rows=[('dPd', 'd')] * 3, delim=';',
                                        dec='.', how=how, parselines=pl,
                                        titles=('a',))))
    for tail in (0, 1, 3):
        for above in (0, 1, 2):
            for eol in ('\n', '\r\n'):
                out.append(dict(name='blank:%d:%d:%r' % (tail, above, eol),
                                fn=lazy,
                                params=dict(rows=[('dPd', 'd')] * 2,
                                            delim=';', dec='.', how='text',
                                            tail=tail, blank_above=above,
                                            eol=eol)))
    # lines between the names and the data: not as many fields as columns,
    # or a first field that starts with a non-word character
    for delim in (';', ' ', '\t', '|'):
        d = delim
        for dec in '.,':
            for mid in (('a',), ('a' + d + 'a' + d + 'a',),
                        ('-' + d + 'a',), ('[a]' + d + '[a]',),
                        ('a' + d + 'a' + d + 'a', 'aa'),
                        ('(a' + d + 'aa', '', 'a')):
                for titles in ((), ('a' + d + 'a',),
                               ('a', 'a' + d + 'a' + d + 'a')):
                    out.append(dict(
                        name='mid:%r:%s:%s:%s' % (delim, dec, mid, titles),
                        fn=lazy, params=dict(
                            rows=[('d', 'dPd'), ('dPd', 'd')], delim=delim,
                            dec=dec, how='text', mid=mid, titles=titles)))
    out.append(dict(name='hpad', fn=lazy,
                    params=dict(rows=[('dPd', 'd')] * 2, delim=';', dec='.',
                                how='text', hpad=' ')))
    for how in hows:
        for dec in '.,':
            for rows, cols, top, width, parse in (
                    (2, 12, 1, 6, 0), (3, 27, 0, 0, 0), (3, 3, 2, 400, 0),
                    (40, 2, 1, 10, 0), (3, 2, 30, 6, 2), (60, 2, 10, 6, 50),
                    (3, 12, 40, 240, 1)):
                for delim, header in ((';', True), ('\t', True),
                                      (';', False)):
                    out.append(dict(name='large:%s:%s:%d:%d:%d:%d:%r:%s' % (
                        how, dec, rows, cols, top, width, delim, header),
                        fn=large,
                        params=dict(rows=rows, cols=cols, dec=dec,
                                    delim=delim, how=how, top=top,
                                    width=width, parse=parse,
                                    header=header)))
    for n in range(0, 4 if q else 6):
        for how in ('text', 'bytes'):
            for alpha in ('a;\n ', '\n \t', '.,-+', 'e\n-'):
                out.append(dict(name='fail:%d:%s:%r' % (n, how, alpha),
                                fn=failing,
                                params=dict(n=n, how=how, alpha=alpha)))
    for how in hows:
        out.append(dict(name='skip0:' + how, fn=skip0, params=dict(how=how)))
        out.append(dict(name='anywhite:' + how, fn=anywhite,
                        params=dict(how=how)))
    for delim in ';\t':
        out.append(dict(name='letters:%r' % delim, fn=letters,
                        params=dict(delim=delim)))
    for which in OVER:
        for how in hows:
            for dec in '.,':
                out.append(dict(name='over:%s:%s:%s' % (which, how, dec),
                                fn=override,
                                params=dict(which=which, how=how, dec=dec)))
    if not q:
        for dec in '.,':
            for s1 in NUMS:
                for s2 in NUMS:
                    out.append(dict(
                        name='nn:%s:%s:%s' % (dec, s1, s2), fn=lazy,
                        params=dict(rows=[(s1, s2, 'd'), (s2, 'd', s1),
                                          ('dPd', s1, s2)],
                                    delim='\t', dec=dec, how='text',
                                    titles=('a a a', 'aa'))))
    return out
