"""C14: data starts after the skipped lines; the names line is the last of
them."""
from harness.textlib import Table, body, source, expect_cols, field

BOUNDS = ('0..3 skipped lines of 0..3 arbitrary symbolic characters (digits, '
          'delimiters, blanks, quotes, comment signs), 0..2 columns of names '
          'with symbolic text and blanks around them, 2 data rows; text, '
          'bytes and file input; LF and CRLF; 30 skipped lines, lines of 1200 '
          'characters with 2 symbolic')
OUTSIDE = 'more and longer skipped lines'
ASSUMPTIONS = ['the first row has a value in each column']

JUNK = '1.;, \t#"a-'


def junk(env, n, shape):
    return [env.str('j%d' % i, k, JUNK) for i, k in enumerate(shape)]


def skip(env, shape, how, eol, header, debug, pad, delim=';'):
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'a*', 'd'), ('d', 'aa', '-d')])
    pre = junk(env, len(shape), shape)
    lines = list(pre)
    hdr = None
    if header:
        hdr = [field(env, 'h%d' % c, s) for c, s in
               enumerate(('a', 'a*', '*a'))]
        lp = env.choice('lp', ('', ' ', '  ')) if pad else ''
        lines.append(env.concat(lp, env.join(env.concat(lp, delim, lp), hdr),
                                lp))
    skiprows = len(lines)
    lines += t.lines(delim)
    src, enc = source(env, how, body(env, lines, eol))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(delim), skiprows=skiprows,
                      hasnames=header, debug=debug, **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(3)})
    if header:
        env.check(sorted(pack.names) == [0, 1, 2], 'a name for each column')
        for c in range(3):
            env.check_same(pack.names[c], hdr[c], 'the name of a column')
    else:
        env.check(dict(pack.names) == {}, 'no names')


def explicit(env, shape, how, hasnames):
    """names given by the caller: every skipped line is skipped, hasnames or
    not."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'a*'), ('d', 'aa')])
    lines = junk(env, len(shape), shape)
    k = len(lines)
    lines += t.lines(';')
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    names = {0: 'p', 1: 'q'}
    pack = R.textpack(src, delimiter=enc(';'), skiprows=k, names=names,
                      hasnames=hasnames, **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(2)})
    env.check(dict(pack.names) == names, 'the names given')


def anynames(env, n, pre, how, usecols, debug, eol, delim=';'):
    """The names line is whatever stands on the last skipped line."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'a*', 'd'), ('d', 'aa', '-d')])
    hdr = env.str('h', n, 'a%s 1' % delim)
    lines = [env.str('p', pre, JUNK)] if pre is not None else []
    lines.append(hdr)
    k = len(lines)
    lines += t.lines(delim)
    src, enc = source(env, how, body(env, lines, eol))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(delim), skiprows=k, hasnames=True,
                      usecols=usecols, debug=debug, **kw)
    cols = range(3) if usecols is None else sorted(usecols)
    expect_cols(env, pack, {c: t.column(c) for c in cols})
    fields = [[]]
    for i in range(n):
        c = hdr[i:i + 1]
        if bool(c == delim):
            fields.append([])
        else:
            fields[-1].append(c)
    want = {}
    for c, f in enumerate(fields[:3]):
        while f and bool(f[0] == ' '):
            f = f[1:]
        while f and bool(f[-1] == ' '):
            f = f[:-1]
        if c in cols:
            want[c] = env.join('', f)
    env.check(sorted(pack.names) == sorted(want), 'the named columns')
    for c in want:
        env.check_same(pack.names[c], want[c], 'the name of a column')


def nameless(env, how, rows):
    """Two data rows before: skiprows is a count of lines, also of lines that
    look like data."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('d', 'dPd')] * rows)
    src, enc = source(env, how, body(env, t.lines(';')))
    k = env.choice('k', range(rows))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(';'), skiprows=k, **kw)
    expect_cols(env, pack, {c: t.column(c)[k:] for c in range(2)})


def big(env, k, width, how, header):
    """Long lines, or many of them, before the data."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'a*', 'd'), ('d', 'aa', '-d')])
    lines = [env.concat('x;1 ' * width, env.str('j%d' % i, 1, JUNK)
                        if i in (0, k - 1) else 'z') for i in range(k)]
    hdr = None
    if header:
        hdr = [env.concat('n%d' % c * width, field(env, 'h%d' % c, 'a*'))
               for c in range(3)]
        lines.append(env.join(';', hdr))
    n = len(lines)
    lines += t.lines(';')
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(';'), skiprows=n, hasnames=header,
                      **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(3)})
    env.check(sorted(pack.names) == ([0, 1, 2] if header else []), 'names')
    for c in pack.names:
        env.check_same(pack.names[c], hdr[c], 'the name of a column')


def cases(tier):
    out = []
    shapes = [(), (0,), (2,), (1, 0), (0, 2), (1, 1, 1)]
    if tier == 'thorough':
        shapes += [(3,), (0, 0, 3), (3, 1), (2, 2), (4,)]
    for shape in shapes:
        for how in ('text', 'bytes', 'file'):
            for header in (False, True):
                for eol in ('\n', '\r\n'):
                    for debug in (False, True):
                        out.append(dict(
                            name='skip:%s:%s:%s:%r:%s' % (
                                shape, how, header, eol, debug), fn=skip,
                            params=dict(shape=shape, how=how, eol=eol,
                                        header=header, debug=debug,
                                        pad=header)))
            for hasnames in (False, True):
                out.append(dict(name='names:%s:%s:%s' % (shape, how,
                                                         hasnames),
                                fn=explicit,
                                params=dict(shape=shape, how=how,
                                            hasnames=hasnames)))
    for n in range(0, 5 if tier == 'quick' else 7):
        for pre in (None, 0, 2):
            for usecols in (None, (0, 1), (1, 2)):
                for how in ('text', 'bytes'):
                    if how == 'bytes' and pre == 2 and n > 3:
                        continue
                    for debug in (False, True):
                        out.append(dict(
                            name='any:%d:%s:%s:%s:%s' % (n, pre, usecols,
                                                         how, debug),
                            fn=anynames,
                            params=dict(n=n, pre=pre, how=how,
                                        usecols=usecols, debug=debug,
                                        eol='\n' if n % 2 else '\r\n')))
    for delim in '\t|':
        for n in range(1, 4 if tier == 'quick' else 6):
            for how in ('text', 'bytes'):
                for usecols in (None, (0, 2), (1,)):
                    out.append(dict(
                        name='any:%r:%d:%s:%s' % (delim, n, usecols, how),
                        fn=anynames,
                        params=dict(n=n, pre=None, how=how, usecols=usecols,
                                    debug=False, eol='\n', delim=delim)))
    for how in ('text', 'bytes', 'file'):
        for k, width in ((1, 70), (2, 300), (30, 1), (12, 40)):
            for header in (False, True):
                out.append(dict(name='big:%d:%d:%s:%s' % (k, width, how,
                                                          header), fn=big,
                                params=dict(k=k, width=width, how=how,
                                            header=header)))
    for how in ('text', 'bytes'):
        for delim in ('\t', ',', '::'):
            out.append(dict(name='delim:%r:%s' % (delim, how), fn=skip,
                            params=dict(shape=(2,), how=how, eol='\n',
                                        header=True, debug=False,
                                        pad=delim != '\t', delim=delim)))
        out.append(dict(name='count:%s' % how, fn=nameless,
                        params=dict(how=how, rows=4)))
    return out
