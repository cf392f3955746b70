"""C17: debug mode changes nothing but what is printed."""
from harness.textlib import Table, body, source, field
from harness.c16 import outcome, compare

BOUNDS = ('3 lines of 1..3 fields of up to 2 arbitrary symbolic characters '
          '(digits, signs, separators, blanks, letters), so both numeric, '
          'text and failing input; usecols, names, hasnames, skiprows, '
          'converters that raise at a symbolic row; text and bytes; 11..60 '
          'rows x 3..12 columns with 3 symbolic fields')
OUTSIDE = ('rows with fewer fields than the first; more rows; the wording of '
           'the debug output')
ASSUMPTIONS = ['no row has fewer fields than the first row']


def both(env, make, kw):
    R = env.load('channelpack.readtext')
    a = outcome(env, lambda: R.textpack(make(), **kw))
    b = outcome(env, lambda: R.textpack(make(), debug=True, **kw))
    compare(env, a, b, 'debug')
    if a[0] == 'error':
        env.check(a[1] is b[1], 'the same error')
    else:
        for k in a[1].data:
            env.check(a[1](k).dtype.kind == b[1](k).dtype.kind,
                      'the same kind of array')
    return a


def free(env, shape, alpha, delim, how, kw):
    """shape: per line, the length of each field."""
    lines = [env.join(delim, [env.str('t%d_%d' % (r, c), n, alpha)
                              for c, n in enumerate(row)])
             for r, row in enumerate(shape)]
    text = body(env, lines)
    kw = dict(kw)
    _, enc = source(env, how, text)
    kw['delimiter'] = enc(delim)
    if how == 'bytes' and env.bool('enc'):
        kw['encoding'] = 'ascii'
    both(env, lambda: source(env, how, text)[0], kw)


def failing(env, how, rows, hasnames, cols):
    """A converter that fails at any row (or none)."""
    t = Table(env, [('d', 'aa', 'd')] * rows)
    lines = t.lines(';')
    kw = {}
    if hasnames:
        lines = ['x;y;z'] + lines
        kw = dict(skiprows=1, hasnames=True)
    text = body(env, lines)
    _, enc = source(env, how, text)
    at = env.choice('at', range(rows + 1))
    err = env.choice('err', (ValueError, TypeError, KeyError))
    count = [0]

    def conv(s):
        count[0] += 1
        if (count[0] - 1) == at:
            raise err('no')
        return 1.5

    def make():
        count[0] = 0
        return source(env, how, text)[0]
    a = both(env, make, dict(kw, delimiter=enc(';'), converters={0: conv},
                             **cols))
    if at < rows:
        env.check(a == ('error', err), 'the error of the converter')
    else:
        env.check(a[0] == 'pack', 'no error')


def long(env, rows, cols, how, kw, bad):
    """Many rows and columns; a bad field late in the file, or none."""
    lines = [env.join(';', [
        env.str('t%d_%d' % (r, c), 2, '1a ') if (r, c) in
        ((rows - 1, 1), (10, cols - 1), bad) else
        'x%d' % r if c % 3 == 2 else '%d.%d' % (r, c)
        for c in range(cols)]) for r in range(rows)]
    text = body(env, ['h;i'] * kw.get('skiprows', 0) + lines)
    kw = dict(kw, delimiter=source(env, how, text)[1](';'))
    both(env, lambda: source(env, how, text)[0], kw)


def cases(tier):
    out = []
    q = tier == 'quick'
    shapes = [((2, 1), (1, 1)), ((1, 2), (2, 0)), ((1,), (0,), (2,)),
              ((1, 1), (1, 1, 1), (0, 1))]
    if not q:
        shapes += [((2, 2), (2, 2)), ((1, 1, 1), (1, 1, 1), (1, 0, 1)),
                   ((3,), (3,)), ((1,), (1, 2), (2,))]
    for shape in shapes:
        for i, alpha in enumerate(('1a', '1,', '1. ', '-a', '\t1')):
            for how in ('text', 'bytes'):
                for kw in ({}, {'usecols': [0]}, {'names': {0: 'p'}},
                           {'skiprows': 1, 'hasnames': True},
                           {'stripstrings': True}):
                    if kw and (i > 2 or how == 'bytes') and q:
                        continue
                    if kw.get('skiprows') and len(shape[-1]) < \
                            len(shape[1]):
                        continue        # a row shorter than the first
                    out.append(dict(name='free:%s:%d:%s:%s' % (
                        shape, i, how, kw), fn=free,
                        params=dict(shape=shape, alpha=alpha, delim=';',
                                    how=how, kw=kw)))
    for how in ('text', 'bytes', 'file'):
        for rows, cols in ((12, 12), (60, 3), (11, 5)):
            for kw in ({}, {'usecols': [1, 2]}, {'names': {1: 'p', 2: 'q'}},
                       {'skiprows': 2, 'hasnames': False}):
                out.append(dict(name='long:%d:%d:%s:%s' % (rows, cols, how,
                                                           kw), fn=long,
                                params=dict(rows=rows, cols=cols, how=how,
                                            kw=kw, bad=(9, 0))))
    for how in ('text', 'bytes', 'file'):
        for rows in (1, 2, 3, 12):
            for hasnames in (False, True):
                for cols in ({}, {'usecols': (0, 2)}):
                    out.append(dict(name='fail:%s:%d:%s:%s' % (
                        how, rows, hasnames, cols), fn=failing,
                        params=dict(how=how, rows=rows, hasnames=hasnames,
                                    cols=cols)))
    return out
