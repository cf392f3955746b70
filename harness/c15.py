"""C15: missing values stay where they are; blank lines are no rows."""
from itertools import product
from harness.textlib import Table, body, source, expect_cols

BOUNDS = ('tables of 3 rows x 3 columns (numbers and text), any of the '
          'fields after the first row missing (symbolic), 0..2 blank lines '
          'of 0..2 symbolic blanks anywhere after the first row; delimiters '
          '; , tab | and blank; decimal dot and comma; text and bytes input; 12..40 rows '
          'x 2..12 columns with up to 6 missing and up to 12 blank lines')
OUTSIDE = ('rows with too few fields; numeric fields made of blanks; missing '
           'values in the first row')
ASSUMPTIONS = ['the first row has a value in each column']

KINDS = [('dPd', 'aa', 'd'), ('aa', 'dPd', 'a'), ('dPd', 'd', 'd'),
         ('a', 'a', 'aa')]


def missing(env, kinds, delim, dec, how, strip, debug, rows=3, eol='\n'):
    R = env.load('channelpack.readtext')
    shapes = [kinds]
    for r in range(1, rows):
        row = []
        for c, s in enumerate(kinds):
            row.append('' if env.bool('gone%d_%d' % (r, c)) else s)
        if delim == ' ':        # a line of nothing but blanks is blank
            env.assume(any(row))
        shapes.append(tuple(row))
    t = Table(env, shapes, dec)
    lines = t.lines(delim)
    src, enc = source(env, how, body(env, lines, eol))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(delim), stripstrings=strip,
                      debug=debug, **kw)
    # a line of nothing but blanks is no row, whatever the delimiter
    keep = [r for r in range(rows)
            if lines[r].strip() or len(lines[r].strip(' \r\n'))]
    expect_cols(env, pack, {c: [t.column(c)[r] for r in keep]
                            for c in range(t.ncols)})


def blanks(env, where, chars, how, delim, debug, eol='\n', last=True):
    """Blank lines between, after or before rows add nothing."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('d', 'aa'), ('dPd', 'a'), ('d', '**')])
    chars = chars.replace(delim, '')    # a delimiter makes it a row
    lines = []
    for r, l in enumerate(t.lines(delim)):
        lines.append(l)
        for w in where:
            if w == r:
                n = env.choice('n%d_%d' % (r, len(lines)), (0, 1, 2))
                lines.append(env.str('b%d_%d' % (r, len(lines)), n, chars))
    src, enc = source(env, how, body(env, lines, eol, last))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(delim), debug=debug, **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(2)})


def many(env, rows, cols, how, delim, dec, run):
    """Many rows and columns, some missing, runs of blank lines."""
    R = env.load('channelpack.readtext')
    gone = {(r, c) for r, c in ((1, 0), (rows - 1, cols - 1), (10, 1),
                                (10, 10), (12, 4), (3, 11))
            if r < rows and c < cols and env.bool('gone%d_%d' % (r, c))}
    sym = {(0, 0), (10, 1), (rows - 1, 0), (10, 11)}
    shapes = []
    for r in range(rows):
        row = []
        for c in range(cols):
            s = 'dPd' if (r, c) in sym else '%dP%d' % (r, c)
            if c % 3 == 2:
                s = 'a*' if (r, c) in sym or r == 0 else 'x%d' % r
            row.append('' if (r, c) in gone else s)
        shapes.append(tuple(row))
    t = Table(env, shapes, dec)
    lines = []
    at = env.choice('at', (0, 1, 9, rows - 1))
    for r, l in enumerate(t.lines(delim)):
        lines.append(l)
        if r == at:
            lines += [env.str('b%d' % i, 1, ' \n') if i in (0, run - 1) else
                      '' for i in range(run)]
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, delimiter=enc(delim), **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(cols)})


def ws(env, how, where):
    """Any-whitespace delimiter: blank lines and leading blanks."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('d', 'aa'), ('dPd', 'a'), ('d', '**')])
    lines = []
    for r, row in enumerate(t.text):
        lead = env.choice('l%d' % r, ('', ' ', '\t'))
        sep = env.choice('s%d' % r, (' ', '  ', '\t '))
        lines.append(env.join('', [lead, row[0], sep, row[1], lead]))
        if r in where:
            lines.append(env.str('b%d' % r, 2, ' \t'))
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    pack = R.textpack(src, **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(2)})


def cases(tier):
    out = []
    rows = 3 if tier == 'quick' else 4
    for kinds in KINDS:
        for delim, dec in ((';', '.'), (';', ','), (',', '.'), ('|', '.'),
                           ('\t', '.'), ('\t', ','), (' ', '.')):
            if dec == ',' and 'dPd' not in kinds:
                continue
            for how in ('text', 'bytes'):
                for strip in (False, True):
                    for debug in (False, True):
                        if debug and (strip or delim == '|'):
                            continue
                        out.append(dict(
                            name='gone:%s:%r:%s:%s:%s:%s' % (
                                '/'.join(kinds), delim, dec, how, strip,
                                debug), fn=missing,
                            params=dict(kinds=kinds, delim=delim, dec=dec,
                                        how=how, strip=strip, debug=debug,
                                        rows=rows)))
    for delim in (';', ',', '\t', '|'):
        for how in ('text', 'bytes', 'file'):
            for where in ((0,), (1,), (2,), (0, 1), (1, 1), (0, 2)):
                for debug in (False, True):
                    if debug and where != (0, 1):
                        continue
                    out.append(dict(
                        name='blank:%r:%s:%s:%s' % (delim, how, where, debug),
                        fn=blanks,
                        params=dict(where=where, chars=' \t', how=how,
                                    delim=delim, debug=debug)))
            out.append(dict(name='blankcr:%r:%s' % (delim, how), fn=blanks,
                            params=dict(where=(0, 2), chars=' \t', how=how,
                                        delim=delim, debug=False,
                                        eol='\r\n')))
            out.append(dict(name='blanknl:%r:%s' % (delim, how), fn=blanks,
                            params=dict(where=(1, 2), chars=' \t', how=how,
                                        delim=delim, debug=False,
                                        last=False)))
    for rows, cols, run in ((12, 12, 1), (14, 3, 4), (40, 2, 12)):
        for how in ('text', 'bytes'):
            for delim, dec in ((';', '.'), ('\t', ',')):
                out.append(dict(name='many:%d:%d:%s:%r' % (rows, cols, how,
                                                           delim), fn=many,
                                params=dict(rows=rows, cols=cols, how=how,
                                            delim=delim, dec=dec, run=run)))
    for how in ('text', 'bytes'):
        for where in ((), (0,), (2,), (0, 1)):
            out.append(dict(name='ws:%s:%s' % (how, where), fn=ws,
                            params=dict(how=how, where=where)))
    return out
