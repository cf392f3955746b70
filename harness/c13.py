"""C13: selected columns arrive under their own numbers and names."""
from itertools import permutations
from harness.textlib import Table, body, source, expect_cols, field

BOUNDS = ('tables of 2 rows (1 with more header lines) x 4 columns, symbolic '
          'digits and letters; usecols of 1..4 symbolic column numbers in '
          'any order, repeated or not, as list, tuple, set or plain int; 13 '
          'columns with 5 selections, also as iterator and dict keys; '
          'names dicts of any key order over any subset; names line with '
          'symbolic letters; text, bytes and file input, debug on and off')
OUTSIDE = 'more columns; column numbers outside the table; numbers that ' \
    'are not Python integers'
ASSUMPTIONS = ['the first row has a value in each column']

ROWS = [('dPd', 'aa', '-d', 'a'), ('d', 'a*', 'dPd', '**')]


def kind(how):
    return {'list': list, 'tuple': tuple, 'set': set}[how]


def setup(env, how, delim, header):
    R = env.load('channelpack.readtext')
    t = Table(env, ROWS)
    lines = t.lines(delim)
    hdr = []
    if header:
        hdr = [field(env, 'h%d' % c, 'a*') for c in range(t.ncols)]
        lines = [env.join(delim, hdr)] + lines
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    kw['delimiter'] = enc(delim)
    return R, t, hdr, src, kw


def uniq(env, cols):
    return sorted(set(int(c) for c in cols))


def wanted(t, cols):
    return {c: t.column(c) for c in cols}


def names_are(env, pack, want):
    env.check(sorted(pack.names) == sorted(want), 'which columns have a name')
    for c in want:
        env.check_same(pack.names[c], want[c], 'the name of a column')
        env.check_same(pack.name(c), want[c], 'the name of a column')


def usecols(env, k, seq, how, header, debug, delim=';'):
    R, t, hdr, src, kw = setup(env, how, delim, header)
    cols = [env.int('u%d' % i, 0, t.ncols - 1) for i in range(k)]
    cols = [int(c) for c in cols]
    if seq == 'int':
        arg = cols[0]
    else:
        arg = kind(seq)(cols)
    if header:
        kw.update(skiprows=1, hasnames=True)
    pack = R.textpack(src, usecols=arg, debug=debug, **kw)
    cols = uniq(env, cols)
    expect_cols(env, pack, wanted(t, cols))
    names_are(env, pack, {c: hdr[c] for c in cols} if header else {})
    if header:
        for c in cols:
            # by name too, unless another column has the same name
            if env.decide(env.land(*[env.lnot(env.same(hdr[c], hdr[d]))
                                     for d in cols if d != c])):
                env.check_same(list(pack(pack.names[c])), t.column(c),
                               'a column by its name')


def names(env, order, how, hasnames, debug):
    """names= gives the columns to read and their names."""
    R, t, hdr, src, kw = setup(env, how, ';', hasnames)
    nm = {c: field(env, 'n%d' % c, 'a*') for c in order}
    if hasnames:
        kw.update(skiprows=1, hasnames=True)
    if env.bool('other'):
        kw['usecols'] = (0, 1)      # ignored, names is given
    pack = R.textpack(src, names=dict(nm), debug=debug, **kw)
    expect_cols(env, pack, wanted(t, order))
    names_are(env, pack, nm)


def everything(env, how, debug):
    R, t, hdr, src, kw = setup(env, how, ';', True)
    pack = R.textpack(src, hasnames=True, skiprows=1, debug=debug, **kw)
    expect_cols(env, pack, wanted(t, range(4)))
    names_are(env, pack, dict(enumerate(hdr)))


def lazy(env, how, order, keyed):
    """lazy_textpack with a selection: same columns, same numbers, the names
    of the file."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'd', '-d'), ('d', 'dPd', 'd')])
    hdr = [field(env, 'h%d' % c, 'a', wild='abxyz') for c in range(3)]
    lines = [env.join(';', hdr)] + t.lines(';')
    src, enc = source(env, how, body(env, lines))
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    if keyed:
        nm = {c: 'n%d' % c for c in order}
        kw['names'] = dict(nm)
    else:
        nm = {c: hdr[c] for c in order}
        kw['usecols'] = order[0] if len(order) == 1 and \
            env.bool('asint') else order
    pack = R.lazy_textpack(src, **kw)
    expect_cols(env, pack, wanted(t, order))
    names_are(env, pack, nm)


def wide(env, how, sel, header, keyed, seq):
    """Columns of more than one digit."""
    R = env.load('channelpack.readtext')
    n = 13
    vals = [['%d.5' % (c + 20 * r) if c not in (2, 10, 11) else
             field(env, 'f%d_%d' % (r, c), 'dPd') for c in range(n)]
            for r in range(2)]
    lines = [env.join(';', r) for r in vals]
    hdr = ['h%d' % c if c not in (1, 10) else field(env, 'h%d' % c, 'aa')
           for c in range(n)]
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    want = {}
    if header:
        lines = [env.join(';', hdr)] + lines
        kw.update(skiprows=1, hasnames=True)
        want = {c: hdr[c] for c in sel}
    src, enc = source(env, how, body(env, lines))
    if keyed:
        want = {c: 'k%d' % c for c in sel}
        kw['names'] = dict(want)
    elif seq == 'dict':
        kw['usecols'] = {c: None for c in sel}.keys()
    elif seq == 'iter':
        kw['usecols'] = iter(sel)
    else:
        kw['usecols'] = kind(seq)(sel)
    pack = R.textpack(src, delimiter=enc(';'), debug=env.choice(
        'debug', (False, True)), **kw)
    expect_cols(env, pack, {c: [env.tofloat(vals[r][c]) for r in range(2)]
                            for c in sel})
    names_are(env, pack, want)


def cases(tier):
    out = []
    ks = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    for k in ks:
        for seq in ('list', 'tuple', 'set') + (('int',) if k == 1 else ()):
            for how in ('text', 'bytes', 'file'):
                for header in (False, True):
                    for debug in (False, True):
                        if debug and seq != 'list':
                            continue
                        out.append(dict(
                            name='usecols:%d:%s:%s:%s:%s' % (
                                k, seq, how, header, debug), fn=usecols,
                            params=dict(k=k, seq=seq, how=how, header=header,
                                        debug=debug)))
    for delim in ('\t', ','):
        for header in (False, True):
            out.append(dict(name='delim:%r:%s' % (delim, header), fn=usecols,
                            params=dict(k=2, seq='list', how='text',
                                        header=header, debug=False,
                                        delim=delim)))
    for r in (1, 2, 3, 4):
        for order in permutations(range(4), r):
            for how in ('text', 'bytes', 'file'):
                for hasnames in (False, True):
                    out.append(dict(
                        name='names:%s:%s:%s' % (order, how, hasnames),
                        fn=names, params=dict(order=order, how=how,
                                              hasnames=hasnames,
                                              debug=len(order) == 2)))
    for sel in ((10, 2), (2, 11, 10), (12, 9, 1), (11,), (3, 10, 4, 12)):
        for how in ('text', 'bytes'):
            for header in (False, True):
                for keyed, seq in ((True, ''), (False, 'list'),
                                   (False, 'set'), (False, 'tuple'),
                                   (False, 'dict'), (False, 'iter')):
                    out.append(dict(
                        name='wide:%s:%s:%s:%s' % (sel, how, header,
                                                   seq or 'names'),
                        fn=wide, params=dict(how=how, sel=sel, header=header,
                                             keyed=keyed, seq=seq)))
    for how in ('text', 'bytes', 'file'):
        for debug in (False, True):
            out.append(dict(name='all:%s:%s' % (how, debug), fn=everything,
                            params=dict(how=how, debug=debug)))
        for r in (1, 2, 3):
            for order in permutations(range(3), r):
                for keyed in (False, True):
                    out.append(dict(name='lazy:%s:%s:%s' % (order, how,
                                                            keyed), fn=lazy,
                                    params=dict(how=how, order=order,
                                                keyed=keyed)))
    return out
