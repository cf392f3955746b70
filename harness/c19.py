"""C19: readers close what they open, leave the caller's streams open and
read from the stream's position."""
from harness.textlib import Table, body, expect_cols
from harness.dbflib import Dbf
from harness.c20 import verify
from harness import xllib as L, bifflib as B, c30

BOUNDS = ('textpack, lazy_textpack and dbfpack on files by name and on text '
          'and bytes streams; success and failures at every row (converter '
          'raising, no numbers, truncated dbf); streams positioned after 0..4 '
          'symbolic characters already read; sheetpack on xls files (plain, '
          'or in a compound document of two shapes) and xlsx files with a '
          'symbolic value, whole and with each part missing or damaged, cut '
          'at 8 places, and with arguments that name no sheet or cell')
OUTSIDE = 'streams that cannot seek'
ASSUMPTIONS = []


ERRORS = (RuntimeError, AttributeError, KeyError, IndexError, ValueError,
          TypeError, OSError, EOFError, UnicodeError, ZeroDivisionError,
          AssertionError, StopIteration, MemoryError)


def all_closed(env, want):
    fs = env.opened()
    env.check(len(fs) >= want, 'the file is opened')
    for f in fs:
        env.check(f.closed, 'a file opened by the reader is closed')


def text_src(env, how, text):
    if how == 'file':
        return env.file('d.txt', text)
    if how == 'text':
        return env.textio(text)
    if how == 'named':
        return env.textio(text, name='given.txt')
    return env.bytesio(text.encode('ascii'))


def textual(env, reader, how, fail):
    env.watch()
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'd'), ('d', 'dPd'), ('d', 'd')])
    text = body(env, ['a;b'] + t.lines(';'))
    enc = (lambda s: s.encode('ascii')) if how == 'bytes' else (lambda s: s)
    f = getattr(R, reader)
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    at = None
    if reader == 'textpack':
        kw.update(delimiter=enc(';'), skiprows=1)
        if env.bool('hasnames'):
            kw['hasnames'] = True
    if env.bool('debug'):
        kw['debug'] = True
    if fail == 'conv':
        at = env.choice('at', (0, 1, 2))
        cnt = [0]
        kind = env.choice('kind', ERRORS)

        def conv(s):
            cnt[0] += 1
            if cnt[0] - 1 == at:
                raise kind('conv')
            return 1.0
        kw['converters'] = {env.choice('col', (0, 1)): conv}
    elif fail == 'blank':
        text = env.str('blank', 2, ' \n\t')
    src = text_src(env, how, text)
    r, e = env.attempt(f, src, **kw)
    if fail == 'conv':
        env.check(e is not None, 'an error is raised')
        if kind is not StopIteration:
            env.check(isinstance(e, kind), 'the error is raised')
    elif fail == 'blank':
        if reader == 'lazy_textpack' and 'encoding' not in kw and \
                'debug' not in kw:
            env.check(isinstance(e, ValueError), 'the error is raised')
    else:
        env.check(e is None, 'no error')
        expect_cols(env, r, {c: t.column(c) for c in range(2)})
        env.check(r.fn == (src if how == 'file' else 'given.txt'
                           if how == 'named' else ''), 'the name of the file')
    if how == 'file':
        all_closed(env, 1)
    else:
        env.check(not src.closed, "the caller's stream is open")


def positioned(env, reader, how, n, alpha):
    """Part of the stream is read already: the pack has the rest."""
    R = env.load('channelpack.readtext')
    t = Table(env, [('dPd', 'd'), ('d', 'dPd')])
    pre = env.str('pre', n, alpha)
    text = env.concat(pre, body(env, ['a;b'] + t.lines(';')))
    src = text_src(env, how, text)
    src.read(n)
    kw = {'encoding': 'ascii'} if how == 'bytes' else {}
    if reader == 'textpack':
        kw.update(delimiter=b';' if how == 'bytes' else ';', skiprows=1,
                  hasnames=True)
    pack = getattr(R, reader)(src, **kw)
    expect_cols(env, pack, {c: t.column(c) for c in range(2)})
    env.check(dict(pack.names) == {0: 'a', 1: 'b'}, 'the names')
    env.check(not src.closed, "the caller's stream is open")


def nothing(env, how, n, alpha):
    """Lazy reading of text without numbers leaves the stream as it was."""
    R = env.load('channelpack.readtext')
    pre = env.str('pre', 2, 'a1\n')
    src = text_src(env, how, env.concat(pre, env.str('x', n, alpha)))
    src.read(2)
    at = src.tell()
    r, e = env.attempt(R.lazy_textpack, src)
    env.check(isinstance(e, ValueError), 'the error is raised')
    env.check(src.tell() == at, 'the stream is where it was')
    env.check(not src.closed, "the caller's stream is open")


FIELDS = [('Q', 'N', 2, 0), ('R', 'C', 1, 0)]


def dbf(env, how, names, fail):
    env.watch()
    D = env.load('channelpack.dbf')
    t = Dbf(env, FIELDS, [('full', 'text')] * 2)
    data = t.data
    if fail:
        cut = env.choice('cut', (10, 40, 96, 99, len(data) - 1))
        data = data[:cut]
    src = env.file('t.dbf', data) if how == 'file' else env.bytesio(data)
    r, e = env.attempt(D.dbfpack, src, names)
    if fail:
        env.check(e is not None, 'a cut file is an error')
    else:
        env.check(e is None, 'no error')
        verify(env, r, t, [0, 1] if not names else [1])
    if how == 'file':
        all_closed(env, 1)
    else:
        env.check(not src.closed, "the caller's stream is open")


def dbf_at(env, n, names):
    D = env.load('channelpack.dbf')
    t = Dbf(env, FIELDS, [('full', 'text')] * 2)
    src = env.bytesio(env.concat(env.bytes('pre', n, b'\x03\x00\r Z'),
                                 t.data))
    src.read(n)
    pack = D.dbfpack(src, names)
    verify(env, pack, t, [0, 1] if not names else [1])


ARGS = ({}, {'sheet': 'none'}, {'sheet': 3}, {'header': 'A0'},
        {'startcell': 'B9', 'stopcell': 'A1'}, {'usecols': 'Q'},
        {'header': False})


def sheetargs(env, r, e, kw, first, rest):
    env.check((e is None) == (kw in ({}, {'header': False})), 'an error or '
              'none')
    if e is None:
        env.check_same(list(r(0)), rest if kw == {} else [first] + rest,
                       'the data')


def xlsx(env, how):
    env.watch()
    R = env.load('channelpack.readxl')
    a, b = env.str('a', 1, '0123456789'), env.str('b', 1, '0123456789')
    sh = L.sheet([L.row(str(i + 1), [L.cell('A%d' % (i + 1), None, v)])
                  for i, v in enumerate((a, b))])
    kw = {}
    more = {}
    parts = ('xl/workbook.xml', 'xl/_rels/workbook.xml.rels',
             'xl/worksheets/sheet1.xml', 'xl/styles.xml',
             'xl/sharedStrings.xml')
    if how == 'damaged':
        more[env.choice('part', parts)] = None
    elif how == 'cell':
        sh = L.sheet([L.row('1', [L.cell(env.str('ref', 2, '1A'), 's',
                                         env.str('x', 1, '0x'))])])
    elif how == 'args':
        kw = dict(env.choice('args', ARGS))
    p = L.book(env, [('S', sh)], sst=[], style=L.styles(xfs=['0']),
               more=more, without=env.choice('part', parts[:3])
               if how == 'missing' else None)
    r, e = env.attempt(R.sheetpack, p, **kw)
    if how == 'args':
        sheetargs(env, r, e, kw, env.tofloat(a), [env.tofloat(b)])
    elif how != 'cell':
        env.check(e is not None, 'an error is raised')
    all_closed(env, 1)


def xls(env, how, doc):
    env.watch()
    R = env.load('channelpack.readxl')
    kw = {}
    if doc:
        places, sat, dirs = ((0, 1), 2, (3,)) if doc == 1 else ((3, 1), 0,
                                                                 (2,))
        data, vals = c30.simple(env, 2, places, sat, dirs)
    else:
        data, vals = c30.workbook(env, 2, 64)
    if how == 'args':
        kw = dict(env.choice('args', ARGS))
    elif how == 'cut':
        cut = env.choice('cut', (0, 2, 8, 30, 60, 3, 5, 7) if not doc else
                         (0, 6, 8, 100, 511, 512, 600, 1024))
        data = data[:cut]
    else:
        # a record saying that the file is encrypted, or of another kind
        bad = env.bytes('bad', 2, [b'\x09\x2f\x85\x0a', b'\x00\x08'])
        data = env.concat(B.bof(5), bad, b'\0\0', data[20:])
    p = env.file('t.xls', data)
    r, e = env.attempt(R.sheetpack, p, **kw)
    if how == 'args':
        v = [env.tofloat(x[0] * 64) for x in vals]
        sheetargs(env, r, e, kw, v[0], v[1:])
    elif how == 'cut':
        env.check(e is not None, 'an error is raised')
    all_closed(env, 1)


def context(env, how, n, k):
    """The sniffing manager leaves the stream where it was."""
    env.watch()
    R = env.load('channelpack.readtext')
    s = env.str('s', n, 'ab\n')
    data = s.encode('ascii') if how == 'bytes' else s
    if how == 'file':
        src = env.file('d.txt', s)
    else:
        src = text_src(env, how, s)
        src.read(k)
    rest = (data if how == 'file' else data[k:])
    err = env.bool('err')

    def run():
        with R.contextopen(src) as c:
            env.check(c.bytehint == (how == 'bytes'), 'bytes or text')
            env.check_same(c.fo.read(), rest, 'nothing is consumed')
            if err:
                raise RuntimeError()
    r, e = env.attempt(run)
    env.check(isinstance(e, RuntimeError) == bool(err),
              'errors are not swallowed')
    if how == 'file':
        all_closed(env, 1)
    else:
        env.check(not src.closed, "the caller's stream is open")


def cases(tier):
    out = []
    hows = ('file', 'text', 'named', 'bytes')
    for reader in ('textpack', 'lazy_textpack'):
        for how in hows:
            for fail in ('', 'conv', 'blank'):
                out.append(dict(name='%s:%s:%s' % (reader, how, fail),
                                fn=textual,
                                params=dict(reader=reader, how=how,
                                            fail=fail)))
            if how == 'file':
                continue
            for n in range(5):
                for alpha in ('1;a\n ', '.\t,-'):
                    if n == 4 and alpha[0] == '.':
                        continue
                    out.append(dict(name='at:%s:%s:%d:%r' % (
                        reader, how, n, alpha), fn=positioned,
                        params=dict(reader=reader, how=how, n=n,
                                    alpha=alpha)))
    for how in ('text', 'bytes', 'named'):
        for n in (0, 1, 3):
            for alpha in ('a;\n ', '\n \t', '.,-'):
                out.append(dict(name='nothing:%s:%d:%r' % (how, n, alpha),
                                fn=nothing,
                                params=dict(how=how, n=n, alpha=alpha)))
    for names in (None, ['R'], ['R', 'NO']):
        for how in ('file', 'bytes'):
            for fail in (False, True):
                out.append(dict(name='dbf:%s:%s:%s' % (how, names, fail),
                                fn=dbf, params=dict(how=how, names=names,
                                                    fail=fail)))
        for n in range(5):
            out.append(dict(name='dbfat:%d:%s' % (n, names), fn=dbf_at,
                            params=dict(n=n, names=names)))
    for how in ('damaged', 'missing', 'cell', 'args'):
        out.append(dict(name='xlsx:' + how, fn=xlsx, params=dict(how=how)))
    for doc in (0, 1, 2):
        for how in ('args', 'cut', 'record')[:2 if doc else 3]:
            out.append(dict(name='xls:%s:%d' % (how, doc), fn=xls,
                            params=dict(how=how, doc=doc)))
    for how in ('file', 'text', 'bytes'):
        for n in range(4):
            for k in range(n + 1):
                if how == 'file' and k:
                    continue
                out.append(dict(name='context:%s:%d:%d' % (how, n, k),
                                fn=context, params=dict(how=how, n=n, k=k)))
    return out
