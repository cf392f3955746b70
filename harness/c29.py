"""C29: shared texts of an xls file however they are cut into records."""
import io
import itertools
import struct
from . import bifflib as B
from . import xllib as L

BOUNDS = ('up to 3 shared texts of up to 4 code units, each compressed or '
          'wide, with up to 2 formatting runs and up to 4 bytes of phonetic '
          'data, all bytes symbolic; the table cut into up to 4 records at '
          'every place the format allows, with the width of the characters '
          'chosen anew after each cut inside a text; texts of 300 to 5000 '
          'characters, 300 runs, 5000 bytes of phonetic data, 400 texts with 3 '
          'symbolic characters')
OUTSIDE = ('other long texts; cuts inside a header, a character or a run, '
           'which the format does not allow')
ASSUMPTIONS = []

ANY = bytes(range(256))
# high bytes, no surrogates
HIGH = bytes([0, 1, 4, 0x20, 0x30, 0x4e, 0xff])


def pieces(env, i, n, wide, runs, phon):
    """The text i as units that may not be cut: list of (kind, bytes)."""
    opt = 0
    head = []
    if runs:
        opt |= 8
        head.append(B.u16(runs))
    if phon:
        opt |= 4
        head.append(struct.pack('<i', phon))
    out = [('head', (B.u16(n), opt, head))]
    out += [('char', None)] * n
    for k in range(runs):
        out.append(('run', env.bytes('r%d%d' % (i, k), 4, ANY)))
    for k in range(phon):
        out.append(('phon', env.bytes('p%d%d' % (i, k), 1, ANY)))
    return out


def table(env, texts, cuts, wides):
    """(records' bodies, texts): texts is (n, runs, phon) each; cuts are
    indexes of units before which a new record begins; wides are the widths
    of each stretch of characters."""
    units = []
    for i, (n, runs, phon) in enumerate(texts):
        units += pieces(env, i, n, None, runs, phon)
    wides = list(wides)
    bodies, strings = [], []
    body = [struct.pack('<ii', len(texts), len(texts))]
    wide = None
    for u, (kind, b) in enumerate(units):
        cut = u in cuts
        if cut:
            bodies.append(env.concat(*body))
            body = []
        if kind == 'head':
            wide = wides.pop(0)
            strings.append('')
            body += [b[0], bytes([b[1] | wide])] + b[2]
        elif kind == 'char':
            if cut:
                wide = wides.pop(0)
                body.append(bytes([wide]))
            lo = env.bytes('l%d' % u, 1, ANY)
            body.append(lo)
            code = lo[0]
            if wide:
                hi = env.bytes('h%d' % u, 1, HIGH)
                body.append(hi)
                code = code + 256 * hi[0]
            strings[-1] = env.concat(strings[-1], env.chr(code))
        else:
            body.append(b)
    bodies.append(env.concat(*body) if len(body) > 1 else body[0])
    return bodies, strings


def cuttable(texts):
    """Places of cuts: indexes of units (not the first)."""
    n = sum(1 + a + b + c for a, b, c in texts)
    return list(range(1, n))


def stretches(texts, cuts):
    """How many stretches of characters there are."""
    kinds = []
    for n, runs, phon in texts:
        kinds += ['head'] + ['char'] * n + ['x'] * (runs + phon)
    return sum(1 for i, k in enumerate(kinds) if k == 'head' or
               (k == 'char' and i in cuts))


def read(env, bodies, n):
    X = env.load('channelpack.xlrd')
    globs = [B.rec(env, 0xfc, bodies[0])] + [B.rec(env, 0x3c, b)
                                             for b in bodies[1:]]
    recs = [B.rec(env, 0xfd, B.u16(i), b'\0' * 4, B.u16(i), b'\0\0')
            for i in range(n)]
    p = B.book(env, globs, recs)
    return X.open_workbook(p, logfile=io.StringIO()).sheet_by_index(0)


def cut(env, texts, ncuts):
    places = list(itertools.combinations(cuttable(texts), ncuts))
    cuts = env.choice('cuts', places) if len(places) > 1 else places[0]
    wides = [env.choice('w%d' % i, (0, 1))
             for i in range(stretches(texts, cuts))]
    bodies, strings = table(env, texts, cuts, wides)
    ws = read(env, bodies, len(texts))
    env.check(ws.nrows == len(texts), 'the number of texts')
    for i, s in enumerate(strings):
        env.check(ws.cell_type(i, 0) == L.TEXT, 'text %d is text' % i)
        env.check_same(ws.cell_value(i, 0), s, 'text %d' % i)


def longer(env, n, wides, extra, where):
    """Texts longer than the 255 of one byte, or many, cut in few places:
    the cut inside the text n is after `where` characters."""
    X = env.load('channelpack.xlrd')
    a, b, c = (env.bytes(k, 1, ANY) for k in 'abc')
    k = env.choice('cut', where)
    env.assume(0 < k < n)

    def enc(first, fill, last, m, wide):
        z = b'\0' if wide else b''
        return env.concat(first, z, (fill + z) * (m - 2), last, z) \
            if m > 1 else env.concat(first, z)
    opt = (8 if 'run' in extra else 0) | (4 if 'phon' in extra else 0)
    head = [B.u16(n), bytes([wides[0] | opt])]
    tail = []
    if opt & 8:
        head.append(B.u16(300))
        tail.append(b'\1\2\3\4' * 300)
    if opt & 4:
        m = 5000 if n == 600 else 500
        head.append(struct.pack('<i', m))
        tail.append(b'\7' * m)
    many = 200 if 'many' in extra else 1
    bodies = [[struct.pack('<ii', 2 * many, 2 * many)] + head +
              [enc(a, b'x', b, k, wides[0])],
              [bytes([wides[1]]), enc(b, b'y', a, n - k, wides[1])] + tail +
              [B.u16(1), b'\0', c]]
    for i in range(many - 1):
        bodies[1] += [B.u16(3), b'\0', b'%03d' % i, B.u16(1), b'\0', c]

    def text(first, fill, last, m):
        return env.concat(env.chr(first[0]), fill * (m - 2),
                          env.chr(last[0])) if m > 1 else env.chr(first[0])
    globs = [B.rec(env, 0xfc, *bodies[0]), B.rec(env, 0x3c, *bodies[1])]
    i = env.choice('i', (0, 1) if many == 1 else
                   (0, 1, 2, 3, 254, 255, 256, 257, 398, 399))
    p = B.book(env, globs, [B.rec(env, 0xfd, b'\0' * 6,
                                  struct.pack('<i', i))])
    ws = X.open_workbook(p, logfile=io.StringIO()).sheet_by_index(0)
    want = env.concat(text(a, 'x', b, k), text(b, 'y', a, n - k)) \
        if i == 0 else env.chr(c[0]) if i % 2 else '%03d' % (i // 2 - 1)
    env.check_same(ws.cell_value(0, 0), want, 'the text')


def astral(env, sst):
    """Two code units of one character, perhaps with a cut between them."""
    t = env.choice('t', ('\U0001d11e', 'a\U0001f600', '\U0001f600b',
                         '\U0001f600\U0001d11e'))
    b = t.encode('utf-16-le')
    n = len(b) // 2
    k = env.choice('k', range(1, 4))
    env.assume(k < n)
    after = env.bytes('after', 1, ANY)
    X = env.load('channelpack.xlrd')
    if sst:
        globs = [B.rec(env, 0xfc, struct.pack('<ii', 2, 2), B.u16(n), b'\1',
                       b[:2 * k]),
                 B.rec(env, 0x3c, b'\1', b[2 * k:], B.u16(1), b'\0', after)]
        recs = [B.rec(env, 0xfd, B.u16(i), b'\0' * 4, B.u16(i), b'\0\0')
                for i in range(2)]
    else:
        globs = []
        recs = [B.rec(env, 6, b'\0' * 12, b'\xff\xff', b'\0' * 8),
                B.rec(env, 0x207, B.u16(n), b'\1', b[:2 * k]),
                B.rec(env, 0x3c, b'\1', b[2 * k:]),
                B.rec(env, 0x204, B.u16(1), b'\0' * 4, B.u16(1), b'\0',
                      after)]
    ws = X.open_workbook(B.book(env, globs, recs),
                         logfile=io.StringIO()).sheet_by_index(0)
    env.check_same(ws.cell_value(0, 0), t, 'the text')
    env.check_same(ws.cell_value(1, 0), env.chr(after[0]), 'the next')


def cases(tier):
    q = tier == 'quick'
    out = []

    def case(texts, ncuts):
        out.append(dict(name='cut:%s:%d' % ('+'.join(
            '%d.%d.%d' % t for t in texts), ncuts), fn=cut,
            params=dict(texts=texts, ncuts=ncuts)))
    one = [(n, r, p) for n in (0, 1, 2, 3) for r in (0, 1, 2)
           for p in (0, 1, 3)]
    for t in one:
        for c in (0, 1, 2):
            if c < sum(t) + 1:
                case([t, (1, 0, 0)], c)
    for a, b in itertools.product([(0, 0, 0), (2, 0, 0), (1, 1, 0),
                                   (1, 0, 2)], repeat=2):
        for c in (1, 2) if q else (1, 2, 3):
            case([a, b, (1, 0, 0)], c)
    case([(3, 0, 0)], 2)
    case([(4, 0, 0)], 3)
    case([(1, 0, 4), (1, 0, 0)], 3)
    case([(2, 2, 3), (1, 0, 0)], 3)
    if not q:
        for t in one:
            if sum(t) >= 3:
                case([t, (1, 0, 0)], 3)
    for n, where in ((300, (1, 2, 255, 256, 299)), (600, (255, 300, 599)),
                     (5000, (4000,))):
        for wides in ((0, 0), (0, 1), (1, 0), (1, 1)):
            for extra in ((), ('run',), ('phon',), ('run', 'phon'),
                          ('many',)):
                out.append(dict(name='longer:%d:%s:%s' % (n, wides, extra),
                                fn=longer, params=dict(
                                    n=n, wides=wides, extra=extra,
                                    where=where)))
    for s in (True, False):
        out.append(dict(name='astral:%s' % s, fn=astral,
                        params=dict(sst=s)))
    return out
