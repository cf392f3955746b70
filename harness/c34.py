"""C34: notes, links and merged ranges belong to the cells they are stored
for, and change no cell."""
import io
import struct
from . import bifflib as B
from . import xllib as L

BOUNDS = ('xls sheets with up to 2 notes (BIFF8: object, text in up to 3 '
          'pieces, narrow or wide, formatting runs, flags; BIFF5: text in '
          'up to 3 records), up to 2 links of each kind with any of '
          'description, frame, mark and tip, up to 2 merged or label ranges; '
          'xlsx sheets with up to 2 notes of up to 3 pieces and up to 2 '
          'merged ranges; rows and columns of few symbolic values, texts '
          'of up to 4 symbolic characters, some outside the first plane')
OUTSIDE = ('drawings and controls other than their length; links in xlsx '
           'files, which are not read')
ASSUMPTIONS = []

ALPHA = 'aZ ~\xe5'
WIDE = ('\u0416', '\U0001d11e', 'a\U0001f600')


def text(env, tag, n):
    """(text, its UTF-16) of n symbolic characters, or a fixed text with
    characters of two units."""
    if n < 0:
        s = WIDE[-n - 1]
        return s, s.encode('utf-16-le')
    s = env.str(tag, n, ALPHA)
    return s, env.encode(s, 'utf-16-le')


def where(env, tag):
    b = env.bytes(tag, 2, [b'\1\xc8', b'\0\x0b'])
    return env.concat(b[0:1], b'\0', b[1:2], b'\0'), b[0], b[1]


def xls(env, recs, version=0x0600, globs=(), **kw):
    """The sheet; a cell before and after the records."""
    X = env.load('channelpack.xlrd')
    first = B.rec(env, 0x203, b'\0' * 6, struct.pack('<d', 1.5))
    last = B.rec(env, 0x203, b'\1\0\1\0\0\0', struct.pack('<d', 2.5))
    p = B.book(env, list(globs), [first] + list(recs) + [last], version)
    ws = X.open_workbook(p, logfile=io.StringIO(), **kw).sheet_by_index(0)
    env.check(ws.cell_value(0, 0) == 1.5 and ws.cell_value(1, 1) == 2.5,
              'the cells')
    return ws


def lookup(env, m, r, c):
    """The entry of a map at a symbolic place."""
    got = [v for (a, b), v in m.items() if (a == r) & (b == c)]
    env.check(len(got) == 1, 'one entry for the cell')
    return got[0]


def obj(env, num):
    return B.rec(env, 0x5d, struct.pack('<HHHHH', 0x15, 18, 0x19, num,
                                        0x6011), b'\0' * 12,
                 struct.pack('<HH', 0xd, 22), b'\0' * 22, b'\0' * 4)


def txo(env, raw, cuts, wides, runs):
    """A text object: raw is UTF-16; cuts between units; pieces marked
    wide or narrow."""
    n = len(raw) // 2
    out = [B.rec(env, 0x1b6, b'\x12\2' + b'\0' * 8, B.u16(n),
                 B.u16(8 * len(runs)), b'\0' * 4)]
    at = [0] + list(cuts) + [n]
    for a, b, w in zip(at, at[1:], wides):
        part = raw[2 * a:2 * b]
        if w:
            out.append(B.rec(env, 0x3c, b'\1', part))
        else:
            low = [part[i:i + 1] for i in range(0, len(part), 2)]
            out.append(B.rec(env, 0x3c, b'\0', *low))
    if runs:
        out.append(B.rec(env, 0x3c, *[struct.pack('<HHi', a, f, 0)
                                      for a, f in runs]))
    return out


def notes(env, n, sizes, pieces):
    recs, last, want = [], [], []
    for i in range(n):
        s, raw = text(env, 's%d' % i, sizes[i])
        units = len(raw) // 2
        k = min(pieces, max(units, 1))
        cuts = env.choice('cuts%d' % i, combos(units, k - 1)) if i == 0 \
            else tuple(range(1, k))
        if sizes[i] < 0:
            wides = (1,) * k
        else:
            wides = env.choice('wides%d' % i, product(k)) if i == 0 \
                else (0,) * k
        runs = () if not units else ((0, 1 + i),) if n == 2 else env.choice(
            'runs%d' % i, ((), ((0, 1),), ((0, 1), (units, 2))))
        author, araw = text(env, 'a%d' % i, 1)
        flags = env.bytes('f%d' % i, 2, [b'\0\2\x80\x82', b'\0\1'])
        p, r, c = where(env, 'at%d' % i)
        num = i + 1
        recs += [obj(env, num)] + (txo(env, raw, cuts, wides, runs)
                                   if units else [txo(env, raw, (), (), ())[0]])
        last.append(B.rec(env, 0x1c, p, flags, B.u16(num), B.u16(1), b'\1',
                          araw, env.choice('pad%d' % i, (b'', b'\0'))
                          if n == 1 else b''))
        want.append((r, c, s, author, flags, [x for x in runs
                                              if x[0] != units]))
    if n == 2:
        a, b = want
        env.assume((a[0] != b[0]) | (a[1] != b[1]))
        if env.bool('swap'):
            last = last[::-1]
    ws = xls(env, recs + last)
    env.check(len(ws.cell_note_map) == n, 'the number of notes')
    for r, c, s, author, flags, runs in want:
        o = lookup(env, ws.cell_note_map, r, c)
        env.check_same(o.text, s, 'the text')
        env.check_same(o.author, author, 'the author')
        env.check((o.rowx == r) & (o.colx == c), 'the place')
        env.check(o.show == (flags[0] // 2) % 2, 'shown')
        env.check(o.row_hidden == flags[0] // 128, 'row hidden')
        env.check(o.col_hidden == flags[1], 'column hidden')
        env.check(o.rich_text_runlist == runs, 'the runs')


def combos(n, k):
    import itertools
    return list(itertools.combinations(range(1, n), k)) or [()]


def product(k):
    import itertools
    return list(itertools.product((0, 1), repeat=k))


def notes5(env, n, pieces, enc):
    """Notes before BIFF8."""
    s = env.str('s', n, 'aZ~' + {'latin-1': '\xe5', 'cp1251': '\u0416'}[enc])
    raw = env.encode(s, enc)
    cuts = env.choice('cuts', combos(n, pieces - 1))
    p, r, c = where(env, 'at')
    at = [0] + list(cuts) + [n]
    recs = []
    for i, (a, b) in enumerate(zip(at, at[1:])):
        if i == 0:
            recs.append(B.rec(env, 0x1c, p, B.u16(n), raw[a:b]))
        else:
            recs.append(B.rec(env, 0x1c, b'\xff\xff\0\0', B.u16(b - a),
                              raw[a:b]))
    globs = [B.rec(env, 0x42, B.u16(1251))] if enc == 'cp1251' else []
    ws = xls(env, recs, 0x0500, globs)
    env.check(len(ws.cell_note_map) == 1, 'the number of notes')
    o = lookup(env, ws.cell_note_map, r, c)
    env.check_same(o.text, s, 'the text')
    env.check((o.rowx == r) & (o.colx == c), 'the place')


GUID = b'\xD0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B'
URL = b'\xE0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B'
FILE = b'\x03\x03\0\0\0\0\0\0\xC0\0\0\0\0\0\0\x46'


def counted(env, raw):
    return env.concat(struct.pack('<I', len(raw) // 2 + 1), raw, b'\0\0')


def span(env, tag):
    """A range of cells: (8 bytes, first and last row, column)."""
    b = env.bytes(tag, 2, [b'\0\xc8', b'\x0b'])
    h, w = env.choice(tag + 'size', ((0, 0), (1, 0), (0, 1), (1, 1)))
    hi = env.bytes(tag + 'e', 2, bytes(range(252)))
    env.assume((hi[0] == b[0] + h) & (hi[1] == b[1] + w))
    return env.concat(b[0:1], b'\0', hi[0:1], b'\0', b[1:2], b'\0',
                      hi[1:2], b'\0'), b[0], b[1], h, w


def link(env, kind, size, tag=''):
    """(records, check)."""
    p, r, c, h, w = span(env, 'at' + tag)
    url, raw = text(env, 'u' + tag, size)
    opts, body = 0, []
    want = dict(desc=None, target=None, textmark=None, quicktip=None)

    def part(name, bit):
        if env.choice(name + tag, (False, True)):
            s, b = text(env, 't' + name + tag, 1)
            want[name] = s
            body.append(counted(env, b))
            return bit
        return 0
    opts |= part('desc', 0x14 if tag else env.choice('bits', (0x14, 0x10)))
    opts |= part('target', 0x80)
    if kind == 'url':
        opts |= 3
        extra = env.choice('extra' + tag, (0, 24))
        body += [URL, struct.pack('<I', len(raw) + 2 + extra), raw, b'\0\0',
                 b'\7' * extra]
        want.update(type='url', url_or_path=url)
    elif kind == 'short':
        opts |= 1
        ups = env.choice('ups' + tag, (0, 1, 2))
        b = env.encode(url, 'latin-1')
        body += [FILE, struct.pack('<Hi', ups, len(b) + 1), b, b'\0',
                 b'\xff\xff\xad\xde' + b'\0' * 20, struct.pack('<i', 0)]
        want.update(type='local file', url_or_path=env.concat(
            b'..\\' * ups, b))
    elif kind == 'long':
        opts |= 1
        body += [FILE, struct.pack('<Hi', 0, 3), b'xy\0',
                 b'\xff\xff\xad\xde' + b'\0' * 20,
                 struct.pack('<iiH', len(raw) + 6, len(raw), 3), raw]
        want.update(type='local file', url_or_path=url)
    elif kind == 'unc':
        opts |= 0x103
        body.append(counted(env, raw))
        want.update(type='unc', url_or_path=url)
    else:
        opts |= 8
        want.update(type='workbook', url_or_path=None)
    if kind == 'workbook':
        s, b = text(env, 'tm' + tag, 2)
        want['textmark'] = s
        body.append(counted(env, b))
    else:
        opts |= part('textmark', 8)
    recs = [B.rec(env, 0x1b8, p, GUID, b'\2\0\0\0', struct.pack('<i', opts),
                  *(body + [env.choice('over' + tag, (b'', b'\0\0'))
                            if not tag else b'']))]
    if env.choice('tip' + tag, (False, True)):
        s, b = text(env, 'q' + tag, 1)
        want['quicktip'] = s
        recs.append(B.rec(env, 0x800, b'\0\x08', p, b, b'\0\0'))

    def check(ws, i):
        o = ws.hyperlink_list[i]
        for k, v in want.items():
            if v is None:
                env.check(getattr(o, k) is None, k)
            else:
                env.check_same(getattr(o, k), v, k)
        env.check((o.frowx == r) & (o.lrowx == r + h) & (o.fcolx == c) &
                  (o.lcolx == c + w), 'the range')
    cells = [(r + i, c + j) for i in range(h + 1) for j in range(w + 1)]
    return recs, check, cells


def links(env, kinds, sizes):
    ls = [link(env, k, s, '' if i == 0 else str(i))
          for i, (k, s) in enumerate(zip(kinds, sizes))]
    if len(ls) == 2:
        # apart from each other
        env.assume(ls[0][2][-1][0] < ls[1][2][0][0])
    ws = xls(env, [r for x in ls for r in x[0]])
    env.check(len(ws.hyperlink_list) == len(ls), 'the number of links')
    total = 0
    for i, (recs, check, cells) in enumerate(ls):
        check(ws, i)
        for r, c in cells:
            env.check(lookup(env, ws.hyperlink_map, r, c) is
                      ws.hyperlink_list[i], 'the link of the cell')
        total += len(cells)
    env.check(len(ws.hyperlink_map) == total, 'no other cells')


def merged(env, n, what):
    """Merged ranges, or row and column labels."""
    parts, want = [], []
    for i in range(n):
        b = env.bytes('m%d' % i, 4, bytes(range(3)) if what == 'merged'
                      else bytes(range(200)))
        env.assume((b[0] <= b[1]) & (b[2] <= b[3]))
        parts.append(env.concat(b[0:1], b'\0', b[1:2], b'\0', b[2:3], b'\0',
                                b[3:4], b'\0'))
        want.append((b[0], b[1] + 1, b[2], b[3] + 1))
    if what == 'merged':
        rec = B.rec(env, 0xe5, B.u16(n), *parts)
        fmt = env.bool('formatting')
        globs = [B.rec(env, 0x31, struct.pack(
            '<HHHHHBBBB', 200, 0, 0x7fff, 400, 0, 0, 0, 0, 0), b'\1\0A'),
            B.xf(env, 0)]
        kw = {'ragged_rows': True} if env.bool('ragged') else {}
        ws = xls(env, [rec], globs=globs, formatting_info=True, **kw) \
            if fmt else xls(env, [rec], globs=globs, **kw)
        if not fmt:
            want = []
        env.check_same(list(ws.merged_cells), want, 'the ranges')
        nr = max([2] + [int(x[1]) for x in want])
        nc = max([2] + [int(x[3]) for x in want])
        env.check(ws.nrows == nr and ws.ncols == nc, 'the size')
        for r in range(nr):
            for c in range(ws.row_len(r)):
                if (r, c) not in ((0, 0), (1, 1)):
                    env.check(ws.cell_value(r, c) == '' and ws.cell_type(
                        r, c) == L.EMPTY, 'the rest is empty')
    else:
        k = env.choice('rows', range(n + 1))
        rec = B.rec(env, 0x15f, *([B.u16(k)] + parts[:k] + [B.u16(n - k)] +
                                  parts[k:]))
        ws = xls(env, [rec])
        env.check_same(list(ws.row_label_ranges), want[:k], 'row labels')
        env.check_same(list(ws.col_label_ranges), want[k:], 'column labels')


def ref(env, tag):
    """A cell reference and its place."""
    a = env.str('l' + tag, 1, 'ACF')
    d = env.str('d' + tag, 1, '14')
    return env.concat(a, d), env.ord(d) - 49, env.ord(a) - 65


def comment(t, kids, author):
    return L.node('comment', {'ref': t, 'authorId': author}, None,
                  [L.node('text', {}, None, kids)])


TARGETS = (('../comments1.xml', 'xl/comments1.xml'),
           ('/xl/comments1.xml', 'xl/comments1.xml'),
           ('/xl/comments/comment1.xml', 'xl/comments/comment1.xml'),
           ('../comments/Comment1.xml', 'xl/comments/Comment1.xml'))


def xlsx_notes(env, n, size):
    X = env.load('channelpack.xlrd')
    cs, want = [], []
    for i in range(n):
        t, r, c = ref(env, str(i))
        s = env.str('s%d' % i, size, 'aZ~\xe5')
        k = env.choice('cut%d' % i, range(-1, size + 1)) if i == 0 else -1
        # the text itself, or in two runs
        kids = [L.node('t', {}, s)] if k < 0 else [
            L.node('r', {}, None, [L.node('t', {}, x)]) if len(x) else
            L.node('r', {}, None, [L.node('t', {}, None)])
            for x in (s[:k], s[k:])]
        a = env.choice('a%d' % i, '01')
        cs.append(comment(t, kids, a))
        want.append((r, c, s, ('me', 'you')[int(a)]))
    if n == 2:
        a, b = want
        env.assume((a[0] != b[0]) | (a[1] != b[1]))
    target, path = env.choice('target', TARGETS)
    tree = L.node('comments', {}, None, [
        L.node('authors', {}, None, [L.node('author', {}, 'me'),
                                     L.node('author', {}, 'you')]),
        L.node('commentList', {}, None, cs)])
    rels = (L.PR + 'Relationships', {}, None, [
        (L.PR + 'Relationship', {'Id': 'rId1', 'Type': L.TYPE + 'drawing',
                                 'Target': '../drawings/d.xml'}, None, []),
        (L.PR + 'Relationship', {'Id': 'rId2', 'Type': L.TYPE + 'comments',
                                 'Target': target}, None, [])])
    p = L.book(env, [('S', L.sheet([L.row('1', [L.cell('A1', None, '1')])]))],
               more={path: tree, 'xl/worksheets/_rels/sheet1.xml.rels': rels})
    ws = X.open_workbook(p, logfile=io.StringIO()).sheet_by_index(0)
    env.check(ws.cell_value(0, 0) == 1 and ws.nrows == ws.ncols == 1,
              'the cell')
    env.check(len(ws.cell_note_map) == n, 'the number of notes')
    for r, c, s, a in want:
        o = lookup(env, ws.cell_note_map, r, c)
        env.check_same(o.text, s, 'the text')
        env.check(o.author == a, 'the author')
        env.check((o.rowx == r) & (o.colx == c), 'the place')


def xlsx_merged(env, n):
    X = env.load('channelpack.xlrd')
    ms, want = [], []
    for i in range(n):
        t, r, c = ref(env, str(i))
        if env.choice('one%d' % i, (False, True)):
            a, b = r, c
        else:
            u, a, b = ref(env, 'x%d' % i)
            env.assume((r <= a) & (c <= b))
            t = env.concat(t, ':', u)
        ms.append(L.node('mergeCell', {'ref': t}))
        want.append((r, a + 1, c, b + 1))
    ragged = {'ragged_rows': True} if env.bool('ragged') else {}
    p = L.book(env, [('S', L.sheet([L.row('1', [L.cell('B1', None, '7')])],
                                   [L.node('mergeCells', {}, None, ms)]))])
    ws = X.open_workbook(p, logfile=io.StringIO(), **ragged).sheet_by_index(0)
    env.check_same(list(ws.merged_cells), want, 'the ranges')
    nr = max([1] + [int(x[1]) for x in want])
    nc = max([2] + [int(x[3]) for x in want])
    env.check(ws.nrows == nr and ws.ncols == nc, 'the size')
    env.check(ws.cell_value(0, 1) == 7, 'the cell')
    for r in range(nr):
        if not ragged:
            env.check(ws.row_len(r) == nc, 'full rows')
        for c in range(ws.row_len(r)):
            if (r, c) != (0, 1):
                env.check(ws.cell_value(r, c) == '' and ws.cell_type(
                    r, c) == L.EMPTY, 'the rest is empty')


def cases(tier):
    out = []

    def add(name, fn, **params):
        out.append(dict(name=name, fn=fn, params=params))
    q = tier == 'quick'
    for size in (0, 1, 2, 3, 4, -1, -2, -3):
        for pieces in (1, 2, 3):
            if size == 4 and pieces < 3 and q:
                continue
            if pieces == 1 or abs(size) + (size < 0) >= pieces or \
                    size < -1 and pieces == 2:
                add('note:%d:%d' % (size, pieces), notes, n=1,
                    sizes=(size,), pieces=pieces)
    for sizes in ((2, 1), (1, -2)) if q else ((2, 1), (1, -2), (2, 2)):
        add('notes:%s' % (sizes,), notes, n=2, sizes=sizes, pieces=2)
    for n in range(1, 5 if q else 6):
        for pieces in range(1, min(n, 3) + 1):
            if n == 4 and pieces < 3 and q:
                continue
            for enc in ('latin-1', 'cp1251'):
                add('note5:%d:%d:%s' % (n, pieces, enc), notes5, n=n,
                    pieces=pieces, enc=enc)
    for kind in ('url', 'short', 'long', 'unc', 'workbook'):
        for size in (1, 3) if kind == 'short' else (3, -1, -2, -3) \
                if kind == 'url' or not q else (2, -3):
            add('link:%s:%d' % (kind, size), links, kinds=(kind,),
                sizes=(size,))
    if not q:
        for ks in (('url', 'workbook'), ('long', 'unc')):
            add('links:%s:%s' % ks, links, kinds=ks, sizes=(1, 1))
    for n in (0, 1, 2):
        add('merged:%d' % n, merged, n=n, what='merged')
        add('labels:%d' % n, merged, n=n, what='labels')
        if n:
            add('xlsxmerged:%d' % n, xlsx_merged, n=n)
            for size in (1, 2) if q else (1, 2, 3):
                add('xlsxnote:%d:%d' % (n, size), xlsx_notes, n=n, size=size)
    return out
