"""C30: the workbook stream of a compound document, wherever its parts are."""
import io
import itertools
import struct
from . import bifflib as B
from . import xllib as L

BOUNDS = ('workbooks of up to 4 sectors in a document of up to 7, every '
          'placing of sectors in the file; short workbooks of up to 4 short '
          'sectors in up to 6 places; allocation tables of 1 and 2 sectors '
          '(and 111, with an extension of the master table); '
          'directories of up to 6 entries in every shape of tree, streams of '
          'similar names, sizes about the least of standard streams; one cell '
          'value per sector symbolic; chains that loop or leave the file at '
          'every place')
OUTSIDE = ('sector sizes other than 512 and 128; documents of version 4; '
           'chains damaged so that another valid chain results')
ASSUMPTIONS = []

END, FREE, SATSID = -2, -1, -3


def i32(*v):
    return struct.pack('<%di' % len(v), *v)


def workbook(env, parts, size):
    """A stream with one cell in each of parts stretches of size bytes, and
    the values."""
    vals = [env.bytes('v%d' % i, 1, bytes(range(256))) for i in range(parts)]
    recs = []
    head = len(B.stream(env, [], [('S', 0, 0, [])]))
    at = head - 4
    for i, v in enumerate(vals):
        want = size * i + (0 if i else at)
        if i:
            # fill to the next stretch, the cell record crossing its start
            # now and then
            n = want - at - 4 - (7 if i % 2 else 0)
            if n >= 0:
                recs.append(B.rec(env, 0xfff1, b'\xee' * n))
                at += 4 + n
        recs.append(B.rec(env, 0x27e, B.u16(i), b'\0' * 4, b'\2', v,
                          b'\0\0'))
        at += 14
    return B.stream(env, [], [('S', 0, 0, recs)]), vals


def entry(name, kind, first, size, left=-1, right=-1, child=-1):
    b = (name + '\0').encode('utf-16-le')
    return b.ljust(64, b'\0') + struct.pack(
        '<HBBiii', len(b), kind, 1, left, right, child) + b'\0' * 36 + \
        i32(first, size, 0)


def header(sats, dirsid, minsize, ssat=END, nssat=0, msatx=END, nmsatx=0,
           ssz=9, sssz=6):
    m = list(sats[:109])
    return b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 16 + \
        struct.pack('<HH', 0x3e, 3) + b'\xfe\xff' + struct.pack(
            '<HH', ssz, sssz) + b'\0' * 10 + i32(
            len(sats), dirsid, 0, minsize, ssat, nssat, msatx, nmsatx) + \
        i32(*(m + [FREE] * (109 - len(m))))


def chunks(b, size):
    return [b[i:i + size] for i in range(0, len(b), size)]


def pad(env, b, size):
    return env.concat(b, b'\0' * (size - len(b))) if len(b) < size else b


def document(env, sectors, size=512):
    """The sectors of a dict after a header."""
    n = max(sectors) + 1
    return [pad(env, sectors.get(i, b'\xdd' * size), size) for i in range(n)]


def check(env, p, vals):
    X = env.load('channelpack.xlrd')
    ws = X.open_workbook(p, logfile=io.StringIO()).sheet_by_index(0)
    env.check(ws.nrows == len(vals) and ws.ncols == 1, 'the size')
    env.check_same([ws.cell_value(i, 0) for i in range(len(vals))],
                   [env.tofloat(v[0] * 64) for v in vals], 'the cells')


def simple(env, parts, places, sat, dirs, spare=0, name='Workbook',
           minsize=64, chain=None, kids=lambda size: None):
    """The file of a workbook in the sectors at places, the table at sat, the
    directory at dirs.  chain: replaced links."""
    st, vals = workbook(env, parts, 512)
    cs = chunks(st, 512)
    assert len(cs) == len(places), (len(cs), len(places))
    n = max(list(places) + [sat] + list(dirs)) + 1 + spare
    links = [FREE] * 128
    links[sat] = SATSID
    for ch in (places, dirs):
        for a, b in zip(ch, list(ch[1:]) + [END]):
            links[a] = b
    for k, v in (chain or {}).items():
        links[k] = v
    table = kids(len(st)) or [entry('Root Entry', 5, END, 0, child=1),
                     entry(name, 2, places[0], len(st))]
    while len(table) % 4:
        table.append(entry('', 0, 0, 0)[:64] + b'\0' * 64)
    d = chunks(b''.join(table), 512)
    sectors = {sat: i32(*links)}
    sectors.update(zip(dirs, d))
    sectors.update(zip(places, cs))
    sectors.setdefault(n - 1, b'')
    return env.concat(header([sat], dirs[0], minsize),
                      *document(env, sectors)), vals


def placed(env, parts, n, first):
    """Every placing of the workbook, table and directory in n sectors."""
    perms = [p for p in itertools.permutations(range(n), parts + 2)
             if p[0] == first]
    p = env.choice('places', perms)
    doc, vals = simple(env, parts, p[:parts], p[parts], [p[parts + 1]],
                       spare=env.choice('spare', (0, 1)))
    check(env, env.file('t.xls', doc), vals)


def short(env, parts, n):
    """The workbook in short sectors."""
    size = 64
    st, vals = workbook(env, parts, size)
    cs = chunks(st, size)
    perms = list(itertools.permutations(range(n), len(cs)))
    p = env.choice('places', perms)
    # the container of short sectors: in two sectors in either order
    order = env.choice('order', ((3, 4), (4, 3)))
    mini = [b'\xdd' * size] * 16
    for i, c in zip(p, cs):
        # low places in the second half of the container now and then
        mini[i + 5] = pad(env, c, size)
    links = [FREE] * 128
    for a, b in zip(p, p[1:]):
        links[a + 5] = b + 5
    links[p[-1] + 5] = END
    sat = [FREE] * 128
    sat[0] = SATSID
    sat[1] = END
    sat[2] = END
    sat[order[0]] = order[1]
    sat[order[1]] = END
    table = [entry('Root Entry', 5, order[0], 1024, child=1),
             entry('Workbook', 2, p[0] + 5, len(st))]
    table += [entry('', 0, 0, 0)] * 2
    body = env.concat(*mini)
    sectors = {0: i32(*sat), 1: b''.join(table), 2: i32(*links),
               order[0]: body[:512], order[1]: body[512:]}
    doc = env.concat(header([0], 1, 4096, 2, 1), *document(env, sectors))
    check(env, env.file('t.xls', doc), vals)


def trees(n):
    """Binary trees over n entries: (left, right) of each and the root."""
    def build(ids):
        if not ids:
            return [({}, -1)]
        out = []
        for i, r in enumerate(ids):
            for lt, lr in build(ids[:i]):
                for rt, rr in build(ids[i + 1:]):
                    t = dict(lt)
                    t.update(rt)
                    t[r] = (lr, rr)
                    out.append((t, r))
        return out
    return build(list(range(1, n + 1)))


NAMES = ('\x05SummaryInformation', '\x05DocumentSummaryInformation',
         'Ctls', '\x01CompObj', 'MsoDataStore', 'Revision Log')


def tree(env, n, book):
    """The workbook anywhere in the directory."""
    t, root = env.choice('tree', trees(n))
    k = env.choice('k', range(1, n + 1))
    name = env.choice('name', book)

    def kids(size):
        table = [entry('Root Entry', 5, END, 0, child=root)]
        # a storage has a child of its own
        for i in range(1, n + 1):
            lr = t[i]
            if i == k:
                table.append(entry(name, 2, 1, size, *lr))
            elif i % 3 == 2:
                table.append(entry(NAMES[i - 1], 1, 0, 0, lr[0], lr[1],
                                   n + 1))
            else:
                table.append(entry(NAMES[i - 1], 2, END, 0, *lr))
        return table + [entry('inner', 2, END, 0)]
    d = [2] if n < 3 else env.choice('dirs', ([2, 3], [3, 2]))
    doc, vals = simple(env, 1, [1], 0, d, kids=kids)
    check(env, env.file('t.xls', doc), vals)


DECOYS = ('Book', 'Workbook2', 'Workboo', 'Book1', 'book_', 'WorkbookX',
          '\x05Workbook')


def decoys(env, book):
    """Streams of similar names beside the workbook."""
    other = env.choice('other', DECOYS)
    env.assume(book != 'Book' or other != 'Book')
    left = env.choice('left', (False, True))
    first = env.choice('first', (False, True))

    def kids(size):
        a, b = (2, 1) if first else (1, 2)
        mine = entry(book, 2, 1, size, *((b, -1) if left else (-1, b)))
        # the other one is as good a stream, of other bytes
        decoy = entry(other, 2, 3, 512)
        return [entry('Root Entry', 5, END, 0, child=a)] + (
            [decoy, mine] if first else [mine, decoy])
    doc, vals = simple(env, 1, [1], 0, [2], kids=kids, spare=1,
                       chain={3: END})
    check(env, env.file('t.xls', doc), vals)


def boundary(env, parts, more):
    """Streams of just the size that makes the difference, by both ways to
    get a stream."""
    C = env.load('channelpack.xlrd.compdoc')
    st, vals = workbook(env, parts, 64)
    mini = len(st) + more
    if more <= 0:
        n = len(chunks(st, 512))
        body = {3 + i: c for i, c in enumerate(chunks(st, 512))}
        sat = [SATSID, END, END] + [4 + i for i in range(n - 1)] + [END]
        sat += [FREE] * (128 - len(sat))
        table = [entry('Root Entry', 5, END, 0, child=1),
                 entry('Workbook', 2, 3, len(st))]
        links = [FREE] * 128
    else:
        cs = chunks(st, 64)
        assert len(cs) <= 8
        body = {3: env.concat(*[pad(env, c, 64) for c in cs])}
        sat = [SATSID, END, END, END] + [FREE] * 124
        links = [i + 1 for i in range(len(cs) - 1)] + [END]
        links += [FREE] * (128 - len(links))
        table = [entry('Root Entry', 5, 3, 512, child=1),
                 entry('Workbook', 2, 0, len(st))]
    table += [entry('', 0, 0, 0)] * 2
    sectors = {0: i32(*sat), 1: b''.join(table), 2: i32(*links)}
    sectors.update(body)
    doc = env.concat(header([0], 1, mini, 2, 1), *document(env, sectors))
    check(env, env.file('t.xls', doc), vals)
    cd = C.CompDoc(doc, logfile=io.StringIO())
    env.check_same(cd.get_named_stream('Workbook'), st, 'the stream')
    cd = C.CompDoc(doc, logfile=io.StringIO())
    mem, base, size = cd.locate_named_stream('Workbook')
    env.check(size == len(st), 'the size of the stream')
    env.check_same(mem[base:base + size], st, 'the stream located')
    env.check(cd.get_named_stream('Book') is None, 'no such stream')


def twotables(env, parts):
    """Sectors beyond the first allocation table."""
    a = env.choice('a', (3, 126, 127, 128, 131))
    b = env.choice('b', (5, 125, 129, 133))
    env.assume(a != b)
    tables = env.choice('tables', ((0, 1), (1, 0), (0, 130)))
    st, vals = workbook(env, parts, 512)
    places = (a, b)
    links = [FREE] * 256
    links[tables[0]] = links[tables[1]] = SATSID
    links[2] = END
    links[a], links[b] = b, END
    cs = chunks(st, 512)
    table = [entry('Root Entry', 5, END, 0, child=1),
             entry('Workbook', 2, a, len(st))] + [entry('', 0, 0, 0)] * 2
    sectors = {tables[0]: i32(*links[:128]), tables[1]: i32(*links[128:]),
               2: b''.join(table)}
    sectors.update(zip(places, cs))
    sectors.setdefault(134, b'')
    doc = env.concat(header(tables, 2, 64), *document(env, sectors))
    check(env, env.file('t.xls', doc), vals)


def extended(env):
    """More allocation tables than the header has room for (sectors of 128
    bytes)."""
    n = 109 * 32 + 40
    a = env.choice('a', (200, 109 * 32 - 1, 109 * 32))
    b = env.choice('b', (109 * 32 + 20, 201, 109 * 32 + 33))
    st, vals = workbook(env, 2, 128)
    tables = list(range(111))
    links = [FREE] * (111 * 32)
    for t in tables:
        links[t] = SATSID
    links[111] = -4
    links[112], links[113] = 113, END
    cs = chunks(st, 128)
    assert len(cs) == 2
    links[a], links[b] = b, END
    d = entry('Root Entry', 5, END, 0, child=1) + entry('Workbook', 2, a,
                                                        len(st))
    sectors = {t: i32(*links[32 * t:32 * t + 32]) for t in tables}
    sectors[111] = i32(*(tables[109:] + [FREE] * 29 + [END]))
    sectors[112], sectors[113] = d[:128], d[128:]
    sectors[a], sectors[b] = cs
    sectors.setdefault(n - 1, b'')
    doc = env.concat(header(tables, 112, 64, msatx=111, nmsatx=1, ssz=7),
                     *document(env, sectors, 128))
    check(env, env.file('t.xls', doc), vals)


def broken(env, parts):
    """A link of the workbook's chain replaced: back to a sector of the
    chain, into another part, out of the file, or to nothing."""
    X = env.load('channelpack.xlrd')
    places = list(range(2, 2 + parts))
    k = env.choice('k', places)
    bad = env.choice('bad', (0, 1) + tuple(places) + (
        50, 127, 128, 200, FREE, SATSID))
    env.assume(bad > k + 1 or bad <= k)
    doc, vals = simple(env, parts, places, 0, [1], chain={k: bad})
    p = env.file('t.xls', doc)
    env.check(env.raises(Exception, lambda: X.open_workbook(
        p, logfile=io.StringIO())), 'refused')


def brokenshort(env, parts):
    """The same of short sectors."""
    X = env.load('channelpack.xlrd')
    st, vals = workbook(env, parts, 64)
    cs = chunks(st, 64)
    n = len(cs)
    k = env.choice('k', range(n))
    bad = env.choice('bad', tuple(range(n)) + (200, FREE, SATSID))
    env.assume(bad > k + 1 or bad <= k)
    links = [FREE] * 128
    for i in range(n):
        links[i] = i + 1 if i < n - 1 else END
    links[k] = bad
    sat = [SATSID, END, END, END] + [FREE] * 124
    table = [entry('Root Entry', 5, 3, 512, child=1),
             entry('Workbook', 2, 0, len(st))] + [entry('', 0, 0, 0)] * 2
    body = env.concat(*[pad(env, c, 64) for c in cs])
    sectors = {0: i32(*sat), 1: b''.join(table), 2: i32(*links), 3: body}
    doc = env.concat(header([0], 1, 4096, 2, 1), *document(env, sectors))
    p = env.file('t.xls', doc)
    env.check(env.raises(Exception, lambda: X.open_workbook(
        p, logfile=io.StringIO())), 'refused')


def cases(tier):
    q = tier == 'quick'
    out = []

    def case(name, fn, **p):
        out.append(dict(name='%s:%s' % (name, ':'.join(
            str(v) for v in p.values())), fn=fn, params=p))
    for n in range(1, 4):
        case('tree', tree, n=n, book=('Workbook', 'Book', 'WORKBOOK'))
    case('tree', tree, n=4, book=('Workbook',))
    for parts in (1, 2, 3):
        for first in range(parts + 3):
            case('placed', placed, parts=parts, n=parts + 3, first=first)
    case('twotables', twotables, parts=2)
    for name in ('Workbook', 'Book'):
        case('decoys', decoys, book=name)
    for parts in (1, 3):
        for more in (-1, 0, 1, 2):
            case('boundary', boundary, parts=parts, more=more)
    for parts in (2, 3, 4):
        case('broken', broken, parts=parts)
    case('short', short, parts=1, n=4)
    case('short', short, parts=3, n=4 if q else 6)
    for parts in (1, 3):
        case('brokenshort', brokenshort, parts=parts)
    if not q:
        case('tree', tree, n=5, book=('Workbook', 'Book'))
        for first in range(7):
            case('placed', placed, parts=4, n=7, first=first)
    case('extended', extended)
    return out
