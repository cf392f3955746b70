"""C20: dbf tables are read as stored."""
from harness.dbflib import Dbf

BOUNDS = ('0..3 records of 1..4 or 13 fields of types N (with and without '
          'decimals), F, D, L, C and an unknown type, field widths 1..10, '
          'all digits, letters, logical bytes, dates and deletion marks '
          'symbolic; blank and NUL padded fields; plus signs, exponents, '
          'more decimals than declared, trailing blanks; 129 and 255 '
          'fields; trailing bytes after the '
          'last record; bytes stream and file name')
OUTSIDE = 'wider fields, memo files, non-ASCII text'
ASSUMPTIONS = ['a well formed file: digits where the type asks for digits']


def get(env, how, data):
    return env.bytesio(data) if how == 'stream' else env.file('t.dbf', data)


def verify(env, pack, t, cols):
    if not t.rows:
        env.check(dict(pack.data) == {}, 'no records, no data')
        return
    env.check(sorted(pack.data) == sorted(cols), 'the column numbers')
    for c in cols:
        typ, deci = t.fields[c][1], t.fields[c][3]
        got, want = list(pack(c)), t.column(c)
        env.check(len(got) == len(want), 'every record not deleted, once')
        for g, w in zip(got, want):
            env.check_same(g, w, 'the value of a field')
        whole = not deci and not any(w != w for w in want
                                     if isinstance(w, float))
        kinds = {'N': 'i' if whole else 'f', 'F': 'f', 'D': 'O', 'L': 'U'}
        env.check(pack(c).dtype.kind in kinds.get(typ, 'U'),
                  'the type of a column')
    env.check(sorted(pack.names) == sorted(cols), 'a name for each column')
    for c in cols:
        env.check(pack.names[c] == t.fields[c][0], 'field names')


def table(env, fields, shapes, how='stream', deleted='sym', tail=b''):
    D = env.load('channelpack.dbf')
    t = Dbf(env, fields, shapes, deleted)
    src = get(env, how, env.concat(t.data, tail))
    pack = D.dbfpack(src)
    verify(env, pack, t, range(len(fields)))
    env.check(pack.fn == ('' if how == 'stream' else src), 'file name')


SHAPES = {'N': ('full', 'neg', 'blank', 'lead', 'nul', 'nulls'),
          'F': ('full', 'neg', 'blank', 'lead'),
          'D': ('date', 'late', 'leap', 'blank'), 'L': ('sym',), 'C': ('text',)}

KINDS = [('A', 'N', 3, 0), ('BB', 'N', 5, 2), ('VAL', 'F', 5, 1),
         ('DAY', 'D', 8, 0), ('YES', 'L', 1, 0), ('NAME', 'C', 3, 0),
         ('X_0', 'M', 2, 0), ('LONGNAME90', 'N', 1, 0),
         ('ELEVENCHARS', 'N', 10, 4)]


def cases(tier):
    out = []
    q = tier == 'quick'
    for f in KINDS:
        sh = SHAPES.get(f[1], ('text',))
        for s1 in sh:
            for s2 in sh:
                for how in ('stream', 'file'):
                    if how == 'file' and s1 != s2:
                        continue
                    out.append(dict(name='%s:%s:%s:%s' % (f[0], s1, s2, how),
                                    fn=table,
                                    params=dict(fields=[f],
                                                shapes=[(s1,), (s2,)],
                                                how=how)))
    for f in KINDS:
        for g in KINDS:
            if f == g:
                continue
            rows = [(SHAPES.get(f[1], ('text',))[0],
                     SHAPES.get(g[1], ('text',))[-1]),
                    (SHAPES.get(f[1], ('text',))[-1],
                     SHAPES.get(g[1], ('text',))[0])]
            out.append(dict(name='pair:%s:%s' % (f[0], g[0]), fn=table,
                            params=dict(fields=[f, g], shapes=rows)))
    four = [KINDS[0], KINDS[3], KINDS[4], KINDS[5]]
    row = ('full', 'date', 'sym', 'text')
    for n in range(0, 4 if q else 6):
        out.append(dict(name='four:%d' % n, fn=table,
                        params=dict(fields=four, shapes=[
                            ('full', 'date' if i == 0 else 'blank',
                             'sym', 'text') for i in range(n)])))
    for gone in ((), (0,), (1,), (2,), (0, 2), (0, 1, 2)):
        for tail in (b'', b'\x1a', b'\x1a  99zz'):
            out.append(dict(name='gone:%s:%r' % (gone, tail), fn=table,
                            params=dict(fields=[KINDS[0], KINDS[5]],
                                        shapes=[('full', 'text')] * 3,
                                        deleted=gone, tail=tail)))
    for size in range(1, 7):
        for deci in (0, 1, 2):
            for typ in 'NF':
                for s in ('full', 'neg') if size > 1 else ('full',):
                    out.append(dict(
                        name='size:%s:%d:%d:%s' % (typ, size, deci, s),
                        fn=table,
                        params=dict(fields=[('Q', typ, size, deci),
                                            ('R', 'C', 1, 0)],
                                    shapes=[(s, 'text')] * 2)))
    for typ in 'NFC':
        for size in (0, 127, 128, 200, 254, 255):
            for g in (('R', 'C', 1, 0), ('S', 'N', 2, 0)):
                sh = ('text' if typ == 'C' else 'full',
                      'text' if g[1] == 'C' else 'full')
                out.append(dict(name='wide:%s:%d:%s' % (typ, size, g[0]),
                                fn=table,
                                params=dict(fields=[('Q', typ, size, 0), g],
                                            shapes=[sh] * 2)))
    for size in (16, 17, 18):
        out.append(dict(name='big:%d' % size, fn=table,
                        params=dict(fields=[('Q', 'N', size, 0),
                                            ('R', 'C', 1, 0)],
                                    shapes=[('big', 'text')] * 2)))
    for typ, size, deci, shape in (
            ('N', 5, 2, 'more'), ('F', 5, 2, 'more'), ('N', 6, 3, 'more'),
            ('F', 5, 0, 'more'), ('F', 8, 2, 'exp'), ('N', 8, 2, 'exp'),
            ('F', 9, 0, 'exp'), ('N', 3, 0, 'plus'), ('F', 3, 1, 'plus'),
            ('N', 4, 0, 'trail'), ('N', 4, 1, 'trail'), ('F', 4, 1, 'trail'),
            ('N', 3, 2, 'dot0'), ('F', 3, 2, 'dot0')):
        for s2 in (shape, 'blank', 'full'):
            out.append(dict(name='shape:%s:%d:%d:%s:%s' % (
                typ, size, deci, shape, s2), fn=table,
                params=dict(fields=[('Q', typ, size, deci),
                                    ('R', 'C', 1, 0)],
                            shapes=[(shape, 'text'), (s2, 'text')])))
    many = [('F%d' % i, 'NC'[i % 2], 2, 0) for i in range(13)]
    out.append(dict(name='many', fn=table,
                    params=dict(fields=many, shapes=[
                        tuple(('full', 'text')[i % 2] for i in range(13))
                    ] * 2)))
    for n in (129, 255) if q else (129, 255, 256, 300):
        out.append(dict(name='fields:%d' % n, fn=table,
                        params=dict(fields=[('F%d' % i, 'NC'[i % 2], 1, 0)
                                            for i in range(n)],
                                    shapes=[tuple(('full', 'text')[i % 2]
                                                  for i in range(n))] * 2,
                                    deleted=(1,))))
    out.append(dict(name='names', fn=table,
                    params=dict(fields=[('ELEVENCHARS', 'N', 1, 0),
                                        ('A_', 'C', 1, 0), ('a', 'N', 1, 0),
                                        ('A', 'C', 0, 0)],
                                shapes=[('full', 'text', 'full', 'text')
                                        ] * 2)))
    out.append(dict(name='tall', fn=table,
                    params=dict(fields=[('Q', 'N', 1, 0)],
                                shapes=[('full',)] * (40 if q else 300),
                                deleted=(3, 17, 18, 39))))
    return out
