"""C21: reading some fields of a dbf table is a projection of reading all."""
from itertools import combinations
from harness.dbflib import Dbf
from harness.c20 import KINDS, SHAPES, get, verify

BOUNDS = ('0..3 records x 2..5 fields of all types and widths, all content '
          'and deletion marks symbolic; every subset of the field names, in '
          'any of three orders, with unknown names and duplicates of field '
          'names mixed in; stream and file; 14 fields and 12 records; 130 fields')
OUTSIDE = 'wider tables; names given as one string'
ASSUMPTIONS = ['a well formed file']


def project(env, fields, shapes, pick, how, extra, order, deleted='sym'):
    D = env.load('channelpack.dbf')
    t = Dbf(env, fields, shapes, deleted)
    names = [fields[c][0] for c in pick]
    if order == 'rev':
        names = names[::-1]
    if extra:
        names = ['NOSUCH'] + names + names[:1]
    if order == 'tuple':
        names = tuple(names)
    elif order == 'set':
        names = set(names)
    full = D.dbfpack(get(env, how, t.data))
    pack = D.dbfpack(get(env, how, t.data), names)
    cols = [c for c in range(len(fields)) if fields[c][0] in set(names)]
    verify(env, pack, t, cols)
    for c in pack.data:
        env.check_same(list(pack(c)), list(full(c)), 'as when reading all')
        env.check(pack(c).dtype.kind == full(c).dtype.kind, 'same type')
    env.check(pack.fn == ('' if how == 'stream' else full.fn), 'file name')


def cases(tier):
    out = []
    tables = [
        [KINDS[0], KINDS[5]],
        [KINDS[5], KINDS[1], KINDS[4]],
        [KINDS[4], KINDS[0], KINDS[2], KINDS[5]],
        [('S', 'C', 1, 0), ('T', 'N', 2, 0), ('S', 'N', 1, 0)],
        [('AB', 'C', 2, 0), ('A', 'N', 2, 0), ('B', 'N', 1, 0)],
        [('A_', 'C', 1, 0), ('A', 'N', 1, 0), ('a', 'N', 1, 0)],
        [('ELEVENCHARS', 'N', 1, 0), ('ELEVENCHAR', 'C', 1, 0)],
        [('Q', 'N', 1, 0), ('R', 'C', 0, 0)],
    ]
    if tier == 'thorough':
        tables += [KINDS[:5], KINDS[4:9]]
    for ti, fields in enumerate(tables):
        for r in range(1, len(fields) + 1):
            for pick in combinations(range(len(fields)), r):
                for how in ('stream', 'file'):
                    for order in ('list', 'rev', 'tuple', 'set'):
                        if order != 'list' and (r == 1 or how == 'file'):
                            continue
                        for n in (2, 3) if order == 'list' else (2,):
                            rows = []
                            for i in range(n):
                                rows.append(tuple(
                                    SHAPES.get(f[1], ('text',))[
                                        i % len(SHAPES.get(f[1], ('text',)))]
                                    for f in fields))
                            out.append(dict(
                                name='t%d:%s:%s:%s:%d' % (ti, pick, how,
                                                          order, n),
                                fn=project,
                                params=dict(fields=fields, shapes=rows,
                                            pick=pick, how=how,
                                            extra=order == 'rev',
                                            order=order)))
    for f in KINDS[3:4]:
        for pick in ((0,), (1,), (0, 1)):
            out.append(dict(name='date:%s' % (pick,), fn=project,
                            params=dict(fields=[f, KINDS[0]],
                                        shapes=[('date', 'full'),
                                                ('blank', 'neg')],
                                        pick=pick, how='stream', extra=False,
                                        order='list')))
    for typ in 'NFC':
        for size in (0, 127, 128, 200, 255):
            flds = [('P', 'N', 1, 0), ('Q', typ, size, 0),
                    ('R', 'C', 1, 0)]
            sh = ('full', 'text' if typ == 'C' else 'full', 'text')
            for pick in ((0,), (1,), (2,), (0, 2), (1, 2)):
                out.append(dict(name='wide:%s:%d:%s' % (typ, size, pick),
                                fn=project,
                                params=dict(fields=flds, shapes=[sh] * 2,
                                            pick=pick, how='stream',
                                            extra=False, order='list')))
    for typ, size, deci, shape in (
            ('N', 5, 2, 'more'), ('F', 5, 2, 'more'), ('F', 8, 2, 'exp'),
            ('N', 8, 2, 'exp'), ('N', 3, 0, 'plus'), ('N', 4, 0, 'trail'),
            ('F', 4, 1, 'trail'), ('N', 3, 2, 'dot0')):
        for pick in ((0,), (1,), (0, 1)):
            out.append(dict(name='shape:%s:%d:%d:%s:%s' % (
                typ, size, deci, shape, pick), fn=project,
                params=dict(fields=[('Q', typ, size, deci),
                                    ('R', 'C', 1, 0)],
                            shapes=[(shape, 'text'), ('blank', 'text')],
                            pick=pick, how='stream', extra=False,
                            order='list')))
    flds = [('F%d' % i, 'NCNCNF'[i % 6], (3, 2, 4, 1, 2, 4)[i % 6],
             (0, 0, 1, 0, 0, 1)[i % 6]) for i in range(14)]
    sh = tuple('text' if f[1] == 'C' else 'full' for f in flds)
    for pick in ((1,), (10,), (1, 10), (13, 2), (9, 10, 11), (12, 3),
                 tuple(range(11))):
        for order in ('list', 'rev', 'set'):
            for rows in (1, 12) if len(pick) < 3 else (1,):
                out.append(dict(name='fields:%s:%s:%d' % (pick, order, rows),
                                fn=project,
                                params=dict(fields=flds, shapes=[sh] * rows,
                                            pick=pick, how='stream',
                                            extra=order == 'rev',
                                            order=order,
                                            deleted=(2, 10))))
    flds = [('F%d' % i, 'NC'[i % 2], 1, 0) for i in range(130)]
    sh = tuple(('full', 'text')[i % 2] for i in range(130))
    for pick in ((129,), (1, 128), (127, 0)):
        out.append(dict(name='fields:130:%s' % (pick,), fn=project,
                        params=dict(fields=flds, shapes=[sh] * 2, pick=pick,
                                    how='stream', extra=False, order='list',
                                    deleted=(1,))))
    out.append(dict(name='none', fn=project,
                    params=dict(fields=tables[1], shapes=[], pick=(0, 2),
                                how='stream', extra=False, order='list')))
    return out
