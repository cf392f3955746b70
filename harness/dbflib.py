"""Symbolic dbf files."""
import struct

DIG = '0123456789'
ASCII = ''.join(map(chr, range(1, 128)))


def header(numrec, fields):
    h = struct.pack('<BBBBLHH20x', 3, 95, 7, 26, numrec,
                    33 + 32 * len(fields), 1 + sum(f[2] for f in fields))
    for name, typ, size, deci in fields:
        h += struct.pack('<11sc4xBB14x', name.encode('ascii'),
                         typ.encode('ascii'), size, deci)
    return h + b'\r'


def value(env, name, typ, size, deci, shape):
    """(text of the field, expected value) for a shape of the field.

    Shapes: 'full' (all digits), 'neg', 'dec' (decimals), 'blank', 'lead'
    (leading blanks), 'nul' (leading NULs), 'text', 'pad', 'date', 'sym'."""
    dig = lambda i, alpha=DIG: env.str('%s.%d' % (name, i), 1, alpha)
    nan = float('nan')
    if typ in 'NF':
        if shape == 'blank':
            return ' ' * size, nan
        if shape == 'nulls':
            return '\0' * size, nan
        if size == 0:
            return '', nan
        if shape == 'big':              # more digits than a float holds
            num = env.join('', [dig(i) if i in (1, size - 1) else
                                '9071992547409931'[i % 16]
                                for i in range(size)])
            return num, int_of(env, num)
        if size > 12:                   # a wide field: few digits in it
            k = 3
            num = env.join('', [dig(i) for i in range(k)])
            v = int_of(env, num)
            return env.concat(' ' * (size - k), num), v * 1.0 \
                if (deci or typ == 'F') else v
        if shape in ('more', 'exp', 'plus', 'trail', 'dot0'):
            run = lambda a, b: [dig(i) for i in range(a, b)]
            if shape == 'more':
                num = run(0, 1) + ['.'] + run(2, size)
            elif shape == 'exp':
                num = ['-', dig(1), '.', dig(3), 'E+0',
                       env.choice(name + '.e', '015')]
            elif shape == 'plus':
                num = ['+'] + run(1, size)
            elif shape == 'trail':
                num = run(0, size - 2)
            else:
                num = ['.'] + run(1, size)
            num = env.join('', num)
            v = env.tofloat(num) if (deci or typ == 'F') else int_of(
                env, num[1:] if shape == 'plus' else num)
            return env.concat(num, ' ' * (size - len(num))), v
        k = max(1, size - 2) if shape in ('lead', 'nul') else size
        padc = '\0' if shape == 'nul' else ' '
        chars = []
        neg = shape == 'neg' and k > 1
        point = k - 1 - deci if deci and k - 1 - deci > (1 if neg else 0) \
            else None
        for i in range(k):
            if i == 0 and neg:
                chars.append('-')
            elif point is not None and i == point:
                chars.append('.')
            else:
                chars.append(dig(i))
        num = env.join('', chars)
        v = env.tofloat(num) if (deci or typ == 'F') else int_of(env, num)
        return env.concat(padc * (size - k), num), v
    if typ == 'D':
        if shape == 'blank':
            return ' ' * 8, None
        y = env.str(name + '.y', 4, ['12', DIG, DIG, DIG])
        m = env.str(name + '.m', 2, ['01', DIG])
        d = env.str(name + '.d', 2, ['0123', DIG])
        yi, mi, di = (int_of(env, x) for x in (y, m, d))
        if shape == 'late':             # the days at the end of a month
            m = env.choice(name + '.mm', ('01', '07', '08', '12'))
            mi = int(m)
            env.assume(env.land(di >= 29, di <= 31))
        elif shape == 'leap':
            y, m, d = env.choice(name + '.yy', ('1996', '2000', '2024')), \
                '02', '29'
            yi, mi, di = int(y), 2, 29
        else:
            env.assume(env.land(mi >= 1, mi <= 12, di >= 1, di <= 28))
        return env.join('', [y, m, d]), env.date(yi, mi, di)
    if typ == 'L':
        c = env.str(name, 1, 'YyTtNnFf? X0')
        if env.decide(env.lor(*[c == x for x in 'YyTt'])):
            return c, 'T'
        if env.decide(env.lor(*[c == x for x in 'NnFf'])):
            return c, 'F'
        return c, '?'
    # C and others: the text as it is
    if size > 12:
        s = env.concat(env.str(name + 'a', 2, ASCII), 'm' * (size - 4),
                       env.str(name + 'z', 2, ASCII))
        return s, s
    s = env.str(name, size, ASCII)
    return s, s


def int_of(env, s):
    v = 0
    neg = False
    for ch in s:
        if not env.sym:
            if ch == '-':
                neg = True
                continue
            v = v * 10 + int(ch)
            continue
        if isinstance(ch, str) and ch == '-':
            neg = True
            continue
        v = v * 10 + env.int_char(ch)
    return -v if neg else v


class Dbf(object):

    def __init__(self, env, fields, shapes, deleted='sym', tag='r'):
        """fields: (name, typ, size, deci); shapes: rows of shapes."""
        self.env, self.fields = env, fields
        n = len(shapes)
        parts = [header(n, fields)]
        self.rows, self.flags = [], []
        for r, row in enumerate(shapes):
            if deleted == 'sym':
                fl = env.str('%s%d.del' % (tag, r), 1, ' *')
                gone = not (fl == ' ')
            else:
                gone = r in deleted
                fl = '*' if gone else ' '
            vals = []
            txt = [fl]
            for c, (f, shape) in enumerate(zip(fields, row)):
                t, v = value(env, '%s%d_%d' % (tag, r, c), f[1], f[2], f[3],
                             shape)
                txt.append(t)
                vals.append(v)
            parts += [x.encode('ascii') for x in txt]
            self.flags.append(gone)
            if not gone:
                self.rows.append(vals)
        self.data = env.concat(*parts)

    def column(self, c):
        return [r[c] for r in self.rows]
