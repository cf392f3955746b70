"""Symbolic delimited text."""

DIG = '0123456789'

# shapes: 'd' a symbolic digit, anything else itself; 'P' the decimal sign
NUMS = ('d', 'dd', '-d', '+d', 'dPd', '-dPdd', 'Pd', 'dP', 'dEd', 'dPde-d')
WORDS = ('a', 'aa', 'a*', 'a_*', 'a*d')


def field(env, name, shape, dec='.', alpha='abxyz', wild='abz019-+#"\'%'):
    """Symbolic text of a shape."""
    parts = []
    for i, c in enumerate(shape):
        if c == 'd':
            parts.append(env.str('%s.%d' % (name, i), 1, DIG))
        elif c == 'a':
            parts.append(env.str('%s.%d' % (name, i), 1, alpha))
        elif c == '*':
            parts.append(env.str('%s.%d' % (name, i), 1, wild))
        elif c == 'e' or c == 'E':
            # the exponent is kept to one small digit by the shape
            parts.append(c)
        elif c == 'P':
            parts.append(dec)
        else:
            parts.append(c)
    return env.join('', parts)


def number(env, text, dec):
    """The value of numeric text."""
    return env.tofloat(text.replace(',', '.') if dec == ',' else text)


def is_num(shape):
    return 'a' not in shape and shape != ''


class Table(object):
    """rows x columns of shapes -> symbolic text and expected columns."""

    def __init__(self, env, rows, dec='.', tag='f', **kw):
        self.env, self.rows, self.dec = env, rows, dec
        self.text = [[field(env, '%s%d_%d' % (tag, r, c), s, dec, **kw)
                      for c, s in enumerate(row)]
                     for r, row in enumerate(rows)]
        self.ncols = len(rows[0])
        self.num = [is_num(s) for s in rows[0]]

    def column(self, c):
        out = []
        for r in range(len(self.rows)):
            t = self.text[r][c]
            if self.num[c]:
                out.append(float('nan') if len(t) == 0 else
                           number(self.env, t, self.dec))
            else:
                out.append(t)
        return out

    def lines(self, delim, seps=None):
        j = self.env.join
        return [j(delim, row) for row in self.text]


def body(env, lines, eol='\n', last=True):
    if not lines:
        return ''
    return env.join(eol, lines) + (eol if last else '')


def source(env, how, text, name='data.txt'):
    """(first argument for a reader, encode function for str arguments)."""
    if how == 'text':
        return env.textio(text), lambda s: s
    if how == 'bytes':
        return env.bytesio(text.encode('ascii')), lambda s: None \
            if s is None else s.encode('ascii')
    return env.file(name, text), lambda s: s


def expect_cols(env, pack, cols, what=''):
    env.check(sorted(pack.data) == sorted(cols), what + 'the column numbers')
    for k in cols:
        got = list(pack(k))
        env.check(len(got) == len(cols[k]), what + 'all rows, none twice')
        for g, w in zip(got, cols[k]):
            env.check_same(g, w, what + 'the value of a field')
