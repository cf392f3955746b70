"""C35: the defined names of an xls workbook stand for the cells and values
they were given, and no name keeps the workbook from being read."""
import io
import struct
from . import bifflib as B

BOUNDS = ('workbooks of Excel 5 and 97 with 3 sheets (one not a worksheet), '
          'up to 3 names, formulas of up to 3 operands: references to cells '
          'and areas, absolute or relative, numbers and texts of symbolic '
          'bytes, booleans, errors, missing arguments; every operator, IF, '
          'CHOOSE, functions of 0 to 3 arguments, other names')
OUTSIDE = ('names kept in macros; more than 10 names referring to each other '
           'in a row; the text given for a formula')
ASSUMPTIONS = ['texts compared have the same case']

UNK, BOOL, ERR, MSNG, NUM, STRG, REF, REL = (None, 3, 4, 5, 2, 1, -1, -2)
# by the documentation of Operand
KINDS = dict(oBOOL=3, oERR=4, oMSNG=5, oNUM=2, oREF=-1, oREL=-2, oSTRG=1,
             oUNK=0)

V8, V5 = 0x0600, 0x0500


def cells(n):
    """Four numbers of their own on each sheet."""
    return [struct.pack('<HHHHHd', 0x203, 14, r, c, 0, 100 * n + 10 * r + c)
            for r in (0, 1) for c in (0, 1)]


SHEETS = [('S', 0), ('M', 2), ('T', 0)]
SHX = {0: 0, 2: 1}          # where a sheet of the file is in the book


def name_rec(env, text, formula, version, flags=0, scope=0):
    raw = env.encode(text, 'latin-1')
    n = len(text)
    head = env.concat(B.u16(flags), b'\0', bytes([n]), B.u16(len(formula)))
    if version == V8:
        return B.rec(env, 0x18, head, B.u16(0), B.u16(scope), b'\0' * 4,
                     b'\0', raw, formula)
    return B.rec(env, 0x18, head, B.u16(scope), B.u16(scope), b'\0' * 4, raw,
                 formula)


def refs(env, version):
    """The records that make the sheets known to formulas: reference n is
    sheet n; 3 is from the first to the last, 4 a deleted sheet, 5 another
    workbook, 6 no sheet in particular."""
    if version == V8:
        ext = [(0, 0, 0), (0, 1, 1), (0, 2, 2), (0, 0, 2),
               (0, 0xffff, 0xffff), (1, 0, 0), (0, 0xfffe, 0xfffe)]
        return [B.rec(env, 0x1ae, B.u16(3), b'\1\4'),
                B.rec(env, 0x1ae, B.u16(1), B.u16(1), b'\0x', B.u16(1),
                      b'\0y'),
                B.rec(env, 0x17, B.u16(len(ext)),
                      b''.join(struct.pack('<HHH', *x) for x in ext))]
    return [B.rec(env, 0x17, bytes([len(s), 3]), s.encode())
            for s, kind in SHEETS]


def open_book(env, names, version):
    """names: records."""
    X = env.load('channelpack.xlrd')
    sheets = [(s, kind, 0, cells(i)) for i, (s, kind) in enumerate(SHEETS)]
    p = env.file('t.xls', B.stream(env, refs(env, version) + names, sheets,
                                   version))
    wb = X.open_workbook(p, logfile=io.StringIO())
    env.check(wb.sheet_names() == ['S', 'T'], 'the sheets')
    for i, n in ((0, 0), (1, 2)):
        ws = wb.sheet_by_index(i)
        for r in (0, 1):
            for c in (0, 1):
                env.check(ws.cell_value(r, c) == 100 * n + 10 * r + c,
                          'the cells')
    return wb


def addr(env, version, tag, rel=False, alpha=b'\0\1\2', like=None):
    """(bytes of the row field, of the column field, row, column, flags)."""
    b = env.bytes(tag, 2, [alpha, alpha])
    flags = env.choice(tag + 'rel', ((0, 0), (0, 1), (1, 0), (1, 1))
                       if like is None else (like, (1 - like[0], like[1]))) \
        if rel else (0, 0)
    rr, cr = flags
    row, col = b[0], b[1]
    hi = 0
    if rel:
        neg = env.choice(tag + 'neg', (False, True)) if like is None \
            else False
        if neg:                 # a row and column before
            if rr:
                row = b[0] - 256
                hi = 0xff if version == V8 else 0x3f
            if cr:
                env.assume(b[1] >= 200)
                col = b[1] - 256
            if not rr and not cr:
                return addr_bytes(env, version, b, 0, flags) + (
                    row, col, flags)
            if rr and version != V8:
                row = b[0] - 256
        if cr and not neg:
            env.assume(b[1] < 128)
    return addr_bytes(env, version, b, hi, flags) + (row, col, flags)


def addr_bytes(env, version, b, hi, flags):
    mark = flags[0] << 7 | flags[1] << 6
    if version == V8:
        return env.concat(b[0:1], bytes([hi])), env.concat(
            b[1:2], bytes([mark]))
    return env.concat(b[0:1], bytes([hi | mark])), b[1:2]


def sheet_token(sheet, version):
    """The sheet of a reference, before the address."""
    if version == V8:
        return struct.pack('<H', sheet)
    first, last, ext = {3: (0, 2, -1), 4: (-1, -1, -1),
                        5: (0, 0, 1)}.get(sheet, (sheet, sheet, -1))
    return struct.pack('<h8xhh', ext, first, last)


RANGE = {0: (0, 1), 1: (-3, -2), 2: (1, 2), 3: (0, 2), 4: (-2, -1),
         5: (-4, -3), 6: (-1, 0)}


def ref3d(env, version, tag, sheet, area, rel=False, cls=1, alpha=b'\0\1\2'):
    """(token, coordinates, flags of the relative ones)."""
    lo, hi = RANGE[sheet]
    r1, c1, row1, col1, f1 = addr(env, version, tag, rel, alpha)
    if not area:
        tok = env.concat(bytes([0x1a | cls << 5]),
                         sheet_token(sheet, version), r1, c1)
        return tok, (lo, hi, row1, row1 + 1, col1, col1 + 1), (
            0, 0, f1[0], f1[0], f1[1], f1[1])
    r2, c2, row2, col2, f2 = addr(env, version, tag + 'x', rel, alpha, f1)
    if f1 == f2 == (0, 0):
        env.assume((row1 <= row2) & (col1 <= col2))
    tok = env.concat(bytes([0x1b | cls << 5]), sheet_token(sheet, version),
                     r1, r2, c1, c2)
    return tok, (lo, hi, row1, row2 + 1, col1, col2 + 1), (
        0, 0, f1[0], f2[0], f1[1], f2[1])


def same(env, got, want, what):
    env.check(len(got) == len(want), what)
    for a, b in zip(got, want):
        env.check(a == b, what)


def reference(env, version, area, rel):
    """A name for a cell or an area."""
    sheet = env.choice('sheet', range(7) if version == V8 else range(6))
    if rel:
        sheet = 0 if sheet > 2 else sheet
    tok, coords, flags = ref3d(env, version, 'a', sheet, area, rel,
                               alpha=b'\0\1\2' if not rel else
                               b'\1\xc8' if area else b'\0\1\x7f\xc8')
    scope = env.choice('scope', (0, 1, 2, 3)) if not rel and not area else 0
    text = env.str('n', 2, 'aB') if not area and not rel else 'aB'
    wb = open_book(env, [name_rec(env, text, tok, version, scope=scope)],
                   version)
    env.check(len(wb.name_obj_list) == 1, 'one name')
    o = wb.name_obj_list[0]
    env.check_same(o.name, text, 'the name')
    want = {0: -1, 1: 0, 2: -2, 3: 1}[scope]
    env.check(o.scope == want, 'where it is known')
    env.check(wb.name_map[text.lower()] == [o], 'found by name')
    env.check(wb.name_and_scope_map[text.lower(), want] is o,
              'found by name and sheet')
    relative = any(flags)
    v = o.result.value
    env.check(o.result.kind == (REL if relative else REF) and len(v) == 1,
              'a reference')
    same(env, v[0].coords, coords, 'the cells')
    same(env, v[0].relflags, flags, 'what is relative')
    E = env.load('channelpack.xlrd').XLRDError
    lo, hi, r1, r2, c1, c2 = coords
    one = sheet in (0, 2) and not relative

    def attempt(f, *a):
        try:
            return f(*a)
        except E:
            return None
    if one:
        ws = wb.sheet_by_index(lo)
        if r2 == r1 + 1 and c2 == c1 + 1:
            if r1 < 2 and c1 < 2:
                env.check(o.cell().value == 100 * sheet + 10 * r1 + c1,
                          'the cell')
        else:
            env.check(attempt(o.cell) is None, 'no single cell')
        got = o.area2d(False)
        env.check(got[0] is ws, 'the sheet')
        same(env, got[1:], coords[2:], 'the area')
        got = o.area2d()
        env.check(got[0] is ws, 'the sheet')
        for (a, b), (c, d) in (((r1, r2), got[1:3]), ((c1, c2), got[3:])):
            for k in (0, 1, 2):
                env.check(((c <= k) & (k < d)) == ((a <= k) & (k < b) &
                                                   (k < 2)), 'clipped')
    elif not relative:
        env.check(attempt(o.cell) is None, 'no cell')
        env.check(attempt(o.area2d) is None, 'no area')


# operands: (token, kind, value); the value None if not to be known

def leaf(env, version, tag, kind, alpha=b'\0\2'):
    if kind == 'num':
        v = env.choice(tag, (0, 1, 2, 4))
        return struct.pack('<BH', 0x1e, v), NUM, v
    if kind == 'part':
        v = env.choice(tag, (0.5, 1.0, 1.5, 2.75, 3.5))
        return struct.pack('<Bd', 0x1f, v), NUM, v
    if kind == 'float':
        v = env.choice(tag, (0.5, -2.0))
        return struct.pack('<Bd', 0x1f, v), NUM, v
    if kind in ('str', 'text'):
        s = env.str(tag, 1, 'a2') if kind == 'str' else env.choice(
            tag, ('a', '2', ''))
        mid = b'\0' if version == V8 else b''
        return env.concat(b'\x17', bytes([len(s)]), mid, env.encode(s, 'latin-1')), STRG, s
    if kind == 'bool':
        v = env.choice(tag, (0, 1))
        return bytes([0x1d, v]), BOOL, v
    if kind == 'err':
        return b'\x1c\x07', ERR, 7
    if kind == 'miss':
        return b'\x16', MSNG, None
    if kind == 'ref':
        tok, coords, flags = ref3d(env, version, tag, 0, False, alpha=alpha)
        return tok, REF, [coords]
    if kind == 'area':
        tok, coords, flags = ref3d(env, version, tag, 2, True, alpha=alpha)
        return tok, REF, [coords]
    if kind == 'value':         # a reference used for its value
        tok, coords, flags = ref3d(env, version, tag, 0, False, cls=2, alpha=alpha)
        return tok, REF, None
    raise ValueError(kind)


def evaluate(env, version, formula, more=()):
    """The name's result; the names in more come first."""
    wb = open_book(env, list(more) + [name_rec(env, 'x', formula, version)],
                   version)
    return wb.name_map['x'][0].result


def expect(env, res, kind, value):
    """A result of this kind and value."""
    env.check(res is not None, 'a result')
    env.check(res.kind == kind, 'the kind')
    if value is None:
        env.check(res.value is None, 'not known')
    elif kind in (REF, REL):
        env.check(len(res.value) == len(value), 'how many references')
        for a, b in zip(res.value, value):
            same(env, a.coords, b, 'the cells')
    else:
        env.check_same(res.value, value, 'the value')


def none(env, res):
    """The evaluation had problems: no result, or none of a value."""
    env.check(res is None or res.value is None, 'no value')


ARITH = {3: lambda a, b: a + b, 4: lambda a, b: a - b, 5: lambda a, b: a * b,
         6: lambda a, b: a / b, 7: lambda a, b: a ** b}
CMP = {9: lambda a, b: a < b, 10: lambda a, b: a <= b,
       11: lambda a, b: a == b, 12: lambda a, b: a >= b,
       13: lambda a, b: a > b, 14: lambda a, b: a != b}


def binary(env, version, a, b):
    ta, ka, va = leaf(env, version, 'a', a)
    tb, kb, vb = leaf(env, version, 'b', b)
    op = env.choice('op', range(3, 15))
    paren = env.choice('paren', (b'', b'\x15')) if a == 'num' else b''
    res = evaluate(env, version, env.concat(ta, paren, tb, bytes([op])))
    plain = ka in (NUM, STRG) and kb in (NUM, STRG)
    if op in ARITH:
        if not plain:
            none(env, res)
            return
        x, y = [v if k == NUM else 2.0 if v == '2' else None
                for k, v in ((ka, va), (kb, vb))]
        if x is None or y is None:
            none(env, res)
            return
        x, y = float(x), float(y)
        if op == 6 and y == 0 or op == 7 and (x == 0 and y < 0):
            none(env, res)
            return
        if op == 7 and x < 0 and y == 0.5:
            return              # no real number
        expect(env, res, NUM, ARITH[op](x, y))
    elif op == 8:
        if not plain:
            none(env, res)
            return
        x, y = [v if k == STRG else '%g' % float(v)
                for k, v in ((ka, va), (kb, vb))]
        expect(env, res, STRG, env.concat(x, y))
    else:
        if not plain:
            none(env, res)
            return
        if ka == kb:
            t = CMP[op](va, vb)
        else:                   # texts are greater than numbers
            t = CMP[op](ka == STRG, kb == STRG)
        expect(env, res, BOOL, 1 if t else 0)


def unary(env, version, a):
    ta, ka, va = leaf(env, version, 'a', a)
    op = env.choice('op', (0x12, 0x13, 0x14))
    res = evaluate(env, version, env.concat(ta, bytes([op])))
    if ka == NUM:
        v = float(va)
        expect(env, res, NUM, v if op == 0x12 else -v if op == 0x13 else
               v / 100.0)
    elif va is None:
        none(env, res)


def combine(env, version, kinds, ops):
    """References put together by list, range and intersection."""
    ls = [leaf(env, version, 'abc'[i], k, b'\0\2' if len(kinds) > 2 else
               b'\0\1\2') for i, k in enumerate(kinds)]
    op = [env.choice('op%d' % i, ops) for i in range(len(ls) - 1)]
    right = len(ls) == 3 and env.bool('right')
    if right:                   # a op (b op c)
        formula = env.concat(*([x[0] for x in ls] + [bytes(op)]))
    else:
        formula = env.concat(ls[0][0], *[
            y for x, o in zip(ls[1:], op) for y in (x[0], bytes([o]))])
    res = evaluate(env, version, formula)

    def join(o, x, y):
        if ERR in (x[0], y[0]):
            return ERR, None
        if x[0] != REF or y[0] != REF:
            return None
        if x[1] is None or y[1] is None:
            return REF, None
        if o == 0x10:
            return REF, x[1] + y[1]
        if len(x[1]) > 1 or len(y[1]) > 1:
            return None
        f = (min, max) if o == 0x11 else (max, min)
        return REF, [tuple(f[i % 2](p, q) for i, (p, q) in
                           enumerate(zip(x[1][0], y[1][0])))]
    vals = [x[1:] for x in ls]
    if right:
        want = join(op[0], vals[1], vals[2])
        want = want and join(op[1], vals[0], want)
    else:
        want = join(op[0], vals[0], vals[1])
        for o, v in zip(op[1:], vals[2:]):
            want = want and join(o, want, v)
    if want is None:
        none(env, res)
    elif want[0] == ERR:
        env.check(res.kind == ERR, 'an error')
    else:
        expect(env, res, *want)


def funcvar(env, n, code, cls=1):
    return bytes([0x02 | cls << 5, n]) + struct.pack('<H', code)


def function(env, version, name, kinds):
    """IF and CHOOSE choose; nothing else is evaluated."""
    ls = [leaf(env, version, 'abc'[i], k) for i, k in enumerate(kinds)]
    n = len(ls)
    first = leaf(env, version, 't', env.choice('kind', ('num', 'bool'))
                 if name == 'if' else env.choice('kind', ('num', 'part')))
    code = {'if': 1, 'choose': 100}[name]
    zero = env.bool('zero') if n == 1 else False
    prompt = env.choice('prompt', (0, 0x80))    # ask for the arguments
    tail = funcvar(env, 0, 8)   # ROW()
    if zero:                    # one more argument, a function of none
        ls.append((tail, None, None))
        n += 1
    formula = env.concat(first[0], *([x[0] for x in ls] +
                                     [funcvar(env, n + 1 | prompt, code)]))
    res = evaluate(env, version, formula)
    t = int(first[2])
    if name == 'if':
        if t not in (0, 1):
            none(env, res)
            return
        if t == 0 and n == 1:
            expect(env, res, BOOL, 0)
            return
        got = ls[1 - t]
    else:
        if not 1 <= t <= n:
            none(env, res)
            return
        got = ls[t - 1]
    if got[1] == MSNG:
        expect(env, res, NUM, 0)
    elif got[1] is None:
        none(env, res)
    else:
        expect(env, res, got[1], got[2])


def zero_args(env, version, kinds):
    """A function without arguments leaves the other operands alone."""
    a = leaf(env, version, 'a', kinds[0])
    b = leaf(env, version, 'b', kinds[1])
    op = env.choice('op', (3, 9))
    order = env.choice('order', (0, 1))
    f = funcvar(env, 0, env.choice('fn', (8, 9)), 2)
    # a op b op ROW(), or a op (ROW() op b)
    toks = [a[0], b[0], bytes([op]), f, bytes([op])] if order == 0 else \
        [a[0], f, b[0], bytes([op]), bytes([op])]
    res = evaluate(env, version, env.concat(*toks))
    env.check(res is not None, 'a result')
    none(env, res)
    wb = open_book(env, [name_rec(env, 'x', env.concat(
        a[0], f, b'\x10', b[0], b'\x10'), version)], version)
    env.check(wb.name_map['x'][0].result is not None, 'a result')


def by_name(env, version, kind, order):
    """A name for another name, before or after it."""
    tok, k, v = leaf(env, version, 'a', kind)
    text = env.str('n', 1, 'yz')
    flags = env.choice('flags', (0, 1, 8))      # plain, hidden, macro
    target = name_rec(env, text, tok, version, flags=flags)
    size = 2 if version == V8 else 12
    cls = env.choice('cls', (1, 2))
    me = name_rec(env, 'x', env.concat(
        bytes([0x03 | cls << 5]), B.u16(2 if order else 1), b'\0' * size),
        version)
    far = name_rec(env, 'w', env.concat(
        bytes([0x03 | cls << 5]), B.u16(1 if order else 2), b'\0' * size),
        version)
    wb = open_book(env, [me, target, far] if order else [target, me, far],
                   version)
    env.check(wb.name_map[text][0].hidden == flags % 2, 'hidden')
    for n in 'xw':
        res = wb.name_map[n][0].result
        if flags & 8:
            none(env, res)
        elif k == ERR:
            env.check(res.kind == ERR, 'an error')
        else:
            expect(env, res, k, v)


ODD = {'self': b'\x43\1\0\0\0', 'circle': b'\x43\2\0\0\0',
       'extended': b'\x18\1\0\0\0\0', 'exp': b'\1\0\0\0\0',
       'tbl': b'\2\0\0\0\0', 'memarea': b'\x46\0\0\0\0\0\0',
       'lonely': b'\3', 'nothing': b'', 'isect': b'\x0f', 'range': b'\x11',
       'list': b'\x10', 'minus': b'\x13', 'sum': b'\x19\x10\0\0',
       'refn': b'\x4c\0\0\0\0', 'arean': b'\x4d' + b'\0' * 8,
       'nosuchname': b'\x43\x63\0\0\0', 'nosuchref': b'\x5a\x63\0\0\0\0\0',
       'nosucherr': b'\x1c\x63', 'textminus': b'\x17\1\0a\x13',
       'refs': b'\x3a\0\0\0\0\0\0' * 2 + b'\x10' + b'\x3a\0\0\0\0\0\0'
               b'\x11', 'nosuchfn': b'\x1e\1\0\x42\1\xfe\1',
       'few': b'\x1e\1\0\x42\3\1\0', 'many': b'\x1e\1\0' * 4 +
       b'\x42\4\1\0', 'two': b'\x1e\1\0' * 2, 'func': b'\x41\0\0',
       'unknown': b'\x1f' + b'\0' * 7 + b'\xf0\x7f\x1f' + b'\0' * 8 +
       b'\5', 'namex': b'\x59\0\0\1\0\0\0', 'namexout': b'\x59\5\0\2\0\0\0'}


def odd(env, version, names):
    """Formulas that cannot be evaluated: the cells are still read, and the
    other names."""
    n = env.choice('odd', names)
    tok, k, v = leaf(env, version, 'a', 'ref')
    me = name_rec(env, 'o', ODD[n], version)
    good = name_rec(env, 'x', tok, version)
    ref = name_rec(env, 'r', b'\x43\1\0' + b'\0' * (
        2 if version == V8 else 12), version)
    E = env.load('channelpack.xlrd').XLRDError
    first = env.bool('first') if n != 'circle' else True
    wb = open_book(env, [me, ref, good] if first else [me, good, ref],
                   version)
    expect(env, wb.name_map['x'][0].result, k, v)
    env.check(len(wb.name_obj_list) == 3, 'the names')
    for o in wb.name_map['o'] + wb.name_map['r']:
        for f in (o.cell, o.area2d):
            try:
                f()
                env.check(False, 'no cells')
            except E:
                pass


def same_name(env, version, n):
    """Names that differ by where they are known."""
    scopes = [env.choice('s%d' % i, (0, 1, 3)) for i in range(n)]
    env.assume(len(set(scopes)) == n)
    ls = [leaf(env, version, 'abc'[i], 'ref') for i in range(n)]
    texts = [env.str('n%d' % i, 1, 'aA') for i in range(n)]
    wb = open_book(env, [name_rec(env, t, x[0], version, scope=s) for
                         t, x, s in zip(texts, ls, scopes)], version)
    order = sorted(range(n), key=lambda i: scopes[i])
    env.check(wb.name_map['a'] == [wb.name_obj_list[i] for i in order],
              'by place')
    for i in range(n):
        want = {0: -1, 1: 0, 3: 1}[scopes[i]]
        expect(env, wb.name_and_scope_map['a', want].result, *ls[i][1:])


BUILTIN = {0: 'Consolidate_Area', 1: 'Auto_Open', 2: 'Auto_Close',
           3: 'Extract', 4: 'Database', 5: 'Criteria', 6: 'Print_Area',
           7: 'Print_Titles', 8: 'Recorder', 9: 'Data_Form',
           10: 'Auto_Activate', 11: 'Auto_Deactivate', 12: 'Sheet_Title',
           13: '_FilterDatabase'}


def builtin(env, version):
    tok, k, v = leaf(env, version, 'a', 'area')
    code = env.str('n', 1, [''.join(map(chr, range(14)))])
    wb = open_book(env, [name_rec(env, code, tok, version, flags=0x20,
                                  scope=1)], version)
    o = wb.name_obj_list[0]
    env.check(o.name == BUILTIN[int(env.ord(code))], 'the name')
    env.check(o.builtin == 1, 'built in')
    expect(env, o.result, k, v)


def cases(tier):
    out = []

    def add(name_, fn_, **params):
        out.append(dict(name=name_, fn=fn_, params=params))
    q = tier == 'quick'
    for v, vn in ((V8, '8'), (V5, '5')):
        for area in (False, True):
            for rel in (False, True):
                add('ref%s:%d:%d' % (vn, area, rel), reference, version=v,
                    area=area, rel=rel)
        kinds = ('num', 'float', 'text', 'bool', 'err', 'miss', 'value', 'ref')
        for a in kinds:
            add('unary%s:%s' % (vn, a), unary, version=v, a=a)
            for b in kinds:
                if q and v == V5 and not {a, b} <= {'num', 'text'}:
                    continue
                add('binary%s:%s:%s' % (vn, a, b), binary, version=v, a=a,
                    b=b)
        for ks in (('ref', 'ref'), ('ref', 'area'), ('area', 'area'),
                   ('err', 'ref'), ('area', 'err'), ('value', 'ref'),
                   ('ref', 'num')):
            add('join%s:%s:%s' % ((vn,) + ks), combine, version=v, kinds=ks,
                ops=(0xf, 0x10, 0x11))
        for ks in (('ref', 'ref', 'ref'), ('err', 'ref', 'ref')):
            add('join%s:%s:%s:%s' % ((vn,) + ks), combine, version=v,
                kinds=ks, ops=(0x10,) if q else (0xf, 0x10, 0x11))
        for fn in ('if', 'choose'):
            for ks in (('num',), ('ref',), ('str', 'num'), ('miss', 'area'),
                       ('ref', 'miss'), ('bool', 'err')):
                add('%s%s:%s' % (fn, vn, ':'.join(ks)), function, version=v,
                    name=fn, kinds=ks)
        for ks in (('num', 'num'), ('ref', 'num'), ('str', 'ref')):
            add('zero%s:%s:%s' % ((vn,) + ks), zero_args, version=v, kinds=ks)
        for k in ('num', 'str', 'ref', 'area', 'err', 'bool'):
            for order in (0, 1):
                add('name%s:%s:%d' % (vn, k, order), by_name, version=v,
                    kind=k, order=order)
        for n in (2, 3):
            add('scope%s:%d' % (vn, n), same_name, version=v, n=n)
        add('builtin%s' % vn, builtin, version=v)
    for n in sorted(ODD):
        add('odd:' + n, odd, version=V8, names=(n,))
    return out
