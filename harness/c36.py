"""C36: fonts, formats, rows and columns of an xls file are as stored."""
import io
import struct
from . import bifflib as B
from . import c32

BOUNDS = ('BIFF 8, 5, 4, 3 and 2; XF records with every bit of the fields '
          'symbolic (one colour at a time, over all its values), FONT '
          'records with all numbers symbolic and names of up to 3 symbolic '
          'characters, up to 7 of them; PALETTE records of 56 or 16 colours '
          'with 2 symbolic; STYLE records built in and named; ROW records '
          'with 1..2 rows and one field at a time over a set of values, '
          'COLINFO records with ranges in columns 0..4 and 255, all bits '
          'symbolic; widths by COLINFO, STANDARDWIDTH, GCW and DEFCOLWIDTH '
          'in all combinations; default row heights; texts with up to 2 runs '
          'of fonts, 3 texts; cells of 2 rows and 2 '
          'columns with or without format of their own')
OUTSIDE = ('conditional formats; xlsx, whose formats are not kept; the '
           'flags that tell which groups a format overrides; more records')
ASSUMPTIONS = []

ANY = bytes(range(256))


def opened(env, data):
    X = env.load('channelpack.xlrd')
    return X.open_workbook(env.file('t.xls', data), formatting_info=True,
                           logfile=io.StringIO())


def workbook(env, v, globs, recs=()):
    """A workbook of BIFF v with the records; before BIFF 5 all are in the
    one sheet."""
    if v in (8, 5):
        ver = 0x0600 if v == 8 else 0x0500
        return opened(env, B.stream(env, globs, [('S', 0, 0, list(recs))],
                                    ver))
    return opened(env, env.concat(c32.bof(v), *(list(globs) + list(recs) +
                                                [B.EOF])))


def word(env, b):
    """The little endian number of the bytes."""
    n = 0
    for i in range(len(b)):
        n = n + (b[i] << (8 * i))
    return n


def bits(env, b, lo, n):
    """n bits of the little endian bytes from bit lo."""
    at, end = lo // 8, (lo + n + 7) // 8
    w = word(env, b[at:end])
    return (w >> (lo - 8 * at)) & ((1 << n) - 1)


# record layouts: attribute -> (first bit of the record, number of bits)
XF8 = {
    'font_index': (0, 16), 'protection.cell_locked': (32, 1),
    'protection.formula_hidden': (33, 1), 'is_style': (34, 1),
    'alignment.hor_align': (48, 3), 'alignment.text_wrapped': (51, 1),
    'alignment.vert_align': (52, 3), 'alignment.rotation': (56, 8),
    'alignment.indent_level': (64, 4), 'alignment.shrink_to_fit': (68, 1),
    'alignment.text_direction': (70, 2),
    'border.left_line_style': (80, 4), 'border.right_line_style': (84, 4),
    'border.top_line_style': (88, 4), 'border.bottom_line_style': (92, 4),
    'border.left_colour_index': (96, 7),
    'border.right_colour_index': (103, 7), 'border.diag_down': (110, 1),
    'border.diag_up': (111, 1), 'border.top_colour_index': (112, 7),
    'border.bottom_colour_index': (119, 7),
    'border.diag_colour_index': (126, 7),
    'border.diag_line_style': (133, 4), 'background.fill_pattern': (138, 6),
    'background.pattern_colour_index': (144, 7),
    'background.background_colour_index': (151, 7)}
XF5 = {
    'font_index': (0, 16), 'protection.cell_locked': (32, 1),
    'protection.formula_hidden': (33, 1), 'is_style': (34, 1),
    'alignment.hor_align': (48, 3), 'alignment.text_wrapped': (51, 1),
    'alignment.vert_align': (52, 3),
    'background.pattern_colour_index': (64, 7),
    'background.background_colour_index': (71, 7),
    'background.fill_pattern': (80, 6), 'border.bottom_line_style': (86, 3),
    'border.bottom_colour_index': (89, 7), 'border.top_line_style': (96, 3),
    'border.left_line_style': (99, 3), 'border.right_line_style': (102, 3),
    'border.top_colour_index': (105, 7),
    'border.left_colour_index': (112, 7),
    'border.right_colour_index': (119, 7)}
TAIL34 = {
    'background.fill_pattern': (48, 6),
    'background.pattern_colour_index': (54, 5),
    'background.background_colour_index': (59, 5),
    'border.top_line_style': (64, 3), 'border.top_colour_index': (67, 5),
    'border.left_line_style': (72, 3), 'border.left_colour_index': (75, 5),
    'border.bottom_line_style': (80, 3),
    'border.bottom_colour_index': (83, 5),
    'border.right_line_style': (88, 3),
    'border.right_colour_index': (91, 5)}
XF4 = dict(TAIL34, **{
    'font_index': (0, 8), 'protection.cell_locked': (16, 1),
    'protection.formula_hidden': (17, 1), 'is_style': (18, 1),
    'alignment.hor_align': (32, 3), 'alignment.text_wrapped': (35, 1),
    'alignment.vert_align': (36, 2)})
XF3 = dict(TAIL34, **{
    'font_index': (0, 8), 'protection.cell_locked': (16, 1),
    'protection.formula_hidden': (17, 1), 'is_style': (18, 1),
    'alignment.hor_align': (32, 3), 'alignment.text_wrapped': (35, 1)})
# the layout, the record, its length, the parent bits, the format bits
LAYOUT = {8: (XF8, 0xe0, 20, (36, 12), (16, 16)),
          5: (XF5, 0xe0, 16, (36, 12), (16, 16)),
          4: (XF4, 0x443, 12, (20, 12), (8, 8)),
          3: (XF3, 0x243, 12, (36, 12), (8, 8))}
# the rotation of BIFF 5 and 4, given by two bits
TURN = {5: 56, 4: 38}


def get(obj, path):
    for p in path.split('.'):
        obj = getattr(obj, p)
    return obj


def build(env, v, sym, fill):
    """The bytes of an XF record: symbolic in the bits of sym (attributes),
    or else the bits of the number fill."""
    fields, code, n, par, fmt = LAYOUT[v]
    free = set()
    for s in sym:
        lo, k = (TURN[v], 2) if s == 'turn' else fields[s]
        free.update(range(lo, lo + k))
    parts = []
    for i in range(n):
        m = sum(1 << j for j in range(8) if 8 * i + j in free)
        base = (fill >> (8 * i)) & 0xff & ~m
        if m:
            al = bytes(sorted(set(base | (x & m) for x in range(256))))
            parts.append(env.bytes('b%d' % i, 1, al))
        else:
            parts.append(bytes([base]))
    return env.concat(*parts)


def put(fill, lo, n, value):
    m = ((1 << n) - 1) << lo
    return (fill & ~m) | (value << lo)


def xfs(env, v, sym, ones, parent=0, fkey=0):
    """One style format and one with the symbolic fields."""
    fields, code, n, par, fmt = LAYOUT[v]
    fill = (1 << (8 * n)) - 1 if ones else 0
    for k, (lo, w) in fields.items():
        if k.endswith('colour_index'):
            fill = put(fill, lo, w, 9 if ones else 0)
    fill = put(fill, 34 if v > 4 else 18, 1, 0)
    fill = put(fill, par[0], par[1], parent)
    fill = put(fill, fmt[0], fmt[1], fkey)
    b = build(env, v, [s for s in sym], fill)
    style = put(put(0, par[0], par[1], 0xfff), 34 if v > 4 else 18, 1, 1)
    globs = []
    if v < 5:
        globs = [c32.fmt(env, v, 'General'), c32.fmt(env, v, '0.00')]
    globs.append(B.rec(env, code, style.to_bytes(n, 'little')))
    globs.append(B.rec(env, code, b))
    wb = workbook(env, v, globs, [
        B.rec(env, 0x203, b'\0' * 4, B.u16(1), struct.pack('<d', 2.5))])
    env.check(len(wb.xf_list) == 2, 'each format once')
    x = wb.xf_list[1]
    env.check(x.xf_index == 1, 'the number of the format')
    for k, (lo, w) in fields.items():
        env.check_same(get(x, k), bits(env, b, lo, w), k)
    if v in TURN:
        t = int(bits(env, b, TURN[v], 2)) if 'turn' in sym else (
            3 if ones else 0)
        env.check_same(x.alignment.rotation, (0, 255, 90, 180)[t],
                       'rotation')
    if v == 3:
        env.check(x.alignment.vert_align == 2 and x.alignment.rotation == 0,
                  'at the bottom, not turned')
    env.check_same(x.parent_style_index, parent, 'the parent style')
    env.check_same(x.format_key, fkey, 'the number format')
    s = wb.xf_list[0]
    env.check(s.is_style == 1 and s.parent_style_index == 0xfff, 'the style')
    ws = wb.sheet_by_index(0)
    env.check(ws.cell_xf_index(0, 0) == 1, 'the format of the cell')
    env.check_same(ws.cell_value(0, 0), 2.5, 'the cell')


def xf2(env):
    b = env.bytes('b', 3, ANY)
    data = [c32.fmt(env, 2, 'General'),
            B.rec(env, 0x43, b[0:1], b'\0', b'\0', b[1:2])]
    wb = workbook(env, 2, data)
    x = wb.xf_list[0]
    h = b[1]
    env.check_same(x.font_index, b[0], 'the font')
    env.check_same(x.alignment.hor_align, h & 7, 'hor_align')
    for m, side in ((8, 'left'), (16, 'right'), (32, 'top'),
                    (64, 'bottom')):
        on = env.decide((h & m) != 0)
        env.check(getattr(x.border, side + '_line_style') == int(on) and
                  getattr(x.border, side + '_colour_index') ==
                  (8 if on else 0), 'border ' + side)
    env.check(x.background.fill_pattern == (17 if env.decide(
        (h & 128) != 0) else 0), 'fill_pattern')
    env.check(x.background.background_colour_index == 9 and
              x.background.pattern_colour_index == 8, 'colours')
    env.check(x.alignment.vert_align == 2 and x.alignment.rotation == 0,
              'at the bottom, not turned')


def xf2_format(env):
    """The number format and the protection of BIFF 2."""
    k = env.choice('k', (0, 1, 2))
    p = env.choice('p', (0, 1, 2, 3))
    data = [c32.fmt(env, 2, c) for c in ('General', '0.00', '0')]
    data.append(B.rec(env, 0x43, b'\0\0', bytes([k | (p << 6)]), b'\0'))
    x = workbook(env, 2, data).xf_list[0]
    env.check(x.format_key == k, 'the number format')
    env.check(x.protection.cell_locked == p & 1 and
              x.protection.formula_hidden == p >> 1, 'the protection')


FLAGS = ('bold', 'italic', 'underlined', 'struck_out', 'outline', 'shadow')


def fonts(env, v, n, nlen, wide=False):
    recs, want = [], []
    for i in range(n):
        sym = i == n - 1
        name = env.str('n', nlen, 'aZ \xe9' if v in (8, 5) else 'aZ ') \
            if sym else 'F%d' % i
        nb = env.encode(name, 'latin-1')
        if sym:
            flags = env.bytes('o', 1, bytes(range(64) if v in (8, 5, 4, 3)
                                            else range(16)))
            h = env.bytes('h', 2, ANY)
            col = env.choice('col', (0, 8, 63, 0x7fff))
        else:
            flags, h, col = bytes([i]), bytes([i + 1, 1]), 8
        if v in (8, 5):
            r = env.bytes('r', 7, ANY) if sym else bytes(range(i, i + 7))
            if wide:
                s = env.concat(bytes([len(name)]), b'\1',
                               env.encode(name, 'utf-16-le'))
            elif v == 8:
                s = env.concat(bytes([len(name)]), b'\0', nb)
            else:
                s = env.concat(bytes([len(name)]), nb)
            recs.append(B.rec(env, 0x31, h, flags, b'\0', B.u16(col), r,
                              b'\0', s))
        elif v in (4, 3):
            recs.append(B.rec(env, 0x231, h, flags, b'\0', B.u16(col),
                              bytes([len(name)]), nb))
        else:
            recs.append(B.rec(env, 0x31, h, flags, b'\0',
                              bytes([len(name)]), nb))
        if len(want) == 4:
            want.append(None)           # there is no font 4
        want.append((name, h, flags, col, r if v in (8, 5) else None))
    if v == 2:
        efont = env.bytes('e', 2, ANY)
        recs.append(B.rec(env, 0x45, efont))
    wb = workbook(env, v, recs)
    env.check(len(wb.font_list) == len(want), 'each font once')
    for i, w in enumerate(want):
        f = wb.font_list[i]
        env.check(f.font_index == i, 'the number of the font')
        if w is None:
            continue
        name, h, flags, col, r = w
        env.check_same(f.name, name, 'name')
        env.check_same(f.height, word(env, h), 'height')
        for j, a in enumerate(FLAGS[:4] if v == 2 else FLAGS):
            env.check_same(getattr(f, a), (flags[0] >> j) & 1, a)
        if v == 2:
            env.check_same(f.colour_index, word(env, efont) if
                           i == len(want) - 1 else 0x7fff, 'colour')
        else:
            env.check_same(f.colour_index, col, 'colour')
        if r is not None:
            env.check_same(f.weight, word(env, r[0:2]), 'weight')
            env.check_same(f.escapement, word(env, r[2:4]), 'escapement')
            env.check_same(f.underline_type, r[4], 'underline_type')
            env.check_same(f.family, r[5], 'family')
            env.check_same(f.character_set, r[6], 'character_set')
        else:
            env.check_same(f.weight, 700 if env.decide(
                (flags[0] & 1) != 0) else 400, 'weight')
            env.check_same(f.underline_type, (flags[0] >> 2) & 1,
                           'underline_type')


def palette(env, v, n, where):
    """The colours of the palette stand in for the standard ones."""
    cols, parts = [], []
    for i in range(n):
        if i in where:
            c = env.bytes('c%d' % i, 4, ANY)
        else:
            c = bytes([i, 2 * i, 3 * i, 0])
        parts.append(c)
        cols.append(c)
    code = 0x92
    wb = workbook(env, v, [B.rec(env, code, B.u16(n), *parts)])
    env.check(len(wb.palette_record) == n, 'each colour once')
    for i, c in enumerate(cols):
        for got in (wb.palette_record[i], wb.colour_map[8 + i]):
            env.check(len(got) == 3, 'red, green and blue')
            for j in range(3):
                env.check_same(got[j], c[j], 'a colour of the palette')
    for i in range(8):
        env.check(wb.colour_map[i] == ((255 * (i in (1, 2, 5, 6))),
                                       (255 * (i in (1, 3, 5, 7))),
                                       (255 * (i in (1, 4, 6, 7)))),
                  'a fixed colour')


BUILTIN = ('Normal', 'RowLevel_', 'ColLevel_', 'Comma', 'Currency',
           'Percent', 'Comma [0]', 'Currency [0]')


def styles(env, v):
    """Built in and named styles with their formats."""
    code = 0x293
    # no format is looked up, so that its number may be any
    xfx = env.choice('x', (0, 1, 0x7ff, 0x800, 0xffe))
    xfx2 = env.choice('y', (0, 1, 0x80, 0xa01))
    k = env.choice('k', range(len(BUILTIN)))
    lev = env.choice('lev', (0, 2, 6)) if k in (1, 2) else 255
    n = env.choice('n', (1, 2, 40) if xfx == 1 and xfx2 == 1 else (1,))
    name = env.str('s', n, 'ab ') if n < 3 else env.concat(
        env.str('s', 2, 'ab '), 'x' * (n - 2))
    nm = env.encode(name, 'latin-1')
    u = env.concat(B.u16(n), b'\0', nm) if v == 8 else env.concat(
        bytes([n]), nm)
    if v == 8:
        recs = [B.xf(env, 0), B.xf(env, 0)]
    elif v == 5:
        recs = [B.xf(env, 0, 0x0500)] * 2
    else:
        recs = [c32.xf(env, v, b'\0')] * 2
    recs += [B.rec(env, code, B.u16(0x8000 | xfx), bytes([k, lev])),
             B.rec(env, code, B.u16(xfx2), u)]
    if env.choice('swap', (False, True)):
        recs[-2:] = recs[-2:][::-1]
    wb = workbook(env, v, recs)
    want = BUILTIN[k] + (str(lev + 1) if k in (1, 2) else '')
    env.check(len(wb.style_name_map) == 2, 'each style once')
    env.check(wb.style_name_map.get(want) == (1, xfx), 'the built in style')
    for s, val in wb.style_name_map.items():
        if s == want:
            continue
        env.check_same(s, name, 'the name of a style')
        env.check(val == (0, xfx2), 'the format of a style')


ROW = {'outline_level': (0, 3), 'outline_group_starts_ends': (4, 1),
       'hidden': (5, 1), 'height_mismatch': (6, 1),
       'has_default_xf_index': (7, 1), 'additional_space_above': (28, 1),
       'additional_space_below': (29, 1)}


def rowinfo(env, v, ones, field):
    """ROW records; one field of the second takes all its values."""
    b1, b2 = (0x1234, 0x30020000 | 0xf7) if ones else (0x00ff, 0)
    n1, n2 = 0x8123, 0x000100c1
    if field == 'height':
        h = env.choice('h', (0, 1, 0xff, 0x100, 0x7fff, 0x3c3c))
        b1 = (b1 & 0x8000) | h
    elif field == 'default':
        b1 = (b1 & 0x7fff) | env.choice('d', (0, 0x8000))
    elif field == 'xf':
        b2 = put(b2, 7, 1, env.choice('f', (0, 1)))
        b2 = put(b2, 16, 12, env.choice('x', (0, 1, 0xff, 0x100, 0xfff)))
    else:
        lo, n = ROW[field]
        b2 = put(b2, lo, n, env.choice('v', range(1 << n)))
    same = env.choice('same', (False, True))
    if same:
        n1, n2 = b1, b2
    rows = env.choice('rows', ((0, 1), (3, 0), (300, 2)))
    recs = [B.rec(env, 0x208, struct.pack('<HHHHHHI', r, 0, 1, x, 0, 0, y))
            for r, x, y in zip(rows, (n1, b1), (n2, b2))]
    ws = workbook(env, v, [], recs).sheet_by_index(0)
    env.check(sorted(ws.rowinfo_map) == sorted(rows), 'the rows described')
    for r, x, y in zip(rows, (n1, b1), (n2, b2)):
        i = ws.rowinfo_map[r]
        env.check(i.height == x & 0x7fff, 'height')
        env.check(i.has_default_height == x >> 15, 'has_default_height')
        for k, (lo, n) in ROW.items():
            env.check(getattr(i, k) == (y >> lo) & ((1 << n) - 1), k)
        env.check(i.xf_index == ((y >> 16) & 0xfff if y & 0x80 else -1),
                  'xf_index')


def colinfo(env, v, n):
    """COLINFO records: a later one stands in for an earlier."""
    recs, want = [], {}
    for j in range(n):
        a = env.choice('a%d' % j, (0, 1, 3, 255) if n == 1 else (0, 1, 2))
        b = env.choice('b%d' % j, (a, a + 1, a + 2) if a < 255 else
                       (255, 256))
        w = env.bytes('w%d' % j, 6, ANY)
        recs.append(B.rec(env, 0x7d, B.u16(a), B.u16(b), w, b'\0\0'))
        for c in range(a, min(b, 255) + 1):
            want[c] = w
    ws = workbook(env, v, [], recs).sheet_by_index(0)
    env.check(sorted(ws.colinfo_map) == sorted(want),
              'the columns described')
    for c, w in want.items():
        i = ws.colinfo_map[c]
        env.check_same(i.width, word(env, w[0:2]), 'width')
        env.check_same(i.xf_index, word(env, w[2:4]), 'xf_index')
        env.check_same(i.hidden, w[4] & 1, 'hidden')
        env.check_same(i.outline_level, w[5] & 7, 'outline_level')
        env.check_same(i.collapsed, (w[5] >> 4) & 1, 'collapsed')


def width(env, v):
    """The width of a column by the records that tell it."""
    ci = env.choice('colinfo', (False, True))
    sw = env.choice('standard', (False, True)) if v != 3 else False
    dw = env.choice('default', (False, True))
    col = env.choice('col', (0, 7, 8, 31, 32, 255))
    gcw = env.choice('gcw', (None, 0, 1)) if v in (4, 5) else None
    recs = []
    w = env.bytes('w', 2, ANY)
    s = env.bytes('s', 2, ANY)
    d = env.bytes('d', 1, ANY)
    if dw:
        recs.append(B.rec(env, 0x55, d, b'\0'))
    if gcw is not None:
        n = (1 << col) if gcw else ((1 << 256) - 1) ^ (1 << col)
        recs.append(B.rec(env, 0xab, b'\x20\0', n.to_bytes(32, 'little')))
    if ci:
        recs.append(B.rec(env, 0x7d, B.u16(col), B.u16(col), w, b'\0' * 6))
    if sw:
        recs.append(B.rec(env, 0x99, s))
    ws = workbook(env, v, [], recs).sheet_by_index(0)
    default = 256 * d[0] if dw else 8 * 256
    if v in (4, 5) and gcw:
        want = word(env, s) if sw else default
    elif ci:
        want = word(env, w)
    elif v == 8 and sw:
        want = word(env, s)
    else:
        want = default
    env.check_same(ws.computed_column_width(col), want, 'the width')


def default_row(env, v):
    b = env.bytes('b', 4, ANY)
    ws = workbook(env, v, [], [B.rec(env, 0x225, b)]).sheet_by_index(0)
    env.check_same(ws.default_row_height, word(env, b[2:4]), 'height')
    for i, k in enumerate(('default_row_height_mismatch',
                           'default_row_hidden',
                           'default_additional_space_above',
                           'default_additional_space_below')):
        env.check_same(getattr(ws, k), (b[0] >> i) & 1, k)


def cells(env, v):
    """The format of a cell: its own, or of its row, or of its column, or
    number 15."""
    recs = []
    own = {}
    for r in range(2):
        for c in range(2):
            if (r, c) == (1, 1) or env.choice('own%d%d' % (r, c),
                                              (False, True)):
                x = 20 + 2 * r + c
                own[r, c] = x
                recs.append(B.rec(env, 0x203, B.u16(r), B.u16(c), B.u16(x),
                                  struct.pack('<d', 1.0)))
    row, colx = {}, {}
    for r in range(2):
        x = env.choice('row%d' % r, (None, -1, 0, 30 + r))
        if x is not None:
            row[r] = x
            recs.append(B.rec(env, 0x208, struct.pack(
                '<HHHHHHI', r, 0, 2, 0xff, 0, 0,
                ((x << 16) | 0x80) if x >= 0 else 40 << 16)))
    c = env.choice('col', (None, 0, 1))
    if c is not None:
        colx[c] = 50
        recs.append(B.rec(env, 0x7d, struct.pack('<HHHHHH', c, c, 9, 50, 0,
                                                 0)))
    xfr = [B.xf(env, 0, 0x0600 if v == 8 else 0x0500)] * 60
    ws = workbook(env, v, xfr, recs).sheet_by_index(0)
    for r in range(2):
        for c in range(2):
            if (r, c) in own:
                want = own[r, c]
            elif row.get(r, -1) >= 0:
                want = row[r]
            else:
                want = colx.get(c, 15)
            env.check(ws.cell_xf_index(r, c) == want,
                      'the format of a cell')


def runs(env, v, shared):
    """The fonts of parts of texts."""
    globs, recs, want, texts = [], [], {}, {}
    lists = []
    for i in range(3):
        n = env.choice('n%d' % i, (0, 1, 2))
        bs = [env.bytes('r%d_%d' % (i, j), 2 if v == 5 else 4, ANY)
              for j in range(n)]
        lists.append((bs, [(b[0], b[1]) if v == 5 else
                           (word(env, b[0:2]), word(env, b[2:4]))
                           for b in bs]))
    order = env.choice('order', ((0, 1, 2), (2, 0, 1), (1, 1, 0)))
    cut = shared and env.choice('cut', (False, True))
    if shared:
        body = [[struct.pack('<ii', 3, 3)]]
        for i, (bs, w) in enumerate(lists):
            body[-1] += [B.u16(2), b'\x08' + B.u16(len(bs)) if bs else b'\0',
                         b'%dt' % i]
            if cut and i == 1:
                body.append([])
            body[-1] += bs
        globs = [B.rec(env, 0xfc if j == 0 else 0x3c, *b)
                 for j, b in enumerate(body)]
    for r, i in enumerate(order):
        bs, w = lists[i]
        at = struct.pack('<HHH', r, 1, 0)
        texts[r] = '%dt' % i
        if shared:
            recs.append(B.rec(env, 0xfd, at, struct.pack('<i', i)))
            if w:
                want[r, 1] = w
        else:
            n = [bytes([len(bs)])] if v == 5 else [B.u16(len(bs))]
            recs.append(B.rec(env, 0xd6, at, B.u16(2),
                              b'' if v == 5 else b'\0', b'%dt' % i,
                              *(n + bs)))
            want[r, 1] = w
    ws = workbook(env, v, globs, recs).sheet_by_index(0)
    env.check(sorted(ws.rich_text_runlist_map) == sorted(want),
              'the cells with runs')
    for k in want:
        got = ws.rich_text_runlist_map[k]
        env.check_same([tuple(x) for x in got], want[k], 'the runs')
    for r in texts:
        env.check_same(ws.cell_value(r, 1), texts[r], 'the text')


def widths2(env):
    """Column widths of BIFF 2."""
    a = env.choice('a', (0, 1))
    b = env.choice('b', (a, a + 1))
    w = env.bytes('w', 2, ANY)
    w2 = env.bytes('x', 2, ANY)
    ws = workbook(env, 2, [], [
        B.rec(env, 0x24, bytes([0, 1]), w),
        B.rec(env, 0x24, bytes([a, b]), w2)]).sheet_by_index(0)
    for c in range(max(b, 1) + 1):
        env.check_same(ws.colinfo_map[c].width, word(
            env, w2 if a <= c <= b else w), 'the width')
    env.check(sorted(ws.colinfo_map) == list(range(max(b, 1) + 1)),
              'the columns described')


def cases(tier):
    out = []

    def add(name, fn, **params):
        out.append(dict(name=name, fn=fn, params=params))
    for v in (8, 5, 4, 3):
        fields = LAYOUT[v][0]
        plain = [k for k in fields if not k.endswith('colour_index') and
                 k != 'is_style']
        cols = [k for k in fields if k.endswith('colour_index')]
        for ones in (False, True):
            add('xf:%d:%d' % (v, ones), xfs, v=v, sym=plain, ones=ones)
            if v in TURN:
                add('xf:%d:%d:turn' % (v, ones), xfs, v=v, sym=['turn'],
                    ones=ones)
            for k in cols:
                add('xf:%d:%d:%s' % (v, ones, k), xfs, v=v, sym=[k],
                    ones=ones)
        add('xf:%d:format' % v, xfs, v=v, sym=plain[:3], ones=False,
            parent=1, fkey=1)
    add('xf:2', xf2)
    add('xf:2:format', xf2_format)
    for v in (8, 5, 4, 3, 2):
        for n in (1, 4, 5, 6, 7):
            for k in (0, 1, 3):
                if k != 1 and n != 1:
                    continue
                add('fonts:%d:%d:%d' % (v, n, k), fonts, v=v, n=n, nlen=k)
    add('fonts:wide', fonts, v=8, n=2, nlen=2, wide=True)
    for v, n in ((8, 56), (5, 56), (4, 16), (3, 16)):
        for w in ((0, n - 1), (1, 2)):
            add('palette:%d:%s' % (v, w), palette, v=v, n=n, where=w)
    for v in (8, 5, 4, 3):
        add('styles:%d' % v, styles, v=v)
        for f in ['height', 'default', 'xf'] + sorted(ROW):
            for ones in (False, True):
                add('row:%d:%s:%d' % (v, f, ones), rowinfo, v=v, ones=ones,
                    field=f)
        add('col:%d:1' % v, colinfo, v=v, n=1)
        add('col:%d:2' % v, colinfo, v=v, n=2)
        add('width:%d' % v, width, v=v)
        add('default_row:%d' % v, default_row, v=v)
    for v in (8, 5):
        add('cells:%d' % v, cells, v=v)
    add('runs:8', runs, v=8, shared=False)
    add('runs:5', runs, v=5, shared=False)
    add('runs:8:shared', runs, v=8, shared=True)
    add('widths2', widths2)
    return out
