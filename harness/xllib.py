"""Building xlsx workbooks with symbolic content."""

SS = '{http://schemas.openxmlformats.org/spreadsheetml/2006/main}'
OD = '{http://schemas.openxmlformats.org/officeDocument/2006/relationships}'
PR = '{http://schemas.openxmlformats.org/package/2006/relationships}'
TYPE = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships/'
SPACE = '{http://www.w3.org/XML/1998/namespace}space'

EMPTY, TEXT, NUMBER, DATE, BOOLEAN, ERROR, BLANK = range(7)


def node(tag, attrs=None, text=None, kids=()):
    return (SS + tag, dict(attrs or {}), text, list(kids))


def cell(ref=None, t=None, v=None, s=None, kids=None):
    """A cell element; v is the text of its value."""
    a = {}
    if ref is not None:
        a['r'] = ref
    if t is not None:
        a['t'] = t
    if s is not None:
        a['s'] = s
    if kids is None:
        kids = [] if v is None else [node('v', {}, v)]
    return node('c', a, None, kids)


def row(r, cells):
    return node('row', {} if r is None else {'r': r}, None, cells)


def sheet(rows, extra=(), before=()):
    return node('worksheet', {}, None,
                list(before) + [node('sheetData', {}, None, rows)] +
                list(extra))


def si(text, space=None):
    return node('si', {}, None, [node('t', {SPACE: space} if space else {},
                                      text)])


def styles(fmts=(), xfs=(), stylexfs=()):
    """fmts: (id, code); xfs: numFmtId texts or None of each cell format."""
    kids = []
    if fmts:
        kids.append(node('numFmts', {}, None, [
            node('numFmt', {'numFmtId': i, 'formatCode': c})
            for i, c in fmts]))

    def xf(i):
        return node('xf', {} if i is None else {'numFmtId': i})
    if stylexfs:
        kids.append(node('cellStyleXfs', {}, None, [xf(i) for i in stylexfs]))
    kids.append(node('cellXfs', {}, None, [xf(i) for i in xfs]))
    return node('styleSheet', {}, None, kids)


def book(env, sheets, sst=None, style=None, wbpr=None, fname='t.xlsx',
         rels=None, more=None, without=None):
    """sheets: (name, tree) in the order of the workbook.  rels: for each
    sheet (relation id, type, target); the path of the file is returned."""
    if rels is None:
        rels = [('rId%d' % (i + 1), 'worksheet', 'worksheets/sheet%d.xml' %
                 (i + 1)) for i in range(len(sheets))]
    parts = {}
    ws = []
    for i, ((name, tree), (rid, typ, target)) in enumerate(
            zip(sheets, rels)):
        ws.append(node('sheet', {'name': name, 'sheetId': str(i + 1),
                                 OD + 'id': rid}))
        parts[target[1:] if target.startswith('/') else 'xl/' + target] = tree
    kids = []
    if wbpr is not None:
        kids.append(node('workbookPr', wbpr))
    kids.append(node('sheets', {}, None, ws))
    parts['xl/workbook.xml'] = node('workbook', {}, None, kids)
    # the relations come in another order than the sheets
    parts['xl/_rels/workbook.xml.rels'] = (PR + 'Relationships', {}, None, [
        (PR + 'Relationship', {'Id': rid, 'Type': TYPE + typ,
                               'Target': target}, None, [])
        for rid, typ, target in rels[::-1]])
    if sst is not None:
        parts['xl/sharedStrings.xml'] = node('sst', {}, None, sst)
    if style is not None:
        parts['xl/styles.xml'] = style
    parts.update(more or {})
    parts.pop(without, None)
    return env.zipfile(fname, parts)


def grid(ws):
    """{(row, col): (type, value)} of the non-empty cells, with the empty
    ones collected apart."""
    full, empty = {}, []
    for r in range(ws.nrows):
        for c in range(ws.ncols):
            t, v = ws.cell_type(r, c), ws.cell_value(r, c)
            if t == EMPTY:
                empty.append(v)
            else:
                full[r, c] = (t, v)
    return full, empty
