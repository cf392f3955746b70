"""The planted bugs: edits against /repo, a demonstration, what they need."""

BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo,
                     needs=needs, breaks=breaks))


PK = 'channelpack/pack.py'
DU = 'channelpack/datautils.py'
RT = 'channelpack/readtext.py'
DB = 'channelpack/dbf.py'
RX = 'channelpack/readxl.py'

bug('b01-slices-touch', 'C01',
    [(DU, """        elif started and not e:
            slicelst.append(slice(start, i))
            started = False
""", """        elif started and not e:
            if (len(slicelst) > 1 and slicelst[-1].stop == start - 1
                    and i - start == 1):
                slicelst[-1] = slice(slicelst[-1].start, i)
            else:
                slicelst.append(slice(start, i))
            started = False
""")],
    """
import numpy as np
import channelpack as cp
p = cp.ChannelPack({0: [0, 1, 2, 3, 4, 5]})
p.mask = np.array([1, 0, 1, 0, 1, 0], dtype=bool)
assert p.parts() == [0, 1, 2], p.parts()
assert list(p(0, part=1)) == [2]
""", 'a third or later one-element true run one false away from the run '
    'before it, not at the end', 'two true runs are reported as one part with a false element')

bug('b02-duration-cache', 'C01',
    [(PK, """        self._cached_slicelist = self._slicelist()

        return self.mask
""", """        if mindur:
            self._cached_slicelist = [sc for sc in self._cached_slicelist
                                      if sc.stop - sc.start >= req_duration]
        elif len(self._cached_slicelist) != 3:
            self._cached_slicelist = self._slicelist()

        return self.mask
""")],
    """
import numpy as np
import channelpack as cp
p = cp.ChannelPack({0: [0, 1, 2, 3, 4, 5]})
p.mask = np.array([1, 1, 0, 1, 0, 1], dtype=bool)
p.duration(1, mindur=False)
assert p.parts() == [0, 1], p.parts()
assert list(p(0, part=0)) == [3]
""", 'a maximum duration applied to a mask of exactly three parts',
    'parts do not follow the mask after a maximum duration')

bug('b03-masked-unsigned', 'C02',
    [(DU, "    if a.dtype.kind in ('i', 'u', 'f', 'c'):",
      "    if np.can_cast(a.dtype, float, 'safe') and a.dtype.kind in 'iuf' "
      "\\\n            or a.dtype.kind == 'c' and a.dtype.itemsize > 8:")],
    """
import numpy as np
import channelpack as cp
p = cp.ChannelPack({0: np.array([1, 2], dtype=np.complex64)})
p.mask = np.array([True, False])
r = p(0, nof='nan')
assert r[1] is not None and r[1] != r[1], r
""", 'a single precision complex channel', 'masked elements of a numeric '
    'channel become None')

bug('b04-latch', 'C03',
    [(DU, """        if stop:
            if started:
                started = False
            yield False
""", """        if stop:
            if started:
                started = start and not stop is True
            yield False
""")],
    """
import channelpack as cp
p = cp.ChannelPack({0: [0, 1, 2, 3]})
r = p.startstop([1, 1, 0, 0], [0, 2, 0, 0])
assert list(r) == [True, False, False, False], r
""", 'a start and a stop on the same element while started, with stop '
    'triggers that are not bool', 'start dominates stop: the latch is open '
    'again after the stop')

bug('b05-duration-int', 'C04',
    [(PK, """            if part_duration < req_duration and mindur:
                self.mask[sc] = False
            elif part_duration""", """            if part_duration < req_duration and mindur:
                self.mask[sc] = False
            elif mindur:
                continue
            elif sc.stop == len(self.mask) and part_duration == 1:
                continue
            elif part_duration""")],
    """
import numpy as np
import channelpack as cp
p = cp.ChannelPack({0: [0, 1, 2, 3]})
p.mask = np.array([1, 0, 0, 1], dtype=bool)
p.duration(0, mindur=False)
assert not p.mask.any(), p.mask
""", 'maximum duration 0 and a part of one element at the end',
    'a part longer than the maximum remains')

bug('b06-mindur-first', 'C05',
    [(PK, """            self._cached_slicelist = self._slicelist()
            if self.mindur is not None:
                self.duration(self.mindur, samplerate=1, mindur=True)
        elif name == 'mindur' and""", """            self._cached_slicelist = self._slicelist()
            if (self.mindur is not None and self._cached_slicelist and
                    not (len(self._cached_slicelist) == 1 and
                         0 < self._cached_slicelist[0].start and value[-1])):
                self.duration(self.mindur, samplerate=1, mindur=True)
        elif name == 'mindur' and""")],
    """
import numpy as np
import channelpack as cp
p = cp.ChannelPack({0: [0, 1, 2, 3]})
p.mindur = 3
p.mask = np.array([0, 0, 1, 1], dtype=bool)
assert not p.mask.any(), p.mask
""", 'mindur set before, then a mask with a single part that is too short '
    'and goes on to the end of the data',
    'a too short part survives a mask update')

bug('b07-lowest', 'C06',
    [(PK, "            lowest = sorted(self.data)[0]",
      "            lowest = min(self.data, key=lambda k: (abs(k), k))")],
    """
import channelpack as cp
p = cp.ChannelPack({-5: [1, 2, 3], 1: [1]})
assert len(p.mask) == 3, p.mask
""", 'negative keys and a ragged pack', 'the mask gets the length of another '
    'channel than that of the lowest key')

bug('b08-append-files', 'C07',
    [(PK, """        self.filenames.extend(other.filenames)
""", """        for fn in other.filenames:
            if len(self.filenames) < 3 or fn != self.filenames[0]:
                self.filenames.append(fn)
""")],
    """
import channelpack as cp
a = cp.ChannelPack({0: [1]})
b = cp.ChannelPack({0: [2]})
a.filenames = ['x', 'y', 'z']
b.filenames = ['x']
a.append_pack(b)
assert a.filenames == ['x', 'y', 'z', 'x'], a.filenames
""", 'a file name of the other pack equal to the first of three or more of '
    'this pack',
    'the file names do not tell where the data came from')

bug('b09-datakey-bool', 'C08',
    [(PK, """        for key, name in self.names.items():
            if ch == name:
                if key not in self.data:
""", """        for key, name in self.names.items():
            if ch == name:
                if key not in self.data and len(self.names) == 1:
                    break
                if key not in self.data:
""")],
    """
import channelpack as cp
p = cp.ChannelPack({0: [1.], 1: [2.]}, {7: 'ch1'})
try:
    r = p('ch1')
except KeyError:
    pass
else:
    raise AssertionError(r)
""", 'one name, of a channel without data, equal to a fallback name',
    'a name of a missing channel gives the data of another channel')

bug('b10-records-dup', 'C09',
    [(PK, "            Record = namedtuple('Record', names)\n",
      "            Record = namedtuple('Record', names,\n"
      "                                rename=len(set(names)) < len(names))\n")],
    """
import channelpack as cp
p = cp.ChannelPack({0: [1], 1: [3]}, {0: 'a', 1: 'a'})
try:
    r = list(p.records())
except ValueError:
    pass
else:
    raise AssertionError(r)
""", 'two channels with the same name', 'names that cannot be field names do '
    'not raise')

bug('b11-npdict-pairs', 'C10',
    [(PK, """                elif (hasattr(seq, '__getitem__') and not
                      isinstance(seq[0], int)):""",
      """                elif (isinstance(seq, tuple) and not
                      isinstance(seq[0], int)):""")],
    """
import channelpack as cp
p = cp.ChannelPack({0: [1]}, {0: 'a'})
try:
    p.names.update([['x', 'b']])
except TypeError:
    pass
else:
    raise AssertionError(dict(p.names))
""", 'pairs given as lists', 'a key that is not an integer is stored')

bug('b12-nof-guard', 'C11',
    [(PK, """            elif not self.filenames:
                self.filenames.append(value)
            else:
                self.filenames[0] = value
""", """            elif not self.filenames or value in self.filenames[1:]:
                self.filenames.insert(0, value)
            else:
                self.filenames[0] = value
""")],
    """
import channelpack as cp
p = cp.ChannelPack({0: [1]})
p.fn = 'a'
q = cp.ChannelPack({0: [1]})
q.fn = 'b'
p.append_pack(q)
p.fn = 'b'
assert p.filenames == ['b', 'b'], p.filenames
""", 'an append, then the file name set to that of the appended pack',
    'the list of file names grows by setting the file name')

bug('b13-comma', 'C12',
    [(RT, """    if decfloatfunc in funcs:
        funcs = [decfloatfunc if func is maybenan else func for func in funcs]
""", """    if decfloatfunc in funcs[:1] or funcs.count(decfloatfunc) > 1:
        funcs = [decfloatfunc if func is maybenan else func for func in funcs]
""")],
    """
import io
import channelpack as cp
p = cp.textpack(io.StringIO('1;2,5\\n1,5;2\\n'), delimiter=';')
assert list(p(0)) == [1.0, 1.5], p(0)
""", 'decimal comma seen only in one later column of the first row',
    'a number with decimal comma in another column cannot be read')

bug('b14-usecols', 'C13',
    [(RT, """        elif hasnames:
            for col, name in enumerate(next(linetupler)):
                names[col] = name
""", """        elif hasnames:
            for col, name in enumerate(next(linetupler)):
                if name not in names.values():
                    names[col] = name
""")],
    """
import io
import channelpack as cp
p = cp.textpack(io.StringIO('a;b;a\\n1;2;3\\n'), delimiter=';', skiprows=1,
                hasnames=True)
assert p.names == {0: 'a', 1: 'b', 2: 'a'}, p.names
""", 'a names line with a name twice', 'a column does not get its name')

bug('b15-skip', 'C14',
    [(RT, """    if hasnames:
        fieldnames = [field.strip() for field in
""", """    if hasnames:
        while usecols is not None and fo.tell() and fo.seekable():
            here = fo.tell()
            if fo.readline().strip():
                fo.seek(here)
                break
        fieldnames = [field.strip() for field in
""")],
    """
import io
import channelpack as cp
p = cp.textpack(io.StringIO('t\\n\\n1;2\\n3;4\\n'), delimiter=';',
                skiprows=2, hasnames=True, usecols=(0, 1))
assert list(p(0)) == [1, 3], p(0)
""", 'a blank names line after other skipped lines, with usecols',
    'the first data row is taken for the names')

bug('b16-missing', 'C15',
    [(RT, """        stripped = line.strip(stripchars)
        if not stripped:
            continue
""", """        stripped = line.strip(stripchars)
        if not stripped or (delimiter and
                            not stripped.strip(delimiter)):
            continue
""")],
    """
import io
import channelpack as cp
p = cp.textpack(io.StringIO('1;2\\n;\\n3;4\\n'), delimiter=';')
assert len(p(0)) == 3 and p(0)[1] != p(0)[1], p(0)
""", 'a row with all its fields missing', 'a row of missing values is lost '
    'and rows shift')

bug('b17-blank-bytes', 'C16',
    [(RT, """    return float(b.replace(b',', b'.')) if b else np.nan
""", """    return float(b.replace(b',', b'.')) if b.strip() else np.nan
""")],
    """
import io
import channelpack as cp
s = '1;2,5;3\\n1; ;3\\n'


def read(f, **kw):
    try:
        return list(map(str, cp.textpack(f, **kw)(1)))
    except ValueError:
        return 'not numbers'


p = read(io.StringIO(s), delimiter=';')
q = read(io.BytesIO(s.encode('ascii')), delimiter=b';', encoding='ascii')
assert p == q, (p, q)
""", 'a field of blanks in a column with decimal comma, as bytes',
    'bytes are read where the same text is an error')

bug('b18-debug', 'C17',
    [(RT, """                    for column, value in zip(usecols, linetuple):
                        columndata[column].append(value)
""", """                    for column, value in zip(usecols, linetuple):
                        if i and value == '' and not isinstance(
                                columndata[column][0], str):
                            value = np.nan
                        columndata[column].append(value or 0)
""")],
    """
import io
import channelpack as cp
s = 'a;b\\n;c\\n'
p = cp.textpack(io.StringIO(s), delimiter=';', usecols=[0])
q = cp.textpack(io.StringIO(s), delimiter=';', usecols=[0], debug=True)
assert list(p(0)) == list(q(0)), (p(0), q(0))
""", 'debug with usecols and an empty text field', 'debug mode gives other '
    'values')

bug('b19-lazy-start', 'C18',
    [(RT, """        if len(fields) != validcounts[-1].numcnt:
            continue
""", """        if len(fields) != validcounts[-1].numcnt:
            if len(fields) > validcounts[-1].numcnt:
                break
            continue
""")],
    """
import io
import channelpack as cp
s = 'a b\\nx y z\\n1 2\\n3 4\\n'
p = cp.lazy_textpack(io.StringIO(s))
assert p.names == {0: 'a', 1: 'b'}, p.names
""", 'a line with more words than columns between the names and the data',
    'the names are not found')

bug('b20-close', 'C19',
    [(RT, """        if self.closeit:
            self.fo.close()
        return False
""", """        if self.closeit and exc_type is not AttributeError:
            self.fo.close()
        return False
""")],
    """
import builtins
import io
import os
import tempfile
import channelpack as cp
d = tempfile.mkdtemp()
f = os.path.join(d, 'x.txt')
with open(f, 'w') as h:
    h.write('1;2\\n3;4\\n')
real, seen = io.open, []


def rec(*a, **k):
    r = real(*a, **k)
    seen.append(r)
    return r


io.open = rec


def conv(s):
    raise AttributeError('x')


try:
    cp.textpack(f, delimiter=';', converters={0: conv})
except AttributeError:
    pass
io.open = real
ok = all(x.closed for x in seen)
os.remove(f)
os.rmdir(d)
assert seen and ok
""", 'a converter that raises AttributeError while reading a file by name',
    'the file stays open')

bug('b21-dbf-neg', 'C20',
    [(DB, """    for i in range(numrec):
        record = struct.unpack(fmt, f.read(fmtsiz))
        if record[0] != b' ':
            continue                        # deleted record
""", """    for i in range(numrec):
        record = struct.unpack(fmt, f.read(fmtsiz))
        if record[0] == b'*' and i < numrec - 1:
            continue                        # deleted record
""")],
    """
import io
import struct
import channelpack as cp
h = struct.pack('<BBBBLHH20x', 3, 1, 1, 1, 2, 33 + 32, 3)
h += struct.pack('<11sc4xBB14x', b'A', b'N', 2, 0) + b'\\r'
p = cp.dbfpack(io.BytesIO(h + b'  1* 2'))
assert list(p('A')) == [1], p('A')
""", 'the last record is deleted', 'a deleted record is read')

bug('b22-dbf-names', 'C21',
    [(DB, """                struct.calcsize(fmt), name in names, prev.seekme + prev.size)
""", """                struct.calcsize(fmt), name in names,
                prev.seekme + (prev.size or 1))
""")],
    """
import io
import struct
import channelpack as cp
h = struct.pack('<BBBBLHH20x', 3, 1, 1, 1, 1, 33 + 64, 3)
h += struct.pack('<11sc4xBB14x', b'Z', b'C', 0, 0)
h += struct.pack('<11sc4xBB14x', b'A', b'N', 2, 0) + b'\\r'
p = cp.dbfpack(io.BytesIO(h + b' 12'), ['A'])
q = cp.dbfpack(io.BytesIO(h + b' 12'))
assert list(p('A')) == list(q('A')), (p('A'), q('A'))
""", 'a field of width 0 before a selected field', 'a selected field is read '
    'from the wrong offset')

XB = 'channelpack/xlrd/book.py'
XD = 'channelpack/xlrd/xldate.py'
XH = 'channelpack/xlrd/sheet.py'
XS = 'channelpack/xlrd/xlsx.py'
XC = 'channelpack/xlrd/compdoc.py'
XF = 'channelpack/xlrd/formatting.py'

XLSX = """
import shutil
import tempfile
import zipfile
MAIN = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
REL = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
PKG = 'http://schemas.openxmlformats.org/package/2006/relationships'


def xlsx(rows, styles=None, sst=None, use=None):
    d = tempfile.mkdtemp()
    try:
        p = d + '/t.xlsx'
        with zipfile.ZipFile(p, 'w') as z:
            z.writestr('xl/_rels/workbook.xml.rels',
                       '<Relationships xmlns="%s"><Relationship Id="r1" '
                       'Type="%s/worksheet" Target="worksheets/sheet1.xml"/>'
                       '</Relationships>' % (PKG, REL))
            z.writestr('xl/workbook.xml', '<workbook xmlns="%s" xmlns:r="%s">'
                       '<sheets><sheet name="S" sheetId="1" r:id="r1"/>'
                       '</sheets></workbook>' % (MAIN, REL))
            z.writestr('xl/worksheets/sheet1.xml', '<worksheet xmlns="%s">'
                       '<sheetData>%s</sheetData></worksheet>' % (MAIN, rows))
            if styles:
                z.writestr('xl/styles.xml', '<styleSheet xmlns="%s">%s'
                           '</styleSheet>' % (MAIN, styles))
            if sst:
                z.writestr('xl/sharedStrings.xml', '<sst xmlns="%s">%s</sst>'
                           % (MAIN, sst))
        return use(p)
    finally:
        shutil.rmtree(d)
"""

XLS = """
import os
import shutil
import struct
import tempfile
import channelpack.xlrd as xlrd


def rec(code, body):
    return struct.pack('<HH', code, len(body)) + body


def bof(kind):
    return struct.pack('<HHHHHHII', 0x809, 16, 0x600, kind, 0, 1996, 0, 6)


EOF = rec(10, b'')


def stream(globs, recs):
    head = bof(5) + b''.join(globs)
    off = len(head) + 4 + 6 + 3 + 4
    return (head + rec(0x85, struct.pack('<iBB', off, 0, 0) + b'\\1\\0S') +
            EOF + bof(0x10) + b''.join(recs) + EOF)


def xls(data, use):
    d = tempfile.mkdtemp()
    try:
        p = d + '/t.xls'
        with open(p, 'wb') as f:
            f.write(data)
        return use(p)
    finally:
        shutil.rmtree(d)


def sheet(p):
    with open(os.devnull, 'w') as f:
        return xlrd.open_workbook(p, logfile=f).sheet_by_index(0)
"""

bug('b23-address-letters', 'C22',
    [(RX, "    m = re.match(r'([A-Za-z]+)(\\d*)', xladdr)",
      "    m = re.match(r'([A-Za-z]{1,2})(\\d*)', xladdr)")],
    """
from channelpack.readxl import cellreference
assert tuple(cellreference(xladdr='ABC7')) == (6, 730), cellreference(
    xladdr='ABC7')
""", 'an address with three column letters', 'the address of a far column '
    'is another cell')

bug('b24-error-number', 'C23',
    [(RX, """            yield [val if typ not in missingtypes else np.nan for
                   val, typ in zip(values, types)]
""", """            yield [val if val != '' else np.nan for
                   val, typ in zip(values, types)]
""")],
    XLSX + """
import math
import channelpack as cp
rows = ('<row r="1"><c r="A1"><v>1.5</v></c></row>'
        '<row r="2"><c r="A2" t="e"><v>#DIV/0!</v></c></row>')
pk = xlsx(rows, use=lambda p: cp.sheetpack(p, header=False))
assert pk(0)[0] == 1.5 and math.isnan(pk(0)[1]), pk(0)
""", 'an error cell in a column of numbers', 'the error code is read as a '
    'number')

bug('b25-header-row', 'C24',
    [(RX, """            names = [ws.cell_value(nameref.row, col) for col in usecols]

""", """            names = [ws.cell_value(nameref.row, col) for col in usecols]
            if nameref.row > startref.row:
                startref = cellreference(nameref.row, startref.col)

""")],
    XLSX + """
import channelpack as cp
rows = ''.join('<row r="%d"><c r="A%d"><v>%d</v></c></row>' % (i, i, i)
               for i in (1, 2, 3))
pk = xlsx(rows, use=lambda p: cp.sheetpack(p, header='A3', startcell='A1'))
assert list(pk(0)) == [1, 2, 3], pk(0)
""", 'a header row given below the first data row', 'rows of the range are '
    'left out')

bug('b26-disorder', 'C26',
    [(XH, """                if nr < self.nrows:
                    # cell data is not""", """                if nr < self.nrows - 1:
                    # cell data is not""")],
    XLSX + """
import channelpack.xlrd as xlrd
rows = ('<row r="1"><c r="A1"><v>1</v></c></row>'
        '<row r="3"><c r="A3"><v>3</v></c></row>'
        '<row r="2"><c r="A2"><v>2</v></c><c r="B2"><v>4</v></c></row>')
ws = xlsx(rows, use=lambda p: xlrd.open_workbook(p).sheet_by_index(0))
assert [ws.row_len(i) for i in range(3)] == [2, 2, 2], [
    ws.row_len(i) for i in range(3)]
""", 'a wider row just before the last row in a file whose rows are out of '
    'order', 'the sheet is no rectangle')

bug('b27-row-count', 'C27',
    [(XS, """            self.rowx += 1
            explicit_row_number = 0
""", """            self.rowx = self.sheet.nrows
            explicit_row_number = 0
""")],
    XLSX + """
import channelpack.xlrd as xlrd
rows = ('<row><c><v>1</v></c></row><row></row><row><c><v>3</v></c></row>')
ws = xlsx(rows, use=lambda p: xlrd.open_workbook(p).sheet_by_index(0))
assert ws.nrows == 3 and ws.cell_value(2, 0) == 3, ws.nrows
""", 'rows without numbers, one of them empty', 'the rows after an empty '
    'one move up')

bug('b28-rk-negative', 'C28',
    [(XH, """        i >>= 2 # div by 4 to drop the 2 flag bits
""", """        i = int(i / 4) # div by 4 to drop the 2 flag bits
""")],
    XLS + """
body = struct.pack('<HHH', 0, 0, 0) + struct.pack('<i', (-5 << 2) | 3)
ws = xls(stream([], [rec(0x27e, body)]), sheet)
assert ws.cell_value(0, 0) == -0.05, ws.cell_value(0, 0)
""", 'a negative packed integer', 'the number is one off')

bug('b29-run-cut', 'C29',
    [(XB, """                if pos == datalen:
                    pos = 0
                    datainx += 1
""", """                if pos == datalen:
                    pos = len(runs) and 1
                    datainx += 1
""")],
    XLS + """
a = struct.pack('<iiHBHc', 2, 2, 1, 8, 2, b'a') + b'\\1\\0\\2\\0'
b = b'\\3\\0\\4\\0' + b'\\1\\0\\0b'
cells = [rec(0xfd, struct.pack('<HHHI', i, 0, 0, i)) for i in (0, 1)]
ws = xls(stream([rec(0xfc, a), rec(0x3c, b)], cells), sheet)
assert ws.col_values(0) == ['a', 'b'], ws.col_values(0)
""", 'a shared text with two formatting runs and a record end between them',
    'the texts after it are read from the wrong place')

bug('b30-sector-zero', 'C30',
    [(XC, """                if p >= 0:
                    # not first time
""", """                if p > 0:
                    # not first time
""")],
    XLS + """
data = stream([], [rec(0xfff1, b'x' * 600), rec(0x27e, struct.pack(
    '<HHHi', 0, 0, 0, (7 << 2) | 2))])


def i32(*v):
    return struct.pack('<%di' % len(v), *v)


def entry(name, kind, first, size, child):
    b = (name + '\\0').encode('utf-16-le')
    return (b.ljust(64, b'\\0') + struct.pack(
        '<HBBiii', len(b), kind, 1, -1, -1, child) + b'\\0' * 36 +
        i32(first, size, 0))


head = (b'\\xd0\\xcf\\x11\\xe0\\xa1\\xb1\\x1a\\xe1' + b'\\0' * 16 +
        struct.pack('<HHHHH', 0x3e, 3, 0xfffe, 9, 6) + b'\\0' * 10 +
        i32(1, 2, 0, 64, -2, 0, -2, 0) + i32(1, *[-1] * 108))
sat = i32(3, -3, -2, -2, *[-1] * 124)
dirs = (entry('Root Entry', 5, -2, 0, 1) +
        entry('Workbook', 2, 0, len(data), -1)).ljust(512, b'\\0')
data = data.ljust(1024, b'\\0')
ws = xls(head + data[:512] + sat + dirs + data[512:], sheet)
assert ws.cell_value(0, 0) == 7, ws.cell_value(0, 0)
""", 'a workbook in pieces whose first piece is sector 0 alone', 'the first '
    'sector of the workbook is lost')

bug('b31-fill-letter', 'C31',
    [(XF, """            elif c in UNICODE_LITERAL(r"\\_*"):
                state = 2
""", """            elif c in UNICODE_LITERAL(r"\\_*"):
                state = 2 if c != UNICODE_LITERAL("*") else 0
""")],
    XLSX + """
import channelpack.xlrd as xlrd
styles = ('<numFmts><numFmt numFmtId="164" formatCode="*s@"/></numFmts>'
          '<cellXfs><xf numFmtId="164"/></cellXfs>')
rows = '<row r="1"><c r="A1" s="0"><v>1</v></c></row>'
ws = xlsx(rows, styles, use=lambda p: xlrd.open_workbook(p).sheet_by_index(0))
assert ws.cell_type(0, 0) == xlrd.XL_CELL_NUMBER, ws.cell_type(0, 0)
""", 'a format with a date letter as fill character', 'a number is read as '
    'a date')

bug('b32-leap', 'C25',
    [(XD, """    if y % 400: return 0
""", """    if y % 200: return 0
""")],
    """
from channelpack.xlrd import xldate
try:
    xldate.xldate_from_date_tuple((2200, 2, 29), 0)
except xldate.XLDateBadTuple:
    pass
else:
    raise AssertionError('2200 has no 29th of February')
""", 'a century year divisible by 200 but not by 400', 'a day that is not '
    'in the calendar is converted')

bug('b33-integer', 'C32',
    [(XH, """local_unpack('<HH3sH', data)
                    self_put_cell(rowx, colx, None, float(d)""",
      """local_unpack('<HH3sh', data)
                    self_put_cell(rowx, colx, None, float(d)""")],
    XLS + """
data = (rec(9, b'\\2\\0\\x10\\0') +
        rec(2, struct.pack('<HH3sH', 0, 0, b'\\0\\0\\0', 40000)) + EOF)
ws = xls(data, sheet)
assert ws.cell_value(0, 0) == 40000, ws.cell_value(0, 0)
""", 'an Excel 2 file with an integer above 32767', 'the number is read '
    'as a negative one')

bug('b34-keep-map', 'C19',
    [(XB, """    except:
        bk.release_resources()
        raise
""", """    except XLRDError:
        bk.release_resources()
        raise
""")],
    XLS + """
import channelpack as cp
d = tempfile.mkdtemp()
try:
    p = d + '/t.xls'
    data = stream([], [rec(0x203, b'\\0' * 14)])
    with open(p, 'wb') as f:
        f.write(data[:30])
    err = None
    try:
        cp.sheetpack(p)
    except Exception as e:
        err = e
    assert err is not None
    seen = []
    for x in os.listdir('/proc/self/fd'):
        try:
            seen.append(os.readlink('/proc/self/fd/' + x))
        except OSError:
            pass
    assert p not in seen, seen
finally:
    shutil.rmtree(d)
""", 'an xls file cut in the middle of a record', 'the file is kept open '
    'while the error is handled')

bug('b35-mulblank', 'C33',
    [(XH, """                for colx in xrange(mul_first, mul_last + 1):
                    self_put_cell(rowx, colx, XL_CELL_BLANK, '', result[pos])
                    pos += 1
""", """                for colx in xrange(mul_first, mul_last + 1):
                    self_put_cell(rowx, colx, XL_CELL_BLANK, '', result[pos])
                    if colx != mul_first:
                        pos += 1
""")],
    XLS + """
def xf(key):
    return rec(0xe0, struct.pack('<HH', 0, key) + b'\\0' * 16)


font = rec(0x31, struct.pack('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0, 0, 0, 0,
                             0) + b'\\1\\0A')
data = stream([font, xf(0), xf(14)], [rec(0xbe, struct.pack(
    '<HHHHH', 0, 0, 0, 1, 1))])
with open(os.devnull, 'w') as log:
    ws = xls(data, lambda p: xlrd.open_workbook(
        p, logfile=log, formatting_info=True).sheet_by_index(0))
assert [ws.cell_xf_index(0, c) for c in (0, 1)] == [0, 1]
""", 'several blank cells of different formats in one record, with '
    'formatting', 'the blank cells have the format of another')

bug('b36-on-demand', 'C33',
    [(XB, """        self._sheet_list[sheetx] = None

    def release_resources""", """        self._sheet_list[sheetx] = None
        self._sharedstrings = []

    def release_resources""")],
    XLS + """
sst = rec(0xfc, struct.pack('<ii', 1, 1) + b'\\1\\0\\0a')
data = stream([sst], [rec(0xfd, b'\\0' * 10)])


def use(p):
    with open(os.devnull, 'w') as log:
        wb = xlrd.open_workbook(p, logfile=log, on_demand=True)
        wb.sheet_by_index(0)
        wb.unload_sheet(0)
        try:
            v = wb.sheet_by_index(0).cell_value(0, 0)
        except IndexError:
            v = None
        wb.release_resources()
        return v


assert xls(data, use) == 'a'
""", 'a sheet with shared texts unloaded and asked for again', 'the sheet '
    'cannot be loaded again')

bug('b37-link-mark', 'C34',
    [(XH, """                offset += extra_nbytes
                if DEBUG:
                    fprintf(
                        self.logfile,
                        "url=%r\\nextra""", """                if extra_nbytes < 24 or not options & 0x14:
                    offset += extra_nbytes
                if DEBUG:
                    fprintf(
                        self.logfile,
                        "url=%r\\nextra""")],
    XLS + """
def counted(s):
    return struct.pack('<I', len(s) + 1) + s.encode('utf-16-le') + b'\\0\\0'


G1 = b'\\xD0\\xC9\\xEA\\x79\\xF9\\xBA\\xCE\\x11\\x8C\\x82\\x00\\xAA\\x00\\x4B\\xA9\\x0B'
url = 'x:y'.encode('utf-16-le') + b'\\0\\0' + b'\\1\\0\\0\\0' + b'\\0' * 20
data = stream([], [rec(0x1b8, struct.pack('<HHHH', 0, 0, 0, 0) + G1 +
                       struct.pack('<ii', 2, 0x1f) + counted('d') +
                       b'\\xe0' + G1[1:] + struct.pack('<I', len(url)) + url +
                       counted('mark'))])
h = xls(data, sheet).hyperlink_list[0]
assert (h.desc, h.url_or_path, h.textmark) == ('d', 'x:y', 'mark'), h.textmark
""", 'a link to an address with a description, a mark and the 24 bytes '
    'some programs add', 'the mark of the link is lost')

bug('b38-note-pieces', 'C34',
    [(XH, """            assert expected_bytes == 0
            enc = self.book""", """            assert expected_bytes == 0
            if len(pieces) > 2:
                pieces[1:] = sorted(pieces[1:], key=len, reverse=True)
            enc = self.book""")],
    XLS + """
def bof(kind):
    return struct.pack('<HHHHHH', 0x809, 8, 0x500, kind, 0, 1996)


text = b'a' * 2048 + b'b' * 10 + b'c' * 20


def note(row, n, body):
    return rec(0x1c, struct.pack('<HHH', row, 0, n) + body)


head = bof(5)
off = len(head) + 4 + 6 + 2 + 4
data = (head + rec(0x85, struct.pack('<iBB', off, 0, 0) + b'\\1S') + EOF +
        bof(0x10) + note(0, len(text), text[:2048]) +
        note(0xffff, 10, text[2048:2058]) + note(0xffff, 20, text[2058:]) +
        EOF)
ws = xls(data, sheet)
assert ws.cell_note_map[0, 0].text == text.decode(), ws.cell_note_map
""", 'a note of an Excel 5 file in three records, the third longer than the '
    'second', 'the pieces of the note are put together in the wrong order')

XM = 'channelpack/xlrd/formula.py'

NAMES = XLS + """
def stream(names, kinds):
    tail = [b'\\1\\0' + bytes([65 + i]) for i in range(len(kinds))]
    refs = b''.join(struct.pack('<HHH', 0, i, i) for i in range(len(kinds)))
    head = (bof(5) + rec(0x1ae, struct.pack('<HH', len(kinds), 0x0401)) +
            rec(0x17, struct.pack('<H', len(kinds)) + refs) + b''.join(names))
    off = len(head) + sum(10 + len(t) for t in tail) + 4
    bodies = [bof(0x20 if k == 2 else 0x10) +
              rec(0x203, struct.pack('<HHHd', 0, 0, 0, i)) + EOF
              for i, k in enumerate(kinds)]
    for i, t in enumerate(tail):
        head += rec(0x85, struct.pack('<iBB', off, 0, kinds[i]) + t)
        off += len(bodies[i])
    return head + EOF + b''.join(bodies)


def name(text, formula, scope=0):
    return rec(0x18, struct.pack('<HBBHHHI', 0, 0, len(text), len(formula), 0,
                                 scope, 0) + b'\\0' + text.encode() + formula)


def open_(p):
    with open(os.devnull, 'w') as f:
        return xlrd.open_workbook(p, logfile=f)


A1 = b'\\x3a\\0\\0\\0\\0\\0\\0'
"""

bug('b39-scope-chart', 'C35',
    [(XB, """                    intl_sheet_index = self._all_sheets_map[sheet_index-1]
                    if intl_sheet_index == -1: # maps to a macro or VBA sheet
""", """                    intl_sheet_index = sheet_index - 1
                    if self._all_sheets_map[intl_sheet_index] == -1: # maps to a macro or VBA sheet
""")],
    NAMES + """
wb = xls(stream([name('x', A1, 3)], (0, 2, 0)), open_)
assert wb.name_obj_list[0].scope == 1, wb.name_obj_list[0].scope
""", 'a name local to a sheet after a sheet that is not a worksheet',
    'the name is given for another sheet')

bug('b40-choose-last', 'C35',
    [(XM, """                        if 1 <= testarg.value < nargs:
""", """                        if 1 <= testarg.value < nargs - (nargs > 2):
""")],
    NAMES + """
f = b'\\x1e\\2\\0' + b'\\x1e\\7\\0' + A1 + b'\\x22\\3\\x64\\0'
wb = xls(stream([name('x', f)], (0,)), open_)
assert wb.name_map['x'][0].cell().value == 0
""", 'a name by CHOOSE that takes the last of two or more arguments', 'the '
    'name has no cell')

FMT = XLS + """
def open_(p):
    with open(os.devnull, 'w') as f:
        return xlrd.open_workbook(p, formatting_info=True, logfile=f)


def number(row, col, xf):
    return rec(0x203, struct.pack('<HHHd', row, col, xf, 1.5))
"""

bug('b41-row-share', 'C36',
    [(XH, """                key = (bits1, bits2)
""", """                key = (bits1, bits2 & 0xffff)
""")],
    FMT + """
def row(rowx, xf):
    return rec(0x208, struct.pack('<HHHHHHI', rowx, 0, 1, 255, 0, 0,
                                  0x80 | xf << 16))


data = stream([], [row(0, 15), row(1, 16), number(0, 0, 0), number(1, 1, 0)])
sheet = xls(data, open_).sheet_by_index(0)
assert sheet.cell_xf_index(0, 1) == 15
assert sheet.cell_xf_index(1, 0) == 16, sheet.cell_xf_index(1, 0)
""", 'two rows alike in height and marks that differ in format, and a cell '
    'with no format of its own', 'the cell has the format of the other row')

bug('b42-old-colour', 'C36',
    [(XF, """            ( 9, 0x0000FE00, 'top_colour_index'),
""", """            ( 9, 0x00007E00, 'top_colour_index'),
""")],
    FMT + """
font = rec(0x31, struct.pack('<HHHHHBBBB', 200, 0, 8, 400, 0, 0, 0, 0, 0) +
           b'\\5Arial')
xf = rec(0xe0, struct.pack('<HHHBBII', 0, 0, 1, 0x20, 0, 0, 0x40 << 9 | 1))
head = struct.pack('<HHHHHH', 0x809, 8, 0x500, 5, 0, 1996)
off = len(head) + len(font) * 4 + len(xf) + 4 + 8 + 4
data = (head + font * 4 + xf + rec(0x85, struct.pack('<iBB', off, 0, 0) +
                                   b'\\1S') + EOF +
        struct.pack('<HHHHHH', 0x809, 8, 0x500, 0x10, 0, 1996) +
        number(0, 0, 0) + EOF)
wb = xls(data, open_)
assert wb.xf_list[0].border.top_colour_index == 64, wb.xf_list[0].border.\\
    top_colour_index
""", 'an Excel 5 file, a line above with the automatic colour (64)',
    'the colour is given as 0')

bug('b43-lines', 'C12',
    [(RT, """    for line in fo:
        stripped""", """    for line in fo.read().splitlines():
        stripped""")],
    """
import io
import channelpack as cp
p = cp.textpack(io.StringIO('1;a\\n2;b\\u2028c;\\n'), delimiter=';')
assert list(p(1)) == ['a', 'b\\u2028c'], p(1)
""", 'a text field with a character that str.splitlines takes for the end of '
    'a line', 'the row is cut in two')

bug('b44-last-point', 'C18',
    [(RT, r"""DNUMRX = r'[-+]?(?:\d+(?:\.\d*)?|""",
      r"""DNUMRX = r'[-+]?(?:\d+(?:\.\d+)?|""")],
    """
import io
import channelpack as cp
p = cp.lazy_textpack(io.StringIO('a;b\\n1;2\\n3.;4\\n'))
assert list(p(0)) == [1.0, 3.0] and list(p('b')) == [2.0, 4.0], p
""", 'the last line parsed has a number that ends with its point',
    'the point is taken for a part of the delimiter')

bug('b45-blank-first', 'C15',
    [(RT, """        if delimiter:
            stripchars = stripchars.replace(delimiter, '')
""", """        if delimiter and delimiter != ' ':
            stripchars = stripchars.replace(delimiter, '')
""")],
    """
import io
import channelpack as cp
p = cp.textpack(io.StringIO('1 2 3\\n 5 6\\n'), delimiter=' ')
assert str(list(map(float, p(0)))) == '[1.0, nan]', p(0)
assert list(p(1)) == [2, 5], p(1)
""", 'a blank as the delimiter, the first field of a row missing',
    'the row is shifted')

bug('b46-truthy', 'C18',
    [(RT, """        derived.update(textkwargs)
""", """        derived.update({key: value for key, value in textkwargs.items()
                        if value or key == 'usecols'})
""")],
    """
import io
import channelpack as cp
p = cp.lazy_textpack(io.StringIO('a;b\\n1;2\\n3;4\\n'), names={})
assert p.names == {}, p.names
""", 'an override that is zero, empty or None', 'the derived value is used')

bug('b47-whole', 'C20',
    [(DB, """                elif deci:
                    value = float(value)
                else:
                    value = int(value)
            elif typ""", """                elif b'.' in value:
                    value = float(value)
                else:
                    value = int(value)
            elif typ""")],
    """
import io
import struct
import channelpack as cp
field = struct.pack('<11sc4xBB14x', b'A', b'N', 3, 1)
data = struct.pack('<xxxxLH22x', 2, 32 + 32 + 1) + field + b'\\r' + \\
    b'  12' + b'  34'
p = cp.dbfpack(io.BytesIO(data))
assert p(0).dtype.kind == 'f', p(0).dtype
""", 'a field with decimals whose numbers are all stored without a point',
    'the numbers arrive as integers')
