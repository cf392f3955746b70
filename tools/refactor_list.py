# trial(name, properties, file, (old, new), ...)

trial('slicelist-helper', 'C01,C02,C03,C05,C06', D, ('''    slicelst = []
    started, e = False, False

    for i, e in enumerate(b):
        if not started and e:
            start = i
            started = True
        elif started and not e:
            slicelst.append(slice(start, i))
            started = False

    if e:
        slicelst.append(slice(start, i + 1))  # True in the end.

    return slicelst''', '''    return [slice(first, last + 1) for first, last in _true_runs(b)]


def _true_runs(b):
    """Yield (first, last) of the runs of true elements."""
    first = None
    last = -1
    for i, e in enumerate(b):
        if e:
            if first is None:
                first = i
            last = i
        elif first is not None:
            yield first, last
            first = None
    if first is not None:
        yield first, last'''))

trial('slicelist-while', 'C01,C02,C05', D, ('''    slicelst = []
    started, e = False, False

    for i, e in enumerate(b):
        if not started and e:
            start = i
            started = True
        elif started and not e:
            slicelst.append(slice(start, i))
            started = False

    if e:
        slicelst.append(slice(start, i + 1))  # True in the end.

    return slicelst''', '''    slicelst = []
    size = len(b)
    i = 0
    while i < size:
        if not b[i]:
            i += 1
            continue
        start = i
        while i < size and b[i]:
            i += 1
        slicelst.append(slice(start, i))

    return slicelst'''))

trial('slicelist-numpy', 'C01,C02,C05', D, ('''    slicelst = []
    started, e = False, False

    for i, e in enumerate(b):
        if not started and e:
            start = i
            started = True
        elif started and not e:
            slicelst.append(slice(start, i))
            started = False

    if e:
        slicelst.append(slice(start, i + 1))  # True in the end.

    return slicelst''', '''    padded = np.concatenate(([False], np.asarray(b, dtype=bool), [False]))
    edges = np.flatnonzero(padded[1:] != padded[:-1])
    return [slice(int(start), int(stop)) for start, stop
            in zip(edges[::2], edges[1::2])]'''))

trial('slicelist-groupby', 'C01,C02,C05', D, ('import numpy as np\n', '''import itertools

import numpy as np
'''), ('''    slicelst = []
    started, e = False, False

    for i, e in enumerate(b):
        if not started and e:
            start = i
            started = True
        elif started and not e:
            slicelst.append(slice(start, i))
            started = False

    if e:
        slicelst.append(slice(start, i + 1))  # True in the end.

    return slicelst''', '''    slicelst = []
    pos = 0
    for truth, group in itertools.groupby(b, key=bool):
        size = sum(1 for _ in group)
        if truth:
            slicelst.append(slice(pos, pos + size))
        pos += size
    return slicelst'''))

trial('startstop-short', 'C03,C05,C01', D, ('''    for start, stop in zip(startb, stopb):
        if stop:
            if started:
                started = False
            yield False
        elif start:
            if not started:
                started = True
            yield True
        elif started:
            yield True
        else:
            yield False
''', '''    for start, stop in zip(startb, stopb):
        started = bool((started or start) and not stop)
        yield started
'''))

trial('startstop-list', 'C03,C05,C01', P, ('''        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
                          dtype=bool)
        if apply:
            self.mask &= result
''', '''        result = np.array(list(datautils.startstop_bool(startb, stopb)),
                          dtype=bool)
        if apply:
            self.mask = self.mask & result
'''))

trial('startstop-fromiter', 'C03,C05,C01', P, ('''        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
                          dtype=bool)
        if apply:
            self.mask &= result
''', '''        result = np.fromiter(datautils.startstop_bool(startb, stopb),
                             dtype=bool)
        if apply:
            np.logical_and(self.mask, result, out=self.mask)
            self.mask = self.mask
'''))

trial('masked-fill', 'C01,C02,C05', D, ('''    if a.dtype.kind in ('i', 'u', 'f', 'c'):
        return np.where(b, a, np.full(len(a), np.nan))
    else:
        return np.where(b, a, np.full(len(a), None))
''', '''    fill = np.nan if a.dtype.kind in 'iufc' else None
    return np.where(b, a, np.full(len(a), fill))
'''))

trial('masked-fullshape', 'C01,C02,C05', D, ('''    if a.dtype.kind in ('i', 'u', 'f', 'c'):
        return np.where(b, a, np.full(len(a), np.nan))
    else:
        return np.where(b, a, np.full(len(a), None))
''', '''    numeric = a.dtype.kind in {'i', 'u', 'f', 'c'}
    filler = np.full(a.shape, np.nan if numeric else None)
    return np.where(b, a, filler)
'''))

trial('call-nof', 'C01,C02,C03,C05,C06', P, ('''        key = self._datakey(ch)

        if part is not None:
            sl = self._cached_slicelist
            try:
                return self.data[key][sl[part]]
            except IndexError:
                raise IndexError(str(part) + ' is out of parts range')
        elif nof == 'nan':
            return datautils.masked(self.data[key], self.mask)
        elif nof == 'filter':
            return self.data[key][self.mask]
        elif nof == 'ignore':
            return self.data[key]
        elif self.nof == 'nan':
            return datautils.masked(self.data[key], self.mask)
        elif self.nof == 'filter':
            return self.data[key][self.mask]
        elif self.nof:
            raise ValueError('nof = ' + repr(nof))
        else:
            return self.data[key]
''', '''        array = self.data[self._datakey(ch)]

        if part is not None:
            return self._part(array, part)

        effective = nof if nof in ('nan', 'filter', 'ignore') else self.nof
        return self._apply_nof(array, effective)

    def _part(self, array, part):
        """Return the section of array for the True part part."""
        try:
            section = self._cached_slicelist[part]
        except IndexError:
            raise IndexError('{} is out of parts range'.format(part))
        return array[section]

    def _apply_nof(self, array, nof):
        """Return array treated according to nof."""
        if nof == 'nan':
            return datautils.masked(array, self.mask)
        if nof == 'filter':
            return array[self.mask]
        if nof and nof != 'ignore':
            raise ValueError('nof = ' + repr(nof))
        return array
'''))

trial('records-rewrite', 'C09,C08', P, ('''        keys = sorted(self.names)
        names = [self.names[key] for key in keys]
        if fallback:
            keys = sorted(self.data)
            names = [self.FALLBACK_PREFIX + str(key) for key in keys]
''', '''        if fallback:
            keys = sorted(self.data)
            names = ['{}{}'.format(self.FALLBACK_PREFIX, key)
                     for key in keys]
        else:
            keys = sorted(self.names)
            names = [self.names[key] for key in keys]
'''), ('''        for record in map(Record._make, zip(*[self(key, part=part, nof=nof)
                                              for key in keys])):
            yield record
''', '''        columns = []
        for key in keys:
            columns.append(self(key, part=part, nof=nof))
        for values in zip(*columns):
            yield Record(*values)
'''))

trial('datakey-rewrite', 'C07,C02,C08', P, ('''        for key, name in self.names.items():
            if ch == name:
                if key not in self.data:
                    fmt = '{} value in names with key {} but {} not in data'
                    raise KeyError(fmt.format(name, key, key))
                return key

        # not in data, not a good name in names, last chance is a
        # fallback string

        prefix_rx = re.escape(self.FALLBACK_PREFIX) + r'(\\d+)\\Z'
        m = re.match(prefix_rx, ch)

        if m:
            key = int(m.group(1))
            if key in self.data:
                return key

        raise KeyError(ch)
''', '''        named = [key for key, name in self.names.items() if ch == name]
        if named:
            key = named[0]
            if key in self.data:
                return key
            raise KeyError('{0} value in names with key {1} but {1} '
                           'not in data'.format(ch, key))

        m = re.match('(?:%s)(\\\\d+)\\\\Z' % re.escape(self.FALLBACK_PREFIX), ch)
        key = int(m.group(1)) if m is not None else None
        if key is None or key not in self.data:
            raise KeyError(ch)
        return key
'''))

trial('datakey-fullmatch', 'C08', P, ('''        prefix_rx = re.escape(self.FALLBACK_PREFIX) + r'(\\d+)\\Z'
        m = re.match(prefix_rx, ch)
''', '''        m = re.fullmatch(re.escape(self.FALLBACK_PREFIX) + r'(\\d+)', ch)
'''))

trial('duration-rewrite', 'C05,C04,C02', P, ('''        for sc in self._cached_slicelist:
            part_duration = sc.stop - sc.start
            if part_duration < req_duration and mindur:
                self.mask[sc] = False
            elif part_duration > req_duration and not mindur:
                self.mask[sc] = False
''', '''        def refused(section):
            size = section.stop - section.start
            return size < req_duration if mindur else size > req_duration

        for section in filter(refused, self._cached_slicelist):
            self.mask[section] = False
'''))

trial('duration-newmask', 'C05,C04,C02', P, ('''        for sc in self._cached_slicelist:
            part_duration = sc.stop - sc.start
            if part_duration < req_duration and mindur:
                self.mask[sc] = False
            elif part_duration > req_duration and not mindur:
                self.mask[sc] = False
''', '''        keep = []
        for sc in self._cached_slicelist:
            if mindur:
                ok = sc.stop - sc.start >= req_duration
            else:
                ok = sc.stop - sc.start <= req_duration
            if ok:
                keep.append(sc)
            else:
                self.mask[sc.start:sc.stop] = False
'''), ('''        # need to reset _cached_slicelist because the __setattr__ is not called
        # when mask is manipulated this way
        self._cached_slicelist = self._slicelist()

        return self.mask
''', '''        self._cached_slicelist = keep

        return self.mask
'''))

trial('setattr-dispatch', 'C01,C02,C05,C06,C11,C10', P, ('''        elif name == 'mask' and not isinstance(value, np.ndarray):
            raise TypeError('Expected a numpy array')
        elif name == 'mask':
            object.__setattr__(self, name, value)
            self._cached_slicelist = self._slicelist()
            if self.mindur is not None:
                self.duration(self.mindur, samplerate=1, mindur=True)
        elif name == 'mindur' and not ((value is None)
                                       or isinstance(value, int)):
            raise TypeError('Expected None or int')
        elif name == 'mindur':
            object.__setattr__(self, name, value)
            if self.mindur is not None:
                self.duration(self.mindur, samplerate=1, mindur=True)
''', '''        elif name == 'mask':
            if not isinstance(value, np.ndarray):
                raise TypeError('Expected a numpy array')
            super(ChannelPack, self).__setattr__(name, value)
            self._cached_slicelist = self._slicelist()
            self._apply_mindur()
        elif name == 'mindur':
            if value is not None and not isinstance(value, int):
                raise TypeError('Expected None or int')
            super(ChannelPack, self).__setattr__(name, value)
            self._apply_mindur()
'''), ('''    def __delattr__(self, name):''', '''    def _apply_mindur(self):
        if self.mindur is None:
            return
        self.duration(self.mindur, samplerate=1, mindur=True)

    def __delattr__(self, name):'''))

trial('setattr-prop', 'C01,C02,C05,C11', P, ('''            self.mask = np.full(len(self.data[lowest]), True)''',
 '''            self.mask = np.ones(self.data[lowest].shape, dtype=bool)'''),
 ('''            lowest = sorted(self.data)[0]''',
  '''            lowest = min(self.data)'''))

trial('maskreset-ternary', 'C01,C02,C05,C10', P, ('''        if not self.data:
            self.mask = np.array([], dtype=bool)
        else:
            lowest = sorted(self.data)[0]
            self.mask = np.full(len(self.data[lowest]), True)
''', '''        size = len(self.data[min(self.data)]) if self.data else 0
        self.mask = np.array([True] * size, dtype=bool)
'''))

trial('append-rewrite', 'C07,C10', P, ('''        if self.data and other.data:
            if not set(self.data.keys()) == set(other.data.keys()):
                raise ValueError('Data dicts set of keys not equal')

        if self.names and other.names:
            if not set(self.names.keys()) == set(other.names.keys()):
                raise ValueError('names dicts set of keys not equal')

        if not self.data:
            self.data = NpDict(other.data)
        elif other.data:
            for key in other.data:
                self.data[key] = np.append(self.data[key], other.data[key])
''', '''        for attr in ('data', 'names'):
            mine, theirs = getattr(self, attr), getattr(other, attr)
            if mine and theirs and set(mine) != set(theirs):
                raise ValueError(attr + ' dicts set of keys not equal')

        if not self.data:
            self.data = NpDict(other.data)
        else:
            for key, array in other.data.items():
                self.data[key] = np.concatenate((self.data[key], array))
'''))

trial('npdict-helper', 'C11,C07,C10', P, ('''        array = np.array(value, copy=False)
        self._check_raise_ndim(array, value)
        super(NpDict, self).__setitem__(key, array)
''', '''        super(NpDict, self).__setitem__(key, self._flat(value))

    def _flat(self, value):
        array = np.asarray(value)
        self._check_raise_ndim(array, value)
        return array
'''), ('''        array = np.array(value, copy=False)
        self._check_raise_ndim(array, value)
        return super(NpDict, self).setdefault(key, array)
''', '''        return super(NpDict, self).setdefault(key, self._flat(value))
'''), ('''                array = np.array(args[0][key], copy=False)
                self._check_raise_ndim(array, args[0][key])
                proxydict[key] = array
''', '''                proxydict[key] = self._flat(args[0][key])
'''), ('''            array = np.array(value, copy=False)
            self._check_raise_ndim(array, value)
            proxykwargs[key] = array
''', '''            proxykwargs[key] = self._flat(value)
'''))

trial('intkey-helper', 'C11,C10', P, ('''        if args and isinstance(args[0], dict):
            for key in args[0]:
                if not isinstance(key, int):
                    raise TypeError(self._key_error_message(key))

        elif''', '''        if args and isinstance(args[0], dict):
            self._check_keys(args[0])

        elif'''), ('''        for key, value in kwargs.items():
            if not isinstance(key, int):
                raise TypeError(self._key_error_message(key))

        super(IntKeyDict, self).update(*args, **kwargs)
''', '''        self._check_keys(kwargs)

        super(IntKeyDict, self).update(*args, **kwargs)

    def _check_keys(self, keys):
        bad = [key for key in keys if not isinstance(key, int)]
        if bad:
            raise TypeError(self._key_error_message(bad[0]))
'''))

trial('name-rewrite', 'C07,C08', P, ('''        if not firstwordonly:
            return self.names[key]
        elif firstwordonly is True:
            return self.names[key].split()[0]
        elif type(firstwordonly) is str:
            mlist = re.findall(firstwordonly, self.names[key])
            if mlist:
                return mlist[0]
            raise ValueError('No match with regex: {}'.format(firstwordonly))
        else:
            raise TypeError(firstwordonly)
''', '''        if not firstwordonly:
            return self.names[key]
        if firstwordonly is True:
            first, *_rest = self.names[key].split()
            return first
        if type(firstwordonly) is not str:
            raise TypeError(firstwordonly)
        found = re.findall(firstwordonly, self.names[key])
        if not found:
            raise ValueError(f'No match with regex: {firstwordonly}')
        return found[0]
'''))

# ---- text ----

trial('linetuples-funcs', 'C12,C13,C14,C15,C16,C17,C18', T, ('''    funcs = []
    for val in firstvals:
        try:
            float(val)          # works with bytes too
            funcs.append(maybenan)
            continue
        except ValueError:
            pass
        try:
            if not bytehint:
                float(val.replace(',', '.'))  # test
                funcs.append(_floatit)
            else:
                float(val.replace(b',', b'.'))  # test
                funcs.append(_floatit_bytes)
            continue
        except ValueError:
            if not stripstrings:
                if type(bytehint) is not str:
                    funcs.append(as_is)
                else:
                    funcs.append(as_is_decode)
            else:
                if type(bytehint) is not str:
                    funcs.append(as_is_stripped)
                else:
                    funcs.append(as_is_stripped_decode)
''', '''    decode = type(bytehint) is str
    if stripstrings:
        textfunc = as_is_stripped_decode if decode else as_is_stripped
    else:
        textfunc = as_is_decode if decode else as_is
    commafunc = _floatit_bytes if bytehint else _floatit

    def choose(val):
        for func in (maybenan, commafunc):
            try:
                func(val) if val else float(val)
            except ValueError:
                continue
            return func
        return textfunc

    funcs = [choose(val) for val in firstvals]
'''))

trial('linetuples-pick', 'C12,C13,C14,C15,C16,C17,C18,C19', T, ('''    yield tuple(func(val) for func, val, col in
                zip(funcs, firstvals, allcols) if col in usecols)

    for line in fo:
        stripped = line.strip(stripchars)
        if not stripped:
            continue
        yield tuple(func(val) for func, val, col in
                    zip(funcs, stripped.split(delimiter), allcols)
                    if col in usecols)
''', '''    def convert(vals):
        out = []
        for col, (func, val) in enumerate(zip(funcs, vals)):
            if col in usecols:
                out.append(func(val))
        return tuple(out)

    yield convert(firstvals)

    for line in fo:
        stripped = line.strip(stripchars)
        if stripped:
            yield convert(stripped.split(delimiter))
'''))

trial('linetuples-strip', 'C12,C13,C14,C15', T, ('''    if not bytehint:
        stripchars = string.whitespace
        if delimiter:
            stripchars = stripchars.replace(delimiter, '')
    elif bytehint:
        stripchars = string.whitespace.encode('ascii')
        # assuming delimiter is bytes or None
        if delimiter:
            stripchars = stripchars.replace(delimiter, b'')
''', '''    stripchars = string.whitespace
    nothing = ''
    if bytehint:
        stripchars = stripchars.encode('ascii')
        nothing = b''
    if delimiter:
        stripchars = stripchars.replace(delimiter, nothing)
'''))

trial('textpack-datadict', 'C12,C13,C14,C16,C17,C18', T, ('''        if hasnames and usecols is not None:
            for col, name in zip(usecols, next(linetupler)):
                names[col] = name
        elif hasnames:
            for col, name in enumerate(next(linetupler)):
                names[col] = name

        if not debugoutput:
            if usecols is not None:
                return {col: data for col, data
                        in zip(usecols, zip(*linetupler))}
            else:
                return {col: data for col, data
                        in enumerate(zip(*linetupler))}
''', '''        def numbered(seq):
            if usecols is None:
                return enumerate(seq)
            return zip(usecols, seq)

        if hasnames:
            names.update(numbered(next(linetupler)))

        if not debugoutput:
            return dict(numbered(zip(*linetupler)))
'''))

trial('textpack-islice', 'C12,C13,C16,C17', T, ('''import io
import locale''', '''import io
import itertools
import locale'''), ('''        for i in range(skiprows):
            fo.readline()
        packdict''', '''        left = skiprows
        while left > 0:
            fo.readline()
            left -= 1
        packdict'''))

trial('preparse-helper', 'C17,C18,C19', T, ('''        # rx to search for data separator on the line:
        dsep_rx = nodigsrx.join(map(_escape, dnumbersline))
        csep_rx = nodigsrx.join(map(_escape, cnumbersline))

        dsepmatch = re.search(dsep_rx, line)
        if dsepmatch:
            dsepsline = dsepmatch.groups()
        else:
            dsepsline = ()

        csepmatch = re.search(csep_rx, line)
        if csepmatch:
            csepsline = csepmatch.groups()
        else:
            csepsline = ()

        # if there are seps that include both non-whites and some
        # whitespace, it is probably better to strip off the whitespace
        dsepsline = [sep.strip() if sep.strip() else sep for sep in dsepsline]
        csepsline = [sep.strip() if sep.strip() else sep for sep in csepsline]
''', '''        dsepsline = _separators(line, dnumbersline, nodigsrx)
        csepsline = _separators(line, cnumbersline, nodigsrx)
'''), ('''def preparse(lines,''', '''def _separators(line, numbers, nodigsrx):
    """Return what stands between the numbers on the line."""
    m = re.search(nodigsrx.join(_escape(n) for n in numbers), line)
    if m is None:
        return []
    return [sep.strip() or sep for sep in m.groups()]


def preparse(lines,'''))

trial('preparse-counts', 'C17,C18,C19', T, ('''    for i, triplet in enumerate(reversed(validcounts)):
        if triplet.septypcnt != exp_septypcnt:
            break
        elif triplet.septypcnt == 0 and triplet.numcnt == 0:
            break
    else:
        i = len(validcounts)  # there was no seps != 1, assume first line

    # normal_i = len - rev_i - 1
    startline = len(validcounts) - i  # not - 1 because just passed the line
    if exp_septypcnt == 1:
        delimiter = flag == 'd' and dresults[-1][1][-1] or cresults[-1][1][-1]
    else:
        delimiter = None
    converters = (flag == 'c' and {column: _floatit for column
                                   in range(validcounts[-1].numcnt)} or None)
''', '''    def isdata(triplet):
        if triplet.septypcnt != exp_septypcnt:
            return False
        return triplet.septypcnt != 0 or triplet.numcnt != 0

    startline = len(validcounts)
    while startline > 0 and isdata(validcounts[startline - 1]):
        startline -= 1

    delimiter = None
    if exp_septypcnt == 1:
        results = dresults if flag == 'd' else cresults
        delimiter = results[-1][1][-1]
    converters = None
    if flag == 'c':
        converters = dict.fromkeys(range(validcounts[-1].numcnt), _floatit)
'''))

trial('lazy-helper', 'C17,C18,C19', T, ('''        if context.bytehint:
            derived = preparse([fo.readline().decode(encoding)
                                for i in range(parselines)])
''', '''        lines = [fo.readline() for i in range(parselines)]
        if context.bytehint:
            lines = [line.decode(encoding) for line in lines]
        derived = preparse(lines)
        if context.bytehint:
'''), ('''                for key in derived['converters']:
                    derived['converters'][key] = _floatit_bytes
        else:
            derived = preparse([fo.readline() for i in range(parselines)])
        fo.seek(start)''', '''                derived['converters'] = {key: _floatit_bytes for key in
                                         derived['converters']}
        fo.seek(start)'''), ('''            for key in list(derived.get('names', {})):  # no names no loop
                if key not in usecols:
                    derived['names'].pop(key, None)
''', '''            if 'names' in derived:
                derived['names'] = {key: name for key, name in
                                    derived['names'].items()
                                    if key in usecols}
'''))

trial('floatit', 'C12,C13,C15,C16,C17', T, ('''    return float(s.replace(',', '.')) if s else np.nan
''', '''    if not s:
        return np.nan
    return float('.'.join(s.split(',')))
'''), ('''    return float(b.replace(b',', b'.')) if b else np.nan
''', '''    if len(b) == 0:
        return np.nan
    return float(b.translate(bytes.maketrans(b',', b'.')))
'''))

# ---- dbf ----

_conv = '''            if typ == b'N':
                value = value.replace(b'\\0', b'').lstrip()
                if value == b'':
                    value = np.nan
                elif deci:
                    value = float(value)
                else:
                    value = int(value)
            elif typ == b'D':
                if value.strip():
                    y, m, d = int(value[:4]), int(value[4:6]), int(value[6:8])
                    value = datetime.date(y, m, d)
                else:
                    value = None
            elif typ == b'L':
                value = ((value in b'YyTt' and 'T')
                         or (value in b'NnFf' and 'F') or '?')
            elif typ == b'F':
                if value.strip():
                    value = float(value)
                else:
                    value = np.nan
            else:
                value = value.decode('ascii')  # type = 'C' or other type
            result.append(value)
'''
_convfn = '''def _fieldvalue(typ, deci, value):
    """Return the python value of the field bytes."""
    if typ == b'N':
        digits = value.replace(b'\\0', b'').lstrip()
        if not digits:
            return np.nan
        return float(digits) if deci else int(digits)
    if typ == b'D':
        if not value.strip():
            return None
        return datetime.date(int(value[:4]), int(value[4:6]),
                             int(value[6:8]))
    if typ == b'L':
        if value in b'YyTt':
            return 'T'
        return 'F' if value in b'NnFf' else '?'
    if typ == b'F':
        return float(value) if value.strip() else np.nan
    return value.decode('ascii')


def dbfreader(f):
'''
trial('dbf-helper', 'C20,C21', B, (_conv, '''            result.append(_fieldvalue(typ, deci, value))
'''), (_conv.replace('typ ==', 'sf.typ ==').replace(
    'elif deci', 'elif sf.deci'), '''            result.append(_fieldvalue(sf.typ, sf.deci, value))
'''), ('def dbfreader(f):\n', _convfn))

trial('dbf-header-helper', 'C20,C21', B, ('''    fields = []
    for fieldno in range(numfields):
        name, typ, size, deci = struct.unpack('<11sc4xBB14x', f.read(32))
        name = name.replace(b'\\0', b'')       # eliminate NULs from string
        name = name.decode('ascii')
        fields.append((name, typ, size, deci))
''', '''    fields = list(_descriptors(f, numfields))
'''), ('''    for fieldno in range(numfields):
        name, typ, size, deci = struct.unpack('<11sc4xBB14x', f.read(32))
        name = name.replace(b'\\0', b'')       # eliminate NULs from string
        name = name.decode('ascii')
        fmt = str(size) + 's'
''', '''    for fieldno, (name, typ, size, deci) in enumerate(
            _descriptors(f, numfields)):
        fmt = '{}s'.format(size)
'''), ('def dbfreader(f):\n', '''def _descriptors(f, count):
    unpack = struct.Struct('<11sc4xBB14x').unpack
    for _ in range(count):
        name, typ, size, deci = unpack(f.read(32))
        yield name.replace(b'\\0', b'').decode('ascii'), typ, size, deci


def dbfreader(f):
'''))

trial('dbf-whole-record', 'C20,C21', B, ('''        refaddr = f.tell()
        record = []
        for field in selfields:
            f.seek(refaddr + field.seekme)
            record.append(struct.unpack(field.fmt, f.read(field.fmtsiz))[0])
        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
''', '''        raw = f.read(fields[-1].seekme + fields[-1].fmtsiz)
        record = [raw[field.seekme:field.seekme + field.fmtsiz]
                  for field in selfields]
'''))

trial('dbf-pack', 'C20,C21', B, ('''        data = {i: column for i, column in enumerate(columns)}
        chnames = {i: name for i, name in enumerate(fieldnames)}
''', '''        data = dict(enumerate(columns))
        chnames = dict(enumerate(fieldnames))
'''), ('''    chnames = {}
    for i, name in enumerate(allnames):
        if name in names:
            chnames[i] = name  # duplicates possible

    data = {i: column for i, column in zip(sorted(chnames), columns)}
''', '''    chnames = {i: name for i, name in enumerate(allnames) if name in names}
    data = dict(zip(sorted(chnames), columns))
'''))

# ---- spread sheets ----

trial('xl-cellref', 'C22,C23,C24', X, ('''    m = re.match(r'([A-Za-z]+)(\\d*)', xladdr)
    if not m:
        raise ValueError('Invalid notation:', xladdr)
    if not m.group(2):
        return CellRef(row, letter2num(m.group(1)))
    else:
        rownotation = int(m.group(2))
        if rownotation < 1:
            raise ValueError('Invalid notation:', xladdr)
        return CellRef(rownotation - 1, letter2num(m.group(1)))
''', '''    m = re.match(r'(?P<letters>[A-Za-z]+)(?P<digits>[0-9]*)', xladdr)
    if m is None:
        raise ValueError('Invalid notation:', xladdr)
    letters, digits = m.group('letters', 'digits')
    if digits:
        row = int(digits) - 1
        if row < 0:
            raise ValueError('Invalid notation:', xladdr)
    return CellRef(row=row, col=letter2num(letters))
'''))

trial('xl-letter2num', 'C22,C23,C24', X, ('''    letters = letters.upper()
    res = 0
    weight = len(letters) - 1
    assert weight >= 0, letters
    for i, c in enumerate(letters):
        assert 65 <= ord(c) <= 90, c  # A-Z
        res += (ord(c) - 64) * 26**(weight - i)
    if not zbase:
        return res
    return res - 1''', '''    assert letters, letters
    res = 0
    for c in letters.upper():
        assert 'A' <= c <= 'Z', c
        res = res * 26 + ord(c) - ord('A') + 1
    return res - 1 if zbase else res'''))

trial('xl-letter2num-index', 'C22,C24', X, ('''    letters = letters.upper()
    res = 0
    weight = len(letters) - 1
    assert weight >= 0, letters
    for i, c in enumerate(letters):
        assert 65 <= ord(c) <= 90, c  # A-Z
        res += (ord(c) - 64) * 26**(weight - i)
    if not zbase:
        return res
    return res - 1''', '''    alphabet = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    digits = [alphabet.find(c) + 1 for c in letters.upper()]
    assert digits and all(digits), letters
    res = sum(d * 26 ** i for i, d in enumerate(reversed(digits)))
    return res - int(bool(zbase))'''))

trial('xl-columns-helper', 'C22,C23,C24', X, ('''        else:
            vals = []
            for value, typ in zip(values, types):
                if typ == xlrd.XL_CELL_DATE:
                    value = xlrd.xldate_as_datetime(value, datemode)
                elif typ in missingtypes:
                    value = None
                elif typ == xlrd.XL_CELL_BOOLEAN:
                    value = value == 1
                vals.append(value)
''', '''        else:
            vals = [_cellvalue(value, typ, datemode, missingtypes)
                    for value, typ in zip(values, types)]
'''), ('''def sheet_columns(ws,''', '''def _cellvalue(value, typ, datemode, missingtypes):
    if typ in missingtypes:
        return None
    if typ == xlrd.XL_CELL_DATE:
        return xlrd.xldate_as_datetime(value, datemode)
    return bool(value == 1) if typ == xlrd.XL_CELL_BOOLEAN else value


def sheet_columns(ws,'''))

trial('xl-columns-cells', 'C22,C23,C24', X, ('''        values = ws.col_values(colnum, start_rowx=startref.row,
                               end_rowx=stopref.row + 1)
        types = ws.col_types(colnum, start_rowx=startref.row,
                             end_rowx=stopref.row + 1)
        typeset = set(types)
''', '''        cells = ws.col_slice(colnum, startref.row, stopref.row + 1)
        values = [cell.value for cell in cells]
        types = [cell.ctype for cell in cells]
        typeset = set(types)
'''), ('not typeset - numericset', 'typeset <= numericset'),
 ('not typeset - textset', 'typeset.issubset(textset)'))

trial('xl-sheetpack', 'C22,C23,C24', X, ('''        if header is True:
            names = [ws.cell_value(startref.row, col) for col in usecols]
            startref = cellreference(startref.row + 1, startref.col)
        elif type(header) is str:
            nameref = cellreference(xladdr=header)
            names = [ws.cell_value(nameref.row, col) for col in usecols]
''', '''        namerow = None
        if header is True:
            namerow = startref.row
            startref = startref._replace(row=namerow + 1)
        elif type(header) is str:
            namerow = cellreference(xladdr=header).row
        if namerow is not None:
            names = [ws.cell(namerow, col).value for col in usecols]
'''), ('''        try:
            ws = wb.sheet_by_index(sheet)
        except TypeError:
            ws = wb.sheet_by_name(sheet)
''', '''        if isinstance(sheet, str):
            ws = wb.sheet_by_name(sheet)
        else:
            ws = wb.sheet_by_index(sheet)
'''))

trial('xl-normalize', 'C22,C24', X, ('''    columns = []
    for pattern in patterns:
        if ':' in pattern:
            c1, c2 = pattern.split(':')
            columns += list(range(letter2num(c1), letter2num(c2) + 1))
        else:
            columns.append(letter2num(pattern))

    return sorted(columns)
''', '''    columns = []
    for pattern in patterns:
        first, colon, last = pattern.partition(':')
        low = letter2num(first)
        high = letter2num(last) if colon else low
        columns.extend(range(low, high + 1))

    columns.sort()
    return columns
'''))

# ---- xlrd ----

trial('xldate-datetime', 'C25,C24', XD, ('''    if datemode:
        epoch = epoch_1904
    else:
        if xldate < 60:
            epoch = epoch_1900
        else:
            # Workaround Excel 1900 leap year bug by adjusting the epoch.
            epoch = epoch_1900_minus_1

    # The integer part of the Excel date stores the number of days since
    # the epoch and the fractional part stores the percentage of the day.
    days = int(xldate)
    fraction = xldate - days

    # Get the the integer and decimal seconds in Excel's millisecond resolution.
    seconds = int(round(fraction * 86400000.0))
    seconds, milliseconds = divmod(seconds, 1000)

    return epoch + datetime.timedelta(days, seconds, 0, milliseconds)
''', '''    epoch = _epoch_for(xldate, datemode)
    days = int(xldate)
    total = int(round((xldate - days) * 86400000.0))
    return epoch + datetime.timedelta(days=days, milliseconds=total)


def _epoch_for(xldate, datemode):
    if datemode:
        return epoch_1904
    return epoch_1900 if xldate < 60 else epoch_1900_minus_1
'''))

trial('xldate-tuple', 'C25', XD, ('''        # second = seconds % 60; minutes = seconds // 60
        minutes, second = divmod(seconds, 60)
        # minute = minutes % 60; hour    = minutes // 60
        hour, minute = divmod(minutes, 60)
''', '''        hour = seconds // 3600
        minute = seconds // 60 % 60
        second = seconds % 60
'''), ('''    # mp /= 16384
    mp >>= 14
    if mp >= 10:
        return ((yreg // 1461) - 4715, mp - 9, d, hour, minute, second)
    else:
        return ((yreg // 1461) - 4716, mp + 3, d, hour, minute, second)
''', '''    mp //= 16384
    year = yreg // 1461 - 4716
    month = mp + 3
    if month > 12:
        year, month = year + 1, month - 12
    return (year, month, d, hour, minute, second)
'''), ('''    if y % 4: return 0
    if y % 100: return 1
    if y % 400: return 0
    return 1
''', '''    return int(y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
'''))

trial('xldate-from', 'C25', XD, ('''    if  (day < 1 or
         (day > _days_in_month[month] and not(day == 29 and month == 2 and _leap(year)))):
''', '''    last = _days_in_month[month]
    if month == 2 and _leap(year):
        last += 1
    if not 1 <= day <= last:
'''), ('''    Yp = year + 4716
    M = month
    if M <= 2:
        Yp = Yp - 1
        Mp = M + 9
    else:
        Mp = M - 3
''', '''    shift = 1 if month <= 2 else 0
    Yp = year + 4716 - shift
    Mp = month - 3 + 12 * shift
'''))

trial('rk', 'C28', XS, ('''    flags = BYTES_ORD(rk_str[0])
    if flags & 2:
        # There's a SIGNED 30-bit integer in there!
        i,  = unpack('<i', rk_str)
        i >>= 2 # div by 4 to drop the 2 flag bits
        if flags & 1:
            return i / 100.0
        return float(i)
    else:
        # It's the most significant 30 bits of an IEEE 754 64-bit FP number
        d, = unpack('<d', b'\\0\\0\\0\\0' + BYTES_LITERAL(chr(flags & 252)) + rk_str[1:4])
        if flags & 1:
            return d / 100.0
        return d
''', '''    flags = BYTES_ORD(rk_str[0])
    if flags & 2:
        number = float(unpack('<i', rk_str)[0] >> 2)
    else:
        raw = bytes([flags & 0xFC]) + rk_str[1:4]
        number = unpack('<d', b'\\0' * 4 + raw)[0]
    return number / 100.0 if flags & 1 else number
'''))

trial('rk-ord', 'C28', XS, ('''        # It's the most significant 30 bits of an IEEE 754 64-bit FP number
        d, = unpack('<d', b'\\0\\0\\0\\0' + BYTES_LITERAL(chr(flags & 252)) + rk_str[1:4])
''', '''        bits = int.from_bytes(rk_str, 'little') & 0xFFFFFFFC
        d, = unpack('<d', pack_le64(bits << 32))
'''), ('''def unpack_RK(rk_str):
''', '''def pack_le64(value):
    return value.to_bytes(8, 'little')


def unpack_RK(rk_str):
'''))

trial('sheet-mulrk', 'C28', XS, ('''                mulrk_row, mulrk_first = local_unpack('<HH', data[0:4])
                mulrk_last, = local_unpack('<H', data[-2:])
                pos = 4
                for colx in xrange(mulrk_first, mulrk_last+1):
                    xf_index, = local_unpack('<H', data[pos:pos+2])
                    d = unpack_RK(data[pos+2:pos+6])
                    pos += 6
                    self_put_cell(mulrk_row, colx, None, d, xf_index)
''', '''                self._put_mulrk(data)
'''), ('''    def read(self, bk):
        global rc_stats
''', '''    def _put_mulrk(self, data):
        row, first = unpack('<HH', data[0:4])
        last, = unpack('<H', data[-2:])
        for i in range(last - first + 1):
            rec = data[4 + 6 * i:10 + 6 * i]
            xf_index, = unpack('<H', rec[:2])
            self.put_cell(row, first + i, None, unpack_RK(rec[2:]), xf_index)

    def read(self, bk):
        global rc_stats
'''))

trial('sheet-boolerr', 'C28', XS, ('''\n                cellty = (XL_CELL_BOOLEAN, XL_CELL_ERROR)[is_err]
''', '''\n                if is_err:
                    cellty = XL_CELL_ERROR
                else:
                    cellty = XL_CELL_BOOLEAN
'''), ('''                if result_str[6:8] == b"\\xFF\\xFF":
''', '''                if result_str.endswith(b"\\xFF\\xFF"):
'''))

trial('putcell', 'C26,C27,C28', XS, ('''            if nr <= self.nrows:
                # New cell is in an existing row, so extend that row (if necessary).
                # Note that nr < self.nrows means that the cell data
                # is not in ascending row order!!
                trow = self._cell_types[rowx]
                nextra = self.ncols - len(trow)
                if nextra > 0:
                    # self._put_cell_row_widenings += 1
                    trow.extend(self.bt * nextra)
                    if self.formatting_info:
                        self._cell_xf_indexes[rowx].extend(self.bf * nextra)
                    self._cell_values[rowx].extend([UNICODE_LITERAL('')] * nextra)
            else:
                scta = self._cell_types.append
                scva = self._cell_values.append
                scxa = self._cell_xf_indexes.append
                fmt_info = self.formatting_info
                nc = self.ncols
                bt = self.bt
                bf = self.bf
                for _unused in xrange(self.nrows, nr):
                    # self._put_cell_rows_appended += 1
                    scta(bt * nc)
                    scva([UNICODE_LITERAL('')] * nc)
                    if fmt_info:
                        scxa(bf * nc)
                self.nrows = nr
''', '''            if nr <= self.nrows:
                self._widen_row(rowx)
            else:
                while self.nrows < nr:
                    self._cell_types.append(self.bt * self.ncols)
                    self._cell_values.append([''] * self.ncols)
                    if self.formatting_info:
                        self._cell_xf_indexes.append(self.bf * self.ncols)
                    self.nrows += 1
'''), ('''    def read(self, bk):
        global rc_stats
''', '''    def _widen_row(self, rowx):
        missing = self.ncols - len(self._cell_types[rowx])
        if missing <= 0:
            return
        self._cell_types[rowx].extend(self.bt * missing)
        self._cell_values[rowx].extend([''] * missing)
        if self.formatting_info:
            self._cell_xf_indexes[rowx].extend(self.bf * missing)

    def read(self, bk):
        global rc_stats
'''))

trial('colvalues', 'C26,C23,C24', XS, ('''        nr = self.nrows
        if start_rowx < 0:
            start_rowx += nr
            if start_rowx < 0:
                start_rowx = 0
        if end_rowx is None or end_rowx > nr:
            end_rowx = nr
        elif end_rowx < 0:
            end_rowx += nr
        return [
            self._cell_values[rowx][colx]
            for rowx in xrange(start_rowx, end_rowx)
        ]
''', '''        start_rowx, end_rowx = self._row_range(start_rowx, end_rowx)
        out = []
        for rowx in range(start_rowx, end_rowx):
            out.append(self._cell_values[rowx][colx])
        return out

    def _row_range(self, start_rowx, end_rowx):
        nr = self.nrows
        if start_rowx < 0:
            start_rowx = max(0, start_rowx + nr)
        if end_rowx is None:
            end_rowx = nr
        elif end_rowx < 0:
            end_rowx += nr
        return start_rowx, min(end_rowx, nr)
'''))

trial('xlsx-cellname', 'C27,C26,C24', XX, ('''                colx = 0
                charx = -1
                try:
                    for c in cell_name.upper():
                        charx += 1
                        if c == '$':
                            continue
                        lv = letter_value[c]
                        if lv:
                            colx = colx * 26 + lv
                        else: # start of row number; can't be '0'
                            colx = colx - 1
                            assert 0 <= colx < X12_MAX_COLS
                            break
                except KeyError:
                    raise Exception('Unexpected character %r in cell name %r' % (c, cell_name))
''', '''                colx, charx = self._column_of(cell_name)
'''), ('''    def do_row(self, row_elem):
''', '''    def _column_of(self, cell_name):
        """Return the column index and where the row number starts."""
        acc = 0
        charx = -1
        for charx, c in enumerate(cell_name.upper()):
            if c == '$':
                continue
            if c not in _UPPERCASE_1_REL_INDEX:
                raise Exception('Unexpected character %r in cell name %r' % (c, cell_name))
            lv = _UPPERCASE_1_REL_INDEX[c]
            if not lv:
                assert 1 <= acc <= X12_MAX_COLS
                return acc - 1, charx
            acc = acc * 26 + lv
        return acc, charx

    def do_row(self, row_elem):
'''))

trial('xlsx-text', 'C27,C26', XX, ('''    accum = []
    for child in elem:
        # self.dump_elem(child)
        tag = child.tag
        if tag == t_tag:
            t = cooked_text(self, child)
            if t: # note: .text attribute can be None
                accum.append(t)
        elif tag == r_tag:
            for tnode in child:
                if tnode.tag == t_tag:
                    t = cooked_text(self, tnode)
                    if t:
                        accum.append(t)
''', '''    def textnodes():
        for child in elem:
            if child.tag == t_tag:
                yield child
            elif child.tag == r_tag:
                for tnode in child:
                    if tnode.tag == t_tag:
                        yield tnode

    accum = [cooked_text(self, node) for node in textnodes()]
'''), ('''    t = elem.text
    if t is None:
        return ''
    if elem.get(XML_SPACE_ATTR) != 'preserve':
        t = t.strip(XML_WHITESPACE)
    return ensure_unicode(unescape(t))
''', '''    if elem.text is None:
        return ''
    preserve = elem.get(XML_SPACE_ATTR) == 'preserve'
    text = elem.text if preserve else elem.text.strip(XML_WHITESPACE)
    return ensure_unicode(unescape(text))
'''))

trial('xlsx-styles', 'C31,C27', XX, ('''        self.fmt_is_date = {}
        for x in list(range(14, 23)) + list(range(45, 48)): #### hard-coding FIX ME ####
            self.fmt_is_date[x] = 1
''', '''        self.fmt_is_date = dict.fromkeys([14, 15, 16, 17, 18, 19, 20, 21, 22,
                                          45, 46, 47], 1)
'''), ('''        if self.xf_type != 1:
            #### ignoring style XFs for the moment
            return
        xfx = self.xf_counts[self.xf_type]
        self.xf_counts[self.xf_type] = xfx + 1
''', '''        if self.xf_type != 1:
            return
        xfx = self.xf_counts[1]
        self.xf_counts[1] += 1
'''))

trial('datefmt', 'C31,C28', XF, ('''    date_count = num_count = 0
    for c in s:
        if c in date_char_dict:
            date_count += date_char_dict[c]
        elif c in num_char_dict:
            num_count += num_char_dict[c]
        elif c == separator:
            got_sep = 1
''', '''    date_count = sum(date_char_dict.get(c, 0) for c in s)
    num_count = sum(num_char_dict.get(c, 0) for c in s
                    if c not in date_char_dict)
    got_sep = int(separator in s)
'''), ('''    state = 0
    s = ''

    for c in fmt:
        if state == 0:
            if c == UNICODE_LITERAL('"'):
                state = 1
            elif c in UNICODE_LITERAL(r"\\_*"):
                state = 2
            elif c in skip_char_dict:
                pass
            else:
                s += c
        elif state == 1:
            if c == UNICODE_LITERAL('"'):
                state = 0
        elif state == 2:
            # Ignore char after backslash, underscore or asterisk
            state = 0
        assert 0 <= state <= 2
''', '''    kept = []
    quoted = skip_next = False
    for c in fmt:
        if skip_next:
            skip_next = False
        elif c == '"':
            quoted = not quoted
        elif quoted:
            continue
        elif c in '\\\\_*':
            skip_next = True
        elif c not in skip_char_dict:
            kept.append(c)
    s = ''.join(kept)
'''))

trial('sst-helper', 'C29', XB, ('''            if options & 0x01:
                # Uncompressed UTF-16
                charsavail = local_min((datalen - pos) >> 1, charsneed)
                rawstrg = data[pos:pos+2*charsavail]
                # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
                accraw += rawstrg
                pos += 2*charsavail
            else:
                # Note: this is COMPRESSED (not ASCII!) encoding!!!
                charsavail = local_min(datalen - pos, charsneed)
                rawstrg = data[pos:pos+charsavail]
                # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
                accraw += unicode(rawstrg, latin_1).encode("utf_16_le")
                pos += charsavail
''', '''            width = 2 if options & 0x01 else 1
            charsavail = local_min((datalen - pos) // width, charsneed)
            rawstrg = data[pos:pos + width * charsavail]
            if width == 1:
                rawstrg = rawstrg.decode(latin_1).encode("utf_16_le")
            accraw += rawstrg
            pos += width * charsavail
'''))

trial('sst-class', 'C29', XB, ('''            runs = []
            for runindex in xrange(rtcount):
                if pos == datalen:
                    pos = 0
                    datainx += 1
                    data = datatab[datainx]
                    datalen = len(data)
                runs.append(local_unpack("<HH", data[pos:pos+4]))
                pos += 4
            richtext_runs[len(strings)] = runs
''', '''            runs = []
            while len(runs) < rtcount:
                if pos == datalen:
                    datainx, pos = datainx + 1, 0
                    data = datatab[datainx]
                    datalen = len(data)
                chunk = data[pos:pos + 4]
                runs.append((chunk[0] | chunk[1] << 8,
                             chunk[2] | chunk[3] << 8))
                pos += 4
            richtext_runs[len(strings)] = runs
'''))

trial('unpack-unicode', 'C28,C29', XH, ('''    if options & 0x01:
        # Uncompressed UTF-16-LE
        rawstrg = data[pos:pos+2*nchars]
        # if DEBUG: print "nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
        strg = unicode(rawstrg, 'utf_16_le')
''', '''    wide = bool(options & 0x01)
    if wide:
        end = pos + 2 * nchars
        strg = data[pos:end].decode('utf_16_le')
'''))

trial('records', 'C28,C29,C30', XB, ('''        pos = self._position
        mem = self.mem
        code, length = unpack('<HH', mem[pos:pos+4])
        pos += 4
        data = mem[pos:pos+length]
        self._position = pos + length
        return (code, length, data)

    def get_record_parts_conditional''', '''        code, length = unpack('<HH', self.mem[self._position:][:4])
        start = self._position + 4
        self._position = end = start + length
        return code, length, self.mem[start:end]

    def get_record_parts_conditional'''), ('''        lo, hi = buff_two
        return (BYTES_ORD(hi) << 8) | BYTES_ORD(lo)
''', '''        return unpack('<H', buff_two)[0]
'''))

trial('compdoc-locate', 'C30', XC, ('''            if s == p+1:
                # contiguous sectors
                end_pos += sec_size
            else:
                # start new slice
                if p >= 0:
                    # not first time
                    slices.append((start_pos, end_pos))
                start_pos = base + s * sec_size
                end_pos = start_pos + sec_size
            p = s
            s = sat[s]
        assert s == EOCSID
        assert tot_found == found_limit
        # print >> self.logfile, "_locate_stream(%s): seen" % qname; dump_list(self.seen, 20, self.logfile)
        if not slices:
            # The stream is contiguous ... just what we like!
            return (mem, start_pos, expected_stream_size)
        slices.append((start_pos, end_pos))
        # print >> self.logfile, "+++>>> %d fragments" % len(slices)
        return (b''.join(mem[start_pos:end_pos] for start_pos, end_pos in slices), 0, expected_stream_size)
''', '''            begin = base + s * sec_size
            if slices and slices[-1][1] == begin:
                slices[-1][1] += sec_size
            else:
                slices.append([begin, begin + sec_size])
            s = sat[s]
        assert s == EOCSID
        assert tot_found == found_limit
        if len(slices) == 1:
            return (mem, slices[0][0], expected_stream_size)
        pieces = []
        for begin, end in slices:
            pieces.append(mem[begin:end])
        return (b''.join(pieces), 0, expected_stream_size)
'''))

trial('compdoc-stream', 'C30', XC, ('''                start_pos = base + s * sec_size
                grab = sec_size
                if grab > todo:
                    grab = todo
                todo -= grab
                sectors.append(mem[start_pos:start_pos+grab])
''', '''                start_pos = base + s * sec_size
                grab = min(sec_size, todo)
                sectors.append(mem[start_pos:start_pos+grab])
                todo -= grab
'''), ('''            while sid >= 0 and nsecs > 0:
                if seen[sid]:
                    raise CompDocError("SSAT corruption: seen[%d] == %d" % (sid, seen[sid]))
                seen[sid] = 5
                nsecs -= 1
                start_pos = 512 + sid * sec_size
                news = list(unpack(fmt, mem[start_pos:start_pos+sec_size]))
                self.SSAT.extend(news)
                sid = self.SAT[sid]
''', '''            while sid >= 0 and nsecs > 0:
                if seen[sid]:
                    raise CompDocError("SSAT corruption: seen[%d] == %d" % (sid, seen[sid]))
                seen[sid] = 5
                nsecs -= 1
                start_pos = 512 + sid * sec_size
                self.SSAT += unpack(fmt, mem[start_pos:start_pos+sec_size])
                sid = self.SAT[sid]
'''), ('''    for child in dl[storage_DID].children:''', '''    for child in iter(dl[storage_DID].children):'''))

trial('note-frombytes', 'C34', XS, ('''        o.rowx, o.colx, option_flags, o._object_id = unpack('<4H', data[:8])
        o.show = (option_flags >> 1) & 1
        o.row_hidden = (option_flags >> 7) & 1
        o.col_hidden = (option_flags >> 8) & 1
''', '''        words = [int.from_bytes(data[i:i + 2], 'little') for i in range(0, 8, 2)]
        o.rowx, o.colx, option_flags, o._object_id = words
        for attr, bit in (('show', 1), ('row_hidden', 7), ('col_hidden', 8)):
            setattr(o, attr, int(bool(option_flags & (1 << bit))))
'''), ('''        txo = txos.get(o._object_id)
        if txo:
            o.text = txo.text
            o.rich_text_runlist = txo.rich_text_runlist
            self.cell_note_map[o.rowx, o.colx] = o
''', '''        if o._object_id not in txos:
            return
        txo = txos[o._object_id]
        o.text, o.rich_text_runlist = txo.text, txo.rich_text_runlist
        self.cell_note_map.update({(o.rowx, o.colx): o})
'''))

trial('note-old-helper', 'C34', XS, ('''            nb = len(data) - 6
            assert nb <= expected_bytes
            pieces = [data[6:]]
            expected_bytes -= nb
            while expected_bytes > 0:
                rc2, data2_len, data2 = self.book.get_record_parts()
                assert rc2 == XL_NOTE
                dummy_rowx, nb = unpack('<H2xH', data2[:6])
                assert dummy_rowx == 0xFFFF
                assert nb == data2_len - 6
                pieces.append(data2[6:])
                expected_bytes -= nb
            assert expected_bytes == 0
            enc = self.book.encoding or self.book.derive_encoding()
            o.text = unicode(b''.join(pieces), enc)
''', '''            raw = self._note_bytes(data, expected_bytes)
            enc = self.book.encoding or self.book.derive_encoding()
            o.text = raw.decode(enc)
'''), ('''    def handle_note(self, data, txos):
''', '''    def _note_bytes(self, data, expected_bytes):
        raw = data[6:]
        assert len(raw) <= expected_bytes
        while len(raw) < expected_bytes:
            rc2, data2_len, data2 = self.book.get_record_parts()
            assert rc2 == XL_NOTE
            dummy_rowx, nb = unpack('<H2xH', data2[:6])
            assert dummy_rowx == 0xFFFF and nb == data2_len - 6
            raw += data2[6:]
        assert len(raw) == expected_bytes
        return raw

    def handle_note(self, data, txos):
'''))

trial('hlink-helpers', 'C34', XS, ('''            uc = unicode(buf[ofs:ofs+nb], 'UTF-16le')[:-1]
            ofs += nb
            return uc, ofs
''', '''            end = ofs + nb
            return buf[ofs:end].decode('utf_16_le')[:-1], end
'''), ('''                endpos = h.url_or_path.find('\\x00')
                if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
                h.url_or_path = h.url_or_path[:endpos]
''', '''                h.url_or_path = h.url_or_path.partition('\\x00')[0]
'''), ('''        for rowx in xrange(h.frowx, h.lrowx+1):
            for colx in xrange(h.fcolx, h.lcolx+1):
                self.hyperlink_map[rowx, colx] = h
''', '''        rows = range(h.frowx, h.lrowx + 1)
        cols = range(h.fcolx, h.lcolx + 1)
        self.hyperlink_map.update(dict.fromkeys(
            [(rowx, colx) for rowx in rows for colx in cols], h))
'''))

trial('hlink-offsets', 'C34', XS, ('''        h.frowx, h.lrowx, h.fcolx, h.lcolx, guid0, dummy, options = unpack('<HHHH16s4si', data[:32])
''', '''        h.frowx, h.lrowx, h.fcolx, h.lcolx = unpack('<4H', data[:8])
        guid0, dummy = data[8:24], data[24:28]
        options = int.from_bytes(data[28:32], byteorder='little', signed=True)
'''), ('''                uplevels, nbytes = unpack("<Hi", data[offset:offset + 6])
                offset += 6
                shortpath = b"..\\\\" * uplevels + data[offset:offset + nbytes - 1] #### BYTES, not unicode
''', '''                uplevels = unpack("<H", data[offset:offset + 2])[0]
                nbytes = unpack("<i", data[offset + 2:offset + 6])[0]
                offset += 6
                shortpath = b"".join([b"..\\\\"] * uplevels + [data[offset:offset + nbytes][:-1]])
'''))

trial('font-bits', 'C36,C28', XF, ('''        f.bold = option_flags & 1
        f.italic = (option_flags & 2) >> 1
        f.underlined = (option_flags & 4) >> 2
        f.struck_out = (option_flags & 8) >> 3
        f.outline = (option_flags & 16) >> 4
        f.shadow = (option_flags & 32) >> 5
''', '''        for bit, attr in enumerate(('bold', 'italic', 'underlined',
                                    'struck_out', 'outline', 'shadow')):
            setattr(f, attr, (option_flags >> bit) & 1)
'''), ('''        f.weight = [400, 700][f.bold]
''', '''        f.weight = 700 if f.bold else 400
'''))

trial('font-divmod', 'C36', XF, ('''        f.bold = option_flags & 1
        f.italic = (option_flags & 2) >> 1
        f.underlined = (option_flags & 4) >> 2
        f.struck_out = (option_flags & 8) >> 3
        f.outline = (option_flags & 16) >> 4
        f.shadow = (option_flags & 32) >> 5
''', '''        rest, f.bold = divmod(option_flags, 2)
        rest, f.italic = divmod(rest, 2)
        rest, f.underlined = divmod(rest, 2)
        rest, f.struck_out = divmod(rest, 2)
        rest, f.outline = divmod(rest, 2)
        f.shadow = rest % 2
'''))

trial('upkbits-shift', 'C36,C34,C28', XH, ('''        local_setattr(tgt_obj, attr, (src & mask) >> n)
''', '''        value = (src >> n) & (mask >> n)
        local_setattr(tgt_obj, attr, value)
'''), ('''        local_setattr(tgt_obj, attr, local_int((src & mask) >> n))
''', '''        tgt_obj.__dict__[attr] = local_int((src & mask) // (1 << n))
'''))

trial('row-setdefault', 'C36', XS, ('''                    r.height = bits1 & 0x7fff
                    r.has_default_height = (bits1 >> 15) & 1
''', '''                    r.has_default_height, r.height = divmod(bits1, 0x8000)
'''), ('''                    r.xf_index = (bits2 >> 16) & 0xfff
''', '''                    r.xf_index = (bits2 & 0x0fff0000) >> 16
'''), ('''                r = rowinfo_sharing_dict.get(key)
                if r is None:
                    rowinfo_sharing_dict[key] = r = Rowinfo()
                    # Using''', '''                try:
                    r = rowinfo_sharing_dict[key]
                except KeyError:
                    r = Rowinfo()
                    rowinfo_sharing_dict[key] = r
                    # Using'''))

trial('row-helper', 'C36', XS, ('''                key = (bits1, bits2)
                r = rowinfo_sharing_dict.get(key)
                if r is None:
                    rowinfo_sharing_dict[key] = r = Rowinfo()
''', '''                r = Rowinfo()
                if 1:
'''))

trial('names-enumerate', 'C35', XB, ('''        for namex in range(num_names):
            nobj = self.name_obj_list[namex]
            # Convert from''', '''        for nobj in self.name_obj_list:
            # Convert from'''), ('''            if name_lcase in name_map:
                name_map[name_lcase].append(sort_data)
            else:
                name_map[name_lcase] = [sort_data]
''', '''            name_map.setdefault(name_lcase, []).append(sort_data)
'''), ('''                elif 1 <= sheet_index <= len(self._all_sheets_map):
                    intl_sheet_index = self._all_sheets_map[sheet_index-1]
                    if intl_sheet_index == -1: # maps to a macro or VBA sheet
                        intl_sheet_index = -2 # valid sheet reference but not useful
                else:
                    # huh?
                    intl_sheet_index = -3 # invalid
''', '''                else:
                    try:
                        intl_sheet_index = self._all_sheets_map[sheet_index - 1]
                    except IndexError:
                        intl_sheet_index = -3
                    else:
                        intl_sheet_index = -2 if intl_sheet_index == -1 else intl_sheet_index
'''))

trial('names-sorted', 'C35', XB, ('''        for key in name_map.keys():
            alist = name_map[key]
            alist.sort()
            name_map[key] = [x[2] for x in alist]
''', '''        name_map = {key: [x[-1] for x in sorted(alist, key=lambda t: t[:2])]
                    for key, alist in name_map.items()}
'''))

trial('dbf-struct', 'C20,C21', B, ('''    fields = []
    for fieldno in range(numfields):
        name, typ, size, deci = struct.unpack('<11sc4xBB14x', f.read(32))
        name''', '''    fields = []
    entry = struct.Struct('<11sc4xBB14x')
    for name, typ, size, deci in entry.iter_unpack(f.read(32 * numfields)):
        name'''), ('''        record = struct.unpack(fmt, f.read(fmtsiz))
''', '''        record = struct.unpack_from(fmt, b'\\0' + f.read(fmtsiz), 1)
'''), ('''    numrec, lenheader = struct.unpack('<xxxxLH22x', f.read(32))
''', '''    head = f.read(32)
    numrec = int.from_bytes(head[4:8], 'little')
    lenheader = head[8] | head[9] << 8
'''))

trial('sheet-frombuffer', 'C28,C34', XS, ('''            elif rc == XL_LABELSST:
                rowx, colx, xf_index, sstindex = local_unpack('<HHHi', data)
''', '''            elif rc == XL_LABELSST:
                rowx, colx, xf_index = (int.from_bytes(data[i:i + 2], 'little')
                                        for i in (0, 2, 4))
                sstindex = int.from_bytes(data[6:], 'little', signed=True)
'''))
