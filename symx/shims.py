"""Dispatch of calls and operators made by the instrumented code."""
import builtins
import datetime
import io
import math
import mmap
import re
import struct
import weakref
import functools
from fractions import Fraction
import xml.etree.ElementTree as ET
import zipfile
import numpy as np
import z3
from . import core, values as V, arrays as A, rx
from .values import (Sym, SymBool, SymInt, SymFloat, SymStr, SymBytes,
                     SymSeq, SymDate, Ch)
from .arrays import SymArray
from .core import Unsupported

CONT = (list, tuple, set, frozenset)
BUILTIN = type(len)
METHDESC = type(str.join)
FILES = {}              # virtual files: name -> (codes, is_text)


def __sx_fn__(q):
    if core.ENG is not None:
        core.ENG.functions.add(q)


def hassym(x, depth=2):
    if isinstance(x, (Sym, SymArray)):
        return True
    if depth:
        t = type(x)
        if t in CONT:
            for y in x:
                if hassym(y, depth - 1):
                    return True
        elif t is dict:
            for k, v in x.items():
                if hassym(k, 0) or hassym(v, depth - 1):
                    return True
        elif t is slice:
            return hassym(x.start, 0) or hassym(x.stop, 0)
    return False


def __sx_is__(a, b):
    if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)):
        return bool(a == b)
    if isinstance(b, SymBool) and isinstance(a, bool):
        return bool(a == b)
    return a is b


def __sx_in__(a, b):
    if isinstance(b, (SymStr, SymBytes)):
        return b.__contains__(a)
    if isinstance(a, Sym):
        if isinstance(b, (str, bytes)):
            if isinstance(a, (SymStr, SymBytes)):
                cls = SymStr if isinstance(b, str) else SymBytes
                if not isinstance(a, cls):
                    raise TypeError("'in <string>' requires string")
                if len(a) == 1 and len(b):
                    return V.chtest(a.c[0], frozenset(cls.native_codes(b)))
                return cls(cls.native_codes(b)).__contains__(a)
            if isinstance(b, bytes) and isinstance(a, SymInt):
                return V.chtest(Ch(a.e), frozenset(b))
            raise TypeError('in <string>')
        if isinstance(b, range):
            if len(b) == 0:
                return False
            lo, hi = (b[0], b[-1]) if b.step > 0 else (b[-1], b[0])
            if isinstance(a, SymInt):
                c = z3.And(a.e >= lo, a.e <= hi,
                           (a.e - lo) % abs(b.step) == 0)
                return core.ENG.decide(z3.simplify(c))
        if isinstance(b, (dict, set, frozenset)) or _viewlike(b):
            return find_key(a, b) is not NOKEY
        if isinstance(b, (list, tuple)):
            for y in b:
                if y is a or bool(_eq(a, y)):
                    return True
            return False
    elif isinstance(b, (list, tuple)) and hassym(b, 1):
        for y in b:
            if y is a or bool(_eq(y, a)):
                return True
        return False
    elif type(a) is tuple and hassym(a, 1):
        for y in b:
            if bool(deep_eq(a, y)):
                return True
        return False
    return a in b


def _viewlike(b):
    return type(b).__name__ in ('dict_keys', 'dict_values', 'dict_items')


def _eq(a, b):
    if isinstance(b, Sym) and not isinstance(a, Sym):
        return b == a
    return a == b


def deep_eq(a, b):
    if type(a) in (list, tuple) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return V.land(*[deep_eq(x, y) for x, y in zip(a, b)])
    return _eq(a, b)


NOKEY = object()


def find_key(a, keys):
    """The concrete key of `keys` equal to symbolic a (forking), or NOKEY."""
    for k in list(keys):
        if isinstance(k, Sym) and type(k) is not type(a):
            continue
        if not comparable(a, k):
            continue
        if bool(_eq(a, k)):
            return k
    return NOKEY


def comparable(a, k):
    if isinstance(a, SymStr):
        return isinstance(k, (str, SymStr))
    if isinstance(a, SymBytes):
        return isinstance(k, (bytes, SymBytes))
    if isinstance(a, (SymInt, SymBool, SymFloat)):
        return isinstance(k, (int, float, SymInt, SymFloat, SymBool,
                              np.generic))
    return True


def __sx_slice__(a, b, c):
    return slice(a, b, c)


def __sx_get__(o, i):
    t = type(i)
    if t is slice:
        if isinstance(i.start, Sym) or isinstance(i.stop, Sym) or \
                isinstance(i.step, Sym):
            i = clip_slice(i, o)
        return o[i]
    if isinstance(i, Sym):
        if isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__:
            k = find_key(i, o)
            if k is NOKEY:
                m = getattr(type(o), '__missing__', None)
                if m is not None:
                    return o[V.conc(i)]
                raise KeyError(i)
            return dict.__getitem__(o, k)
        if isinstance(o, (list, tuple, str, bytes, range, SymSeq,
                          np.ndarray)):
            if isinstance(i, (SymInt, SymBool)):
                return o[seq_index(i, len(o))]
        return o[V.conc(i)]
    if isinstance(i, SymArray) and isinstance(o, np.ndarray):
        return o[i.realise()]
    return o[i]


def seq_index(i, n):
    """Fork a symbolic index over the valid positions of a sequence."""
    if isinstance(i, SymBool):
        return int(i)
    eng = core.ENG
    if not eng.decide(z3.simplify(z3.And(i.e >= -n, i.e < n))):
        raise IndexError('index out of range')
    return eng.realise(i.e, 4096)


def clip_slice(s, o):
    try:
        n = len(o)
    except TypeError:
        return V.conc(s)
    eng = core.ENG

    def f(v):
        if not isinstance(v, SymInt):
            return V.conc(v)
        if eng.decide(z3.simplify(v.e > n)):
            return n + 1
        if eng.decide(z3.simplify(v.e < -n)):
            return -n - 1
        return eng.realise(v.e, 4096)
    return slice(f(s.start), f(s.stop), V.conc(s.step))


def __sx_add__(a, b):
    if isinstance(b, SymSeq) and isinstance(a, (str, bytes)):
        r = b.__radd__(a)
        if r is NotImplemented:
            raise TypeError('can only concatenate')
        return r
    return a + b


def __sx_mod__(a, b):
    if isinstance(a, (str, bytes)):
        if hassym(b):
            return pct(a, b)
        return a % b
    if isinstance(a, (SymStr, SymBytes)):
        return a.conc() % V.conc(b)
    return a % b


_pct_rx = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])')


def pct(fmt, args):
    if isinstance(fmt, bytes):
        return fmt % V.conc(args)
    tup = args if isinstance(args, tuple) else (args,)
    out, last, k = '', 0, 0
    for m in _pct_rx.finditer(fmt):
        out = __sx_add__(out, fmt[last:m.start()])
        last = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out = __sx_add__(out, '%')
            continue
        if key is not None:
            v = args[key]
        else:
            v = tup[k]
            k += 1
        if not isinstance(v, Sym):
            if hassym(v):
                v = sx_repr(v)
                out = __sx_add__(out, v)
                continue
            spec = '%' + (flags or '') + (width or '') + \
                (('.' + prec) if prec else '') + conv
            out = __sx_add__(out, spec % (v,))
            continue
        if conv in 'sdiu' and not flags and not width and not prec:
            out = __sx_add__(out, sx_str(v))
        elif conv in 'rs':
            out = __sx_add__(out, sx_repr(v) if conv == 'r' else sx_str(v))
        else:
            spec = '%' + (flags or '') + (width or '') + \
                (('.' + prec) if prec else '') + conv
            out = __sx_add__(out, spec % (V.conc(v),))
    return __sx_add__(out, fmt[last:])


def __sx_fstr__(*parts):
    out = ''
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 114:
                v = sx_repr(v)
            elif conv == 115:
                v = sx_str(v)
            elif conv == 97:
                v = ascii(V.conc(v))
            if isinstance(spec, str) and spec == '':
                v = sx_str(v)
            else:
                v = format(V.conc(v), V.conc(spec))
            out = __sx_add__(out, v)
        else:
            out = __sx_add__(out, p)
    return out


def sx_str(*a):
    if not a:
        return ''
    x = a[0]
    if len(a) > 1:
        return str(V.conc(x), *a[1:])
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return V.str_of_int(x)
    if isinstance(x, Sym):
        return str(V.conc(x))
    if hassym(x):
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    if isinstance(x, SymStr):
        return SymStr.make((39,) + x.c + (39,))
    if isinstance(x, SymInt):
        return V.str_of_int(x)
    if isinstance(x, SymFloat):
        return '<float>'
    if isinstance(x, SymBytes):
        return '<bytes>'
    if isinstance(x, Sym):
        return repr(V.conc(x))
    if isinstance(x, SymArray):
        return '<array>'
    if type(x) in (list, tuple):
        out = '[' if type(x) is list else '('
        for i, y in enumerate(x):
            if i:
                out = __sx_add__(out, ', ')
            out = __sx_add__(out, sx_repr(y))
        return __sx_add__(out, ']' if type(x) is list else
                          (',)' if len(x) == 1 else ')'))
    if type(x) is dict and hassym(x):
        return '<dict>'
    return repr(x)


_fmt_rx = re.compile(r'\{\{|\}\}|\{([^{}!:]*)(?:!([rsa]))?(?::([^{}]*))?\}')


def sx_format(s, args, kwargs):
    out, last, auto = '', 0, 0
    for m in _fmt_rx.finditer(s):
        out = __sx_add__(out, s[last:m.start()])
        last = m.end()
        if m.group(0) in ('{{', '}}'):
            out = __sx_add__(out, m.group(0)[0])
            continue
        f, conv, spec = m.groups()
        if f == '':
            v = args[auto]
            auto += 1
        elif f.isdigit():
            v = args[int(f)]
        elif f in kwargs:
            v = kwargs[f]
        else:
            raise Unsupported('format field ' + f)
        if conv == 'r':
            v = sx_repr(v)
        if spec:
            v = format(V.conc(v), spec)
        out = __sx_add__(out, sx_str(v))
    return __sx_add__(out, s[last:])


# -- builtins ---------------------------------------------------------------

def pytype(x):
    if isinstance(x, Sym):
        return x.pytype
    if isinstance(x, SymArray):
        return np.ndarray
    if isinstance(x, (SymIO,)):
        return x.pytype
    return type(x)


def sx_isinstance(x, t):
    if isinstance(x, (Sym, SymArray)):
        if isinstance(t, tuple):
            return any(sx_isinstance(x, y) for y in t)
        if isinstance(t, type):
            if t is Sym or t is object:
                return True
            return issubclass(pytype(x), t)
        return isinstance(x, t)
    return isinstance(x, t)


def sx_type(*a):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a)


def sx_int(x=0, *a, **k):
    if isinstance(x, SymInt) and not a and not k:
        return x
    if isinstance(x, SymBool):
        return x._asint()
    if isinstance(x, SymFloat):
        return x.trunc()
    if isinstance(x, (SymStr, SymBytes)):
        base = V.conc(a[0]) if a else k.get('base', 10)
        return V.int_of_str(x, base)
    return int(V.conc(x), *V.conc(list(a)), **k)


def sx_float(x=0.0):
    if isinstance(x, (SymInt, SymBool)):
        return V.tofloat(x)
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, (SymStr, SymBytes)):
        return V.float_of_str(x)
    if isinstance(x, SymArray) and x.size == 1:
        return x.raw()[0]
    return float(V.conc(x))


def sx_bool(x=False):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def sx_ord(x):
    if isinstance(x, (SymStr, SymBytes)):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        c = x.c[0]
        return c if isinstance(c, int) else SymInt(c.e)
    return ord(x)


def sx_chr(x):
    if isinstance(x, SymInt):
        return SymStr((Ch(x.e),))
    return chr(x)


def sx_bytes(*a, **k):
    if len(a) == 1 and type(a[0]) in (list, tuple):
        out = []
        for y in a[0]:
            if isinstance(y, SymInt):
                if not core.ENG.decide(z3.simplify(z3.And(y.e >= 0,
                                                          y.e < 256))):
                    raise ValueError('bytes must be in range(0, 256)')
                out.append(Ch(y.e))
            else:
                out.append(int(y))
        return SymBytes.make(out)
    if len(a) == 1 and isinstance(a[0], SymBytes):
        return a[0]
    if a and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:], **k)
    return bytes(*[V.conc(x) for x in a], **k)


def sx_set(*a):
    if a and hassym(a[0]) and not isinstance(a[0], SymArray):
        # a set with symbolic members: deduplicate by forking on equality
        out = []
        for x in a[0]:
            if not any(bool(deep_eq(x, y)) for y in out):
                out.append(x)
        return SymSet(out)
    if a and isinstance(a[0], SymArray):
        return sx_set(list(a[0]))
    return set(*a)


class SymSet(object):
    """Small set of pairwise distinct members, some symbolic."""
    pytype = set

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __bool__(self):
        return bool(self.items)

    def __contains__(self, x):
        return any(bool(_eq(x, y)) for y in self.items)

    def add(self, x):
        if x not in self:
            self.items.append(x)

    def pop(self):
        return self.items.pop()

    def _real(self):
        return set(V.conc(x) for x in self.items)

    def __eq__(self, o):
        return self._real() == (o._real() if isinstance(o, SymSet) else o)

    def __sub__(self, o):
        return SymSet([x for x in self.items if not __sx_in__(x, o)])

    def __and__(self, o):
        return SymSet([x for x in self.items if __sx_in__(x, o)])

    def __or__(self, o):
        r = SymSet(self.items)
        for x in o:
            r.add(x)
        return r

    def issubset(self, o):
        return all(__sx_in__(x, o) for x in self.items)

    __le__ = issubset
    difference = __sub__
    intersection = __and__
    union = __or__


def sx_print(*a, **k):
    if hassym(a):
        return None
    return print(*a, **k)


def sx_len(x):
    return len(x)


def sx_range(*a):
    return range(*[V.conc(x) if isinstance(x, Sym) else x for x in a])


def sx_round(x, n=None):
    if n is None:
        return round(x)
    return round(V.conc(x), n)


def sx_divmod(a, b):
    return a // b, __sx_mod__(a, b)


def sx_abs(x):
    return abs(x)


def sx_hash(x):
    return hash(x)


def sx_getattr(o, name, *d):
    return getattr(o, V.conc(name), *d)


def sx_callable(x):
    return callable(x)


def sx_sorted(it, *, key=None, reverse=False):
    items = list(it)
    return sorted(items, key=key, reverse=reverse)


def sx_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        d = {}
        for kv in a[0]:
            kk, v = kv
            set_key(d, kk, v)
        d.update(k)
        return d
    return dict(*a, **k)


def set_key(d, k, v):
    if isinstance(k, Sym):
        kk = find_key(k, d)
        k = V.conc(k) if kk is NOKEY else kk
    d[k] = v


def sx_frozenset(*a):
    s = sx_set(*a)
    return frozenset(s) if isinstance(s, set) else s


# -- struct -----------------------------------------------------------------

_SZ = {'<': {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4,
             'q': 8, 'Q': 8, 'd': 8, 'f': 4, 'x': 1, 's': 1, 'c': 1,
             '?': 1}}


def sx_unpack(fmt, data, *rest):
    if isinstance(fmt, Sym):
        fmt = V.conc(fmt)
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    if not isinstance(data, SymBytes):
        return struct.unpack(fmt, data)
    size = struct.calcsize(fmt)
    if len(data) != size:
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    order = '@'
    f = fmt
    if f[:1] in '@=<>!':
        order, f = f[0], f[1:]
    if order == '@' and set(re.sub(r'[\d\s]', '', f)) - set('sxcbB?'):
        raise Unsupported('native struct alignment ' + fmt)
    big = order in '>!'
    out, p = [], 0
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', f):
        n = int(n) if n else 1
        if c == 's':
            out.append(data[p:p + n])
            p += n
            continue
        if c == 'x':
            p += n
            continue
        for _ in range(n):
            sz = _SZ['<'][c]
            chunk = data.c[p:p + sz]
            p += sz
            if all(isinstance(x, int) for x in chunk):
                out.append(struct.unpack(('>' if big else '<') + c,
                                         bytes(chunk))[0])
                continue
            if c == 'c':
                out.append(SymBytes.make(chunk))
                continue
            if c in 'df':
                out.append(unpack_double(chunk[::-1] if big else chunk, c))
                continue
            seq = chunk[::-1] if not big else chunk
            v = z3.IntVal(0)
            for x in seq:
                v = v * 256 + (x if isinstance(x, int) else x.e)
            if c == '?':
                out.append(V.mkbool(v != 0))
                continue
            if c in 'bhilq':
                m = 1 << (8 * sz)
                v = z3.If(v >= m // 2, v - m, v)
            out.append(V.mkint(v))
    return tuple(out)


def sx_unpack_from(fmt, buffer, offset=0):
    offset = V.conc(offset)
    n = struct.calcsize(V.conc(fmt))
    if not isinstance(buffer, SymBytes):
        return struct.unpack_from(fmt, buffer, offset)
    if offset < 0:
        offset += len(buffer)
    return sx_unpack(fmt, buffer[offset:offset + n])


def sx_iter_unpack(fmt, buffer):
    n = struct.calcsize(V.conc(fmt))
    if not n or len(buffer) % n:
        raise struct.error('iterative unpacking requires a buffer of a '
                           'multiple of %d bytes' % n)
    return iter([sx_unpack(fmt, buffer[i:i + n])
                 for i in range(0, len(buffer), n)])


def sx_from_bytes(b, byteorder='big', *, signed=False):
    c = list(b)
    if V.conc(byteorder) == 'little':
        c.reverse()
    v = 0
    for x in c:
        v = v * 256 + x
    if V.conc(signed) and c and bool(c[0] >= 128):
        v = v - (1 << 8 * len(c))
    return v


def unpack_double(chunk, c):
    """A little endian double of symbolic bytes: sign and exponent are
    realised (forked), the fraction stays symbolic and exact."""
    if c == 'f':
        return struct.unpack('<f', SymBytes(chunk).conc())[0]

    def e(x):
        return z3.IntVal(x) if isinstance(x, int) else x.e
    top = V.conc(V.mkint(e(chunk[7])))
    six = chunk[6]
    if not isinstance(six, int):
        high = V.conc(V.mkint(e(six) / 16))
        low = e(six) % 16
    else:
        high, low = six >> 4, z3.IntVal(six & 15)
    ex = (top & 127) * 16 + high
    sign = -1 if top & 128 else 1
    if ex == 2047:
        return struct.unpack('<d', SymBytes(chunk).conc())[0]
    m = low
    for x in reversed(chunk[:6]):
        m = m * 256 + e(x)
    if ex:
        m, ex = m + (1 << 52), ex - 1
    k = ex - 1074
    f = Fraction(sign) * (Fraction(2) ** k)
    return V.SymFloat(z3.simplify(z3.ToReal(m) * z3.RealVal(str(f))), None)


class VFd(int):
    """The file descriptor of a virtual file."""


class VMap(SymBytes):
    """A memory map of a virtual file, when opened files are watched."""
    __slots__ = ('closed', '__weakref__')
    make = SymBytes.make

    def close(self):
        self.closed, self.c = True, ()


def sx_mmap(fd, size, *a, **k):
    n = len(fd.data) if size == 0 else size
    if WATCH[0]:
        m = VMap(SymBytes.codes(fd.data[:n]))
        m.closed = False
        MAPS.append(weakref.ref(m))
        return m
    return fd.data[:n]


# -- io ---------------------------------------------------------------------

class SymIO(object):
    """In-memory stream over symbolic content."""

    def __init__(self, data, text, name=None):
        self.cls = SymStr if text else SymBytes
        self.c = self.cls.codes(data)
        self.text = text
        self.pos = 0
        self.closed = False
        self.pytype = io.StringIO if text else io.BytesIO
        if name is not None:
            self.name = name

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def _take(self, n):
        r = self.cls.make(self.c[self.pos:self.pos + n])
        self.pos = min(len(self.c), self.pos + n) if self.pos < len(self.c) \
            else self.pos
        return r

    def read(self, n=-1):
        self._chk()
        n = V.conc(n)
        if n is None or n < 0:
            n = max(0, len(self.c) - self.pos)
        return self._take(n)

    def readline(self, size=-1):
        self._chk()
        i = self.pos
        nl = frozenset([10])
        n = len(self.c)
        while i < n:
            i += 1
            if V.chtest(self.c[i - 1], nl):
                break
        if size is not None and size >= 0:
            i = min(i, self.pos + size)
        return self._take(max(0, i - self.pos))

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        self._chk()
        return self

    def __next__(self):
        line = self.readline()
        if not len(line):
            raise StopIteration
        return line

    def tell(self):
        self._chk()
        return self.pos

    def seek(self, p, whence=0):
        self._chk()
        p = V.conc(p)
        if whence == 1:
            p += self.pos
        elif whence == 2:
            p += len(self.c)
        if p < 0:
            raise ValueError('negative seek position')
        self.pos = p
        return p

    def fileno(self):
        self._chk()
        fd = VFd(10 ** 6)
        fd.data = self.cls.make(self.c)
        return fd

    def seekable(self):
        return True

    def readable(self):
        return True

    def getvalue(self):
        return self.cls.make(self.c)

    def close(self):
        self.closed = True

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()


OPENED = []
MAPS = []               # references to the memory maps
WATCH = [False]


def sx_open(fname, mode='r', *a, **k):
    name = fname if isinstance(fname, str) else None
    if name in FILES:
        data = FILES[name]
        text = 'b' not in mode
        if any(ch in mode for ch in 'wax+'):
            raise Unsupported('write to virtual file')
        if text:
            enc = k.get('encoding') or (a[1] if len(a) > 1 else None) \
                or 'utf-8'
            if isinstance(data, SymBytes):
                data = data.decode(enc)
            elif isinstance(data, bytes):
                data = data.decode(enc)
            # universal newlines
            cls = SymStr
            if any(V.chtest(c, frozenset([13])) for c in cls.codes(data)):
                d = data.replace('\r\n', '\n')
                data = d.replace('\r', '\n')
        s = SymIO(data, text, name)
        OPENED.append(s)
        return s
    return io.open(fname, mode, *a, **k)


# -- zip and xml ------------------------------------------------------------

ZIPS = {}               # virtual zip files: name -> {member: tree}


class VZip(object):
    """A zip file whose members are trees with symbolic text.  As with the
    real one its file is closed with the last of it and its members."""

    def __init__(self, parts, fp, own):
        self.parts, self.closed = parts, False
        self.fp, self.own, self.refs = fp, own, 1

    def namelist(self):
        return list(self.parts)

    def open(self, name, mode='r', *a, **k):
        if self.closed:
            raise ValueError('Attempt to use ZIP archive that was already '
                             'closed')
        if name not in self.parts:
            raise KeyError('There is no item named %r in the archive' % name)
        self.refs += 1
        return VPart(self.parts[name], name, self)

    def release(self):
        self.refs -= 1
        if not self.refs and self.own:
            self.fp.close()

    def close(self):
        if not self.closed:
            self.closed = True
            self.release()

    __del__ = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class VPart(object):
    def __init__(self, tree, name, zf):
        self.tree, self.name, self.zf = tree, name, zf
        self.closed = False

    def close(self):
        if not self.closed:
            self.closed = True
            self.zf.release()

    __del__ = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def root(self):
        if self.closed or self.zf.fp.closed:
            raise ValueError('I/O operation on closed file.')
        if self.tree is None:
            raise ET.ParseError('no element found')
        return _element(self.tree)


def _element(t):
    tag, attrs, text, kids = t
    e = ET.Element(tag)
    for k, v in attrs.items():
        e.set(k, v)
    e.text = None if text is None or len(text) == 0 else text
    for k in kids:
        e.append(_element(k))
    return e


def sx_zipfile(name, *a, **k):
    if isinstance(name, SymIO):
        return VZip(ZIPS[name.name], name, False)
    if isinstance(name, io.BytesIO):
        return VZip(ZIPS[name.getvalue()], name, False)
    return VZip(ZIPS[name], sx_open(name, 'rb'), True)


def sx_iszip(name):
    return True


def sx_etparse(part, *a):
    return ET.ElementTree(part.root())


def sx_iterparse(part, events=None, parser=None):
    events = events or ('end',)

    def walk(e):
        if 'start' in events:
            yield 'start', e
        for c in list(e):
            yield from walk(c)
        if 'end' in events:
            yield 'end', e
    return walk(part.root())


def virtual(f, a):
    if f is mmap.mmap:
        return isinstance(a, VFd)
    if f is zipfile.ZipFile or f is zipfile.is_zipfile:
        return isinstance(a, str) and a in ZIPS or \
            isinstance(a, io.BytesIO) and a.getvalue() in ZIPS or \
            isinstance(a, SymIO) and a.name in ZIPS
    return isinstance(a, VPart)


# -- re ---------------------------------------------------------------------

def sx_re(name):
    real = getattr(re, name)

    @functools.wraps(real)
    def f(pattern, *args, **kw):
        if name in ('sub', 'subn'):
            n = 2
        else:
            n = 1
        flags = kw.pop('flags', 0)
        pos = list(args)
        if len(pos) > n:
            if name in ('sub', 'subn', 'split') and len(pos) == n + 1:
                pass
            else:
                flags = pos.pop()
        p = pattern if isinstance(pattern, rx.Pattern) else \
            rx.Pattern(pattern, int(flags))
        return getattr(p, name)(*pos, **kw)
    return f


def sx_compile(pattern, flags=0):
    return rx.Pattern(pattern, int(flags))


def sx_escape(s):
    special = frozenset(map(ord, '()[]{}?*+-|^$\\.&~# \t\n\r\v\f'))
    out = []
    for c in s.c:
        if V.chtest(c, special):
            out.append(92)
        out.append(c)
    return s.make(out)


# -- datetime ---------------------------------------------------------------

def sx_isnan(x):
    if isinstance(x, SymFloat):
        return x.isnan()
    if isinstance(x, Sym):
        return False
    return math.isnan(x)


def sx_floor(x):
    if isinstance(x, SymFloat):
        if x.nan is not None and core.ENG.decide(x.nan):
            raise ValueError('cannot convert float NaN to integer')
        return V.mkint(z3.ToInt(x.v))
    return math.floor(x)


def sx_ceil(x):
    if isinstance(x, SymFloat):
        return -sx_floor(-x)
    return math.ceil(x)


def np_arr(obj, *a, **k):
    names = ('dtype',)
    for n, v in zip(names, a):
        k[n] = v
    return A.np_array(obj, **k)


def np_asarray(obj, dtype=None, **k):
    return A.np_array(obj, dtype=dtype, copy=False)


def np_fromiter(it, dtype, count=-1):
    return A.np_array(list(it), dtype=dtype)


def np_full(shape, v, dtype=None, **k):
    shape = V.conc(shape)
    if isinstance(v, Sym):
        dt = np.dtype(dtype) if dtype is not None else A.kinddtype(v)
        return SymArray([A.cast(v, dt)] * int(shape), dt)
    return np.full(shape, v, dtype=dtype, **k)


CALLS = {
    isinstance: sx_isinstance, type: sx_type, int: sx_int, float: sx_float,
    bool: sx_bool, str: sx_str, repr: sx_repr, ord: sx_ord, chr: sx_chr,
    bytes: sx_bytes, set: sx_set, frozenset: sx_frozenset, print: sx_print,
    len: sx_len, range: sx_range, round: sx_round, divmod: sx_divmod,
    sorted: sx_sorted, getattr: sx_getattr, dict: sx_dict, abs: sx_abs,
    hash: sx_hash, struct.unpack: sx_unpack,
    struct.unpack_from: sx_unpack_from, struct.iter_unpack: sx_iter_unpack,
    int.from_bytes: sx_from_bytes, io.open: sx_open, open: sx_open,
    mmap.mmap: sx_mmap, zipfile.ZipFile: sx_zipfile, zipfile.is_zipfile: sx_iszip,
    ET.parse: sx_etparse, ET.iterparse: sx_iterparse,
    re.compile: sx_compile, re.escape: sx_escape,
    datetime.date: V.mkdate, datetime.timedelta: V.mkdelta,
    datetime.datetime: V.mkdatetime, math.isnan: sx_isnan, math.floor: sx_floor,
    math.ceil: sx_ceil,
    np.array: np_arr, np.asarray: np_asarray, np.asanyarray: np_asarray,
    np.fromiter: np_fromiter, np.full: np_full,
    np.isnan: lambda x: x.isnan() if isinstance(x, SymFloat) else (
        False if isinstance(x, Sym) else np.isnan(x)),
}
STRUCTS = {'unpack': sx_unpack, 'unpack_from': sx_unpack_from,
           'iter_unpack': sx_iter_unpack}
VIRTUAL = {mmap.mmap, zipfile.ZipFile, zipfile.is_zipfile, ET.parse, ET.iterparse}
for _n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split',
           'sub', 'subn'):
    CALLS[getattr(re, _n)] = sx_re(_n)

# functions that handle symbolic elements natively (they only iterate,
# compare or move) or that take containers of symbolic values
NATIVE = {zip, enumerate, list, tuple, iter, next, any, all, map, filter,
          reversed, sum, min, max, hasattr, callable, id, setattr, delattr,
          slice, super, object, property, Exception, issubclass, staticmethod,
          isinstance, vars}

SMETH = frozenset(('join', 'format', 'replace', 'split', 'strip', 'find',
                   'startswith', 'endswith', 'count', 'index', 'rsplit',
                   'partition', 'rpartition', 'lstrip', 'rstrip', 'rfind',
                   'removeprefix', 'removesuffix', '__contains__',
                   '__add__', '__eq__', '__ne__'))
DMETH = frozenset(('get', 'pop', 'setdefault', '__getitem__', '__contains__'))


def _lazy(a):
    """Materialise one-shot iterators so they can be scanned."""
    return a


def __sx_meth__(obj, name, /, *args, **kw):
    if isinstance(obj, (str, bytes)) and type(obj) in (str, bytes):
        return str_method(obj, name, args, kw)
    f = getattr(obj, name)
    if isinstance(obj, (Sym, SymArray, SymIO)):
        return f(*args, **kw)
    return __sx_call__(f, *args, **kw)


def str_method(obj, name, args, kw):
    if name == 'join' and len(args) == 1 and \
            not isinstance(args[0], (str, bytes)):
        items = list(args[0])
        cls = SymStr if isinstance(obj, str) else SymBytes
        if any(isinstance(x, cls) for x in items):
            return cls(cls.native_codes(obj)).join(items)
        return obj.join(items)
    if not (hassym(args) or (kw and hassym(kw))):
        return getattr(obj, name)(*args, **kw)
    if name == 'format':
        return sx_format(obj, args, kw)
    cls = SymStr if isinstance(obj, str) else SymBytes
    return getattr(cls(cls.native_codes(obj)), name)(*args, **kw)


def __sx_call__(f, /, *args, **kw):
    t = type(f)
    if t is BUILTIN:
        s = getattr(f, '__self__', None)
        if s is not None and type(s) in (str, bytes):
            return str_method(s, f.__name__, args, kw)
        if isinstance(s, dict) and args and isinstance(args[0], Sym) and \
                f.__name__ in DMETH:
            k = find_key(args[0], s)
            if k is NOKEY:
                if f.__name__ == 'get':
                    return args[1] if len(args) > 1 else kw.get('default')
                if f.__name__ == '__contains__':
                    return False
                if f.__name__ == 'pop' and len(args) > 1:
                    return args[1]
                if f.__name__ in ('pop', '__getitem__'):
                    raise KeyError(args[0])
                return f(V.conc(args[0]), *args[1:])
            return f(k, *args[1:], **kw)
        if isinstance(s, list) and f.__name__ in ('index', 'count',
                                                  'remove') and \
                (hassym(args) or hassym(s)):
            return list_method(s, f.__name__, args)
        if isinstance(s, set) and hassym(args):
            if f.__name__ == 'add':
                return f(V.conc(args[0]))
    if t is METHDESC and args and type(args[0]) in (str, bytes) or (
            t is METHDESC and args and isinstance(args[0], SymSeq)):
        return __sx_meth__(args[0], f.__name__, *args[1:], **kw)
    try:
        h = CALLS.get(f)
    except TypeError:
        h = None
    if h is not None:
        if f is set or f is frozenset or f is dict or f is str or \
                f is np.array or f is np.asarray or f is sorted:
            args = tuple(materialise(a) for a in args)
        if hassym(args) or (kw and hassym(kw)) or (
                h is sx_open and args and args[0] in FILES) or (
                args and f in VIRTUAL and virtual(f, args[0])) or \
                (f is type and len(args) == 1 and
                 isinstance(args[0], (SymIO, SymSet))):
            return h(*args, **kw)
        if f is isinstance and isinstance(args[0], SymSet):
            return args[1] is set or (type(args[1]) is tuple and
                                      set in args[1])
        return f(*args, **kw)
    s = getattr(f, '__self__', None)
    if isinstance(s, struct.Struct) and f.__name__ in STRUCTS and \
            hassym(args):
        return STRUCTS[f.__name__](s.format, *args, **kw)
    if isinstance(s, re.Pattern) and (hassym(args)):
        return getattr(rx.Pattern(s), f.__name__)(*args, **kw)
    if f in NATIVE if t is type or t is BUILTIN else False:
        return f(*args, **kw)
    if not (hassym(args) or hassym(kw)) or instrumented(f):
        return f(*args, **kw)
    if t is functools.partial:
        return __sx_call__(f.func, *(f.args + args), **{**f.keywords, **kw})
    if s is not None and isinstance(s, (list, dict, set, defaultd, deque)) \
            and not isinstance(s, type):
        return f(*args, **kw)
    if isinstance(f, type) and issubclass(f, (BaseException, tuple)):
        return f(*args, **kw)
    if isinstance(f, np.ufunc) or is_npfunc(f):
        if any(isinstance(a, SymArray) for a in args) or any(
                isinstance(a, (list, tuple)) and any(
                    isinstance(b, SymArray) for b in a) for a in args):
            return f(*args, **kw)
        # symbolic content in plain sequences: lift to arrays
        args = tuple(A.np_array(a) if type(a) in (list, tuple) and
                     hassym(a, 1) else a for a in args)
        if any(isinstance(a, SymArray) for a in args):
            return f(*args, **kw)
    if isinstance(s, type) and t is not BUILTIN:
        return f(*args, **kw)
    mod = getattr(f, '__module__', '') or ''
    if mod.startswith('collections') or mod in ('itertools', 'functools',
                                                'operator', '_operator'):
        return f(*args, **kw)
    # unknown native function: realise its arguments
    return f(*[deep_conc(a) for a in args],
             **{k: deep_conc(v) for k, v in kw.items()})


def deep_conc(x):
    return A.deep_real(V.conc(x)) if not isinstance(x, SymArray) \
        else x.realise()


def list_method(s, name, args):
    if name == 'count':
        return sum(1 for y in s if bool(_eq(y, args[0])))
    for i, y in enumerate(s):
        if y is args[0] or bool(_eq(y, args[0])):
            if name == 'index':
                return i
            del s[i]
            return None
    raise ValueError('not in list')


def materialise(a):
    if hasattr(a, '__next__') and not isinstance(a, SymIO):
        return list(a)
    if _viewlike(a):
        return list(a)
    return a


from collections import defaultdict as defaultd, deque      # noqa: E402


def is_npfunc(f):
    m = getattr(f, '__module__', '') or ''
    return m.startswith('numpy')


OWN = ('channelpack', 'symx', 'harness')


def instrumented(f):
    m = getattr(f, '__module__', None) or getattr(type(f), '__module__', '')
    return m.split('.')[0] in OWN


def __sx_conc__(x):
    return V.conc(x)
