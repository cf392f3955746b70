"""The environment a harness sees: symbolic or concrete inputs, the modules
under test (instrumented or real), claims and assumptions."""
import builtins
import io
import mmap
import weakref
import os
import sys
import importlib
import shutil
import struct
import tempfile
import zipfile
import xml.etree.ElementTree as ET
import numpy as np
import z3
from . import core, values as V, arrays as A, shims
from .values import SymBool, SymInt, SymFloat, SymStr, SymBytes, Ch, Sym


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class Env(object):
    sym = False

    # -- claims -----------------------------------------------------------
    def same(self, a, b):
        """Value equality: nan equals nan, arrays elementwise."""
        seq = (list, tuple, np.ndarray)
        if isinstance(a, seq) or isinstance(b, seq):
            if not (isinstance(a, seq) and isinstance(b, seq)):
                return False
            la, lb = list(a), list(b)
            if len(la) != len(lb):
                return False
            return V.land(*[self.same(x, y) for x, y in zip(la, lb)])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return V.land(*[self.same(a[k], b[k]) for k in a])
        if a is None or b is None:
            return a is b
        na, nb = _isnan(a), _isnan(b)
        if _text(a) != _text(b):
            return False
        e = shims._eq(a, b)
        if isinstance(e, np.bool_):
            e = bool(e)
        return V.lor(V.land(na, nb), e)

    land = staticmethod(V.land)
    lor = staticmethod(V.lor)
    lnot = staticmethod(V.lnot)

    def check_same(self, a, b, msg):
        self.check(self.same(a, b), msg)

    def raises(self, exc, f, *a, **k):
        """Claim: f(*a) raises exc."""
        try:
            r = f(*a, **k)
        except exc:
            return True
        self.check(False, 'expected %s, got a result' % (
            exc.__name__ if isinstance(exc, type) else exc))

    def attempt(self, f, *a, **k):
        """(result, None) or (None, exception)."""
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def scratch(self):
        return self._scratch


def _isnan(x):
    if isinstance(x, SymFloat):
        return x.isnan()
    if isinstance(x, Sym):
        return False
    if isinstance(x, (float, np.floating)):
        return bool(x != x)
    return False


def _text(x):
    if isinstance(x, (str, SymStr)):
        return 's'
    if isinstance(x, (bytes, SymBytes)):
        return 'b'
    return 'o'


def _alive(refs):
    return [m for m in (r() for r in refs) if m is not None]


class SymEnv(Env):
    sym = True

    def __init__(self, eng, world):
        self.eng, self.world = eng, world
        shims.FILES.clear()
        shims.ZIPS.clear()
        del shims.OPENED[:]
        del shims.MAPS[:]
        shims.WATCH[0] = False

    def load(self, name):
        return self.world.load(name)

    def watch(self):
        shims.WATCH[0] = True

    def bool(self, name):
        v = z3.Bool(name)
        self.eng.declare(name, 'bool', v)
        return SymBool(v)

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.eng.declare(name, 'int', v, z3.And(v >= lo, v <= hi))
        if lo == hi:
            return lo
        return SymInt(v)

    def float(self, name, nan=True):
        v = z3.Real(name)
        n = z3.Bool(name + '!nan') if nan else None
        self.eng.declare(name, 'float', (n, v))
        return SymFloat(v, n)

    def choice(self, name, options):
        """One of the options (forked; the index is a solver variable)."""
        options = list(options)
        v = z3.Int(name)
        self.eng.declare(name, 'int', v, z3.And(v >= 0,
                                                v < len(options)))
        if len(options) == 1:
            return options[0]
        return options[self.eng.realise(v, len(options) + 1)]

    def _chars(self, name, n, alphabet, cls):
        if isinstance(alphabet, (str, bytes)):
            alphabet = [alphabet] * n
        vs, out, cons = [], [], []
        for i in range(n):
            dom = frozenset(map(ord, alphabet[i]) if isinstance(
                alphabet[i], str) else alphabet[i])
            v = z3.Int('%s[%d]' % (name, i))
            vs.append(v)
            cons.append(V.inset(v, dom))
            out.append(next(iter(dom)) if len(dom) == 1 else Ch(v, dom))
        self.eng.declare(name, 'str', vs, z3.And(*cons) if cons else None)
        return cls.make(out)

    def str(self, name, n, alphabet):
        return self._chars(name, n, alphabet, SymStr)

    def bytes(self, name, n, alphabet):
        return self._chars(name, n, alphabet, SymBytes)

    def array(self, items, dtype):
        items = list(items)
        return A.np_array(items, dtype=dtype) if True else None

    def decide(self, c):
        return bool(c)

    def assume(self, c):
        self.eng.assume(V.zb(c))

    def check(self, cond, msg):
        if isinstance(cond, np.bool_):
            cond = bool(cond)
        self.eng.check(V.zb(cond), msg)

    def textio(self, s, name=None):
        return shims.SymIO(s, True, name)

    def bytesio(self, s, name=None):
        return shims.SymIO(s, False, name)

    def file(self, name, content):
        """A file by name holding `content` (text or bytes)."""
        if not isinstance(content, (bytes, SymBytes)):
            content = content.encode('utf-8')
        path = '/nonexistent-symx/' + name
        shims.FILES[path] = content
        return path

    def zipfile(self, name, parts):
        """A zip file of xml members, each a tree
        (tag, attributes, text, children)."""
        path = '/nonexistent-symx/' + name
        data = b'PK\x03\x04' + name.encode()
        shims.FILES[path] = data
        shims.ZIPS[path] = shims.ZIPS[data] = parts
        return path

    def content(self, path):
        """The bytes of a file."""
        return shims.FILES[path]

    def opened(self):
        """The file objects opened by name so far."""
        return list(shims.OPENED) + _alive(shims.MAPS)

    def concat(self, *parts):
        r = parts[0]
        for p in parts[1:]:
            r = shims.__dict__['__sx_add__'](r, p)
        return r

    def join(self, sep, parts):
        return shims.str_method(sep, 'join', (list(parts),), {})

    def tofloat(self, x):
        return shims.sx_float(x)

    def chr(self, x):
        return shims.sx_chr(x)

    def ord(self, x):
        return shims.sx_ord(x)

    def encode(self, s, enc='ascii'):
        return s.encode(enc)

    def str_of(self, x):
        return shims.sx_str(x)

    def int_char(self, ch):
        return shims.sx_ord(ch) - 48

    def double(self, b):
        """The little endian double of 8 bytes."""
        return shims.sx_unpack('<d', b)[0]

    def date(self, y, m, d):
        return V.mkdate(y, m, d)

    def datetime_us(self, base, us):
        return V.SymDatetime.make(V.SymDatetime.of(base) + us)

    def div(self, a, b):
        return V.tofloat(a) / b


class ConcEnv(Env):

    def __init__(self, inputs):
        self.inputs = inputs
        self._tmp = None
        self._opened = []
        self._maps = []
        self._open = (io.open, builtins.open)
        self._mmap = mmap.mmap

    def watch(self):
        """Record the files opened by name (of this harness)."""
        real = self._open[0]

        def rec(fname, *a, **k):
            f = real(fname, *a, **k)
            if self._tmp and str(fname).startswith(self._tmp):
                self._opened.append(f)
            return f
        io.open = builtins.open = rec
        maps = self._maps

        class Map(self._mmap):
            def __new__(cls, *a, **k):
                m = super().__new__(cls, *a, **k)
                maps.append(weakref.ref(m))
                return m
        mmap.mmap = Map

    def opened(self):
        return list(self._opened) + _alive(self._maps)

    def close(self):
        io.open, builtins.open = self._open
        mmap.mmap = self._mmap
        for f in self._opened:
            f.close()
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)

    def load(self, name):
        return importlib.import_module(name)

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def int(self, name, lo, hi):
        return self.inputs.get(name, lo)

    def float(self, name, nan=True):
        v = self.inputs.get(name, 0.0)
        return float('nan') if v is None else v

    def choice(self, name, options):
        return list(options)[self.inputs.get(name, 0)]

    def str(self, name, n, alphabet):
        v = self.inputs.get(name)
        if v is None:
            a = [alphabet] * n if isinstance(alphabet, str) else alphabet
            return ''.join(x[0] for x in a)
        return ''.join(map(chr, v))

    def bytes(self, name, n, alphabet):
        v = self.inputs.get(name)
        if v is None:
            a = [alphabet] * n if isinstance(alphabet, bytes) else alphabet
            return bytes(x[0] for x in a)
        return bytes(v)

    def array(self, items, dtype):
        return np.array(list(items), dtype=dtype)

    def decide(self, c):
        return bool(c)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, cond, msg):
        if not cond:
            raise CheckFailed(msg)

    def textio(self, s, name=None):
        f = NamedStringIO(s) if name is not None else io.StringIO(s)
        if name is not None:
            f.name = name
        return f

    def bytesio(self, s, name=None):
        f = NamedBytesIO(s) if name is not None else io.BytesIO(s)
        if name is not None:
            f.name = name
        return f

    def file(self, name, content):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='symx-')
        if not isinstance(content, bytes):
            content = content.encode('utf-8')
        p = os.path.join(self._tmp, name)
        with open(p, 'wb') as f:
            f.write(content)
        return p

    def content(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def zipfile(self, name, parts):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='symx-')
        p = os.path.join(self._tmp, name)
        with zipfile.ZipFile(p, 'w') as z:
            for k, tree in parts.items():
                if tree is None:
                    z.writestr(k, b'')
                    continue
                z.writestr(k, ET.tostring(shims._element(tree), 'utf-8'))
        return p

    def concat(self, *parts):
        r = parts[0]
        for p in parts[1:]:
            r = r + p
        return r

    def join(self, sep, parts):
        return sep.join(parts)

    def tofloat(self, x):
        return float(x)

    def chr(self, x):
        return chr(x)

    def ord(self, x):
        return ord(x)

    def encode(self, s, enc='ascii'):
        return s.encode(enc)

    def str_of(self, x):
        return str(x)

    def double(self, b):
        return struct.unpack('<d', b)[0]

    def date(self, y, m, d):
        import datetime
        return datetime.date(y, m, d)

    def datetime_us(self, base, us):
        import datetime
        return base + datetime.timedelta(microseconds=us)

    def div(self, a, b):
        return a / b


class NamedStringIO(io.StringIO):
    pass


class NamedBytesIO(io.BytesIO):
    pass
