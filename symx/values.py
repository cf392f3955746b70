"""Symbolic Python values."""
import datetime
from fractions import Fraction
import z3
from . import core
from .core import Unsupported, PathCut


def E():
    return core.ENG


class Sym(object):
    """Base of all symbolic scalars."""
    __slots__ = ()
    pytype = None

    def __reduce__(self):
        raise Unsupported('pickle of symbolic value')

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self


def is_sym(x):
    return isinstance(x, Sym)


# ---------------------------------------------------------------- booleans

def zb(x):
    """z3 Bool of a python/symbolic truth value."""
    if isinstance(x, SymBool):
        return x.e
    if x is True or x is False:
        return z3.BoolVal(x)
    return z3.BoolVal(bool(x))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Sym):
    __slots__ = ('e',)
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E().decide(self.e)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def _other(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, bool) or type(o).__name__ in ('bool_', 'bool'):
            return z3.BoolVal(bool(o))
        return None

    def __eq__(self, o):
        x = self._other(o)
        if x is not None:
            return mkbool(z3.simplify(self.e == x))
        if isinstance(o, (int, float, Sym)):
            return self._asint() == o
        return False

    def __ne__(self, o):
        return lnot(self == o)

    def _asint(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        x = self._other(o)
        if x is None:
            return self._asint() & o
        return mkbool(z3.simplify(z3.And(self.e, x)))
    __rand__ = __and__

    def __or__(self, o):
        x = self._other(o)
        if x is None:
            return self._asint() | o
        return mkbool(z3.simplify(z3.Or(self.e, x)))
    __ror__ = __or__

    def __xor__(self, o):
        x = self._other(o)
        if x is None:
            return self._asint() ^ o
        return mkbool(z3.simplify(z3.Xor(self.e, x)))
    __rxor__ = __xor__

    def __invert__(self):       # numpy bool semantics (object arrays)
        return mkbool(z3.simplify(z3.Not(self.e)))

    def logical_not(self):
        return mkbool(z3.simplify(z3.Not(self.e)))

    def __repr__(self):
        return '<SymBool>'

    def __lt__(self, o):
        return self._asint() < o

    def __le__(self, o):
        return self._asint() <= o

    def __gt__(self, o):
        return self._asint() > o

    def __ge__(self, o):
        return self._asint() >= o

    def __add__(self, o):
        return self._asint() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._asint() - o

    def __rsub__(self, o):
        return o - self._asint()

    def __mul__(self, o):
        return self._asint() * o
    __rmul__ = __mul__


def lnot(x):
    if isinstance(x, SymBool):
        return x.logical_not()
    return not x


def land(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es)) if len(es) > 1 else SymBool(es[0])


def lor(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es)) if len(es) > 1 else SymBool(es[0])


# ---------------------------------------------------------------- integers

def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def zi(x):
    """z3 Int of an integer-like, else None."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if type(x).__module__ == 'numpy' and hasattr(x, '__index__') \
            and getattr(x, 'ndim', 1) == 0 and x.dtype.kind in 'iub':
        return z3.IntVal(int(x))
    return None


class SymInt(Sym):
    __slots__ = ('e',)
    pytype = int

    def __init__(self, e):
        self.e = e

    def conc(self):
        return E().realise(self.e, 4096)

    __int__ = __index__ = lambda self: self.conc()
    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def __trunc__(self):
        return self

    def __float__(self):
        return float(self.conc())

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        return E().decide(self.e != 0)

    def __repr__(self):
        return '<SymInt %s>' % str(self.e)[:40]

    def bit_length(self):
        return self.conc().bit_length()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        n, v = conc(length), self
        m = 1 << 8 * n
        if bool(v < (-m // 2 if signed else 0)) or \
                bool(v >= (m // 2 if signed else m)):
            raise OverflowError('int too big to convert')
        if signed and bool(v < 0):
            v = v + m
        c = []
        for i in range(n):
            x = (v // (1 << 8 * i)) % 256
            c.append(Ch(x.e) if isinstance(x, SymInt) else x)
        if conc(byteorder) == 'big':
            c.reverse()
        return SymBytes.make(tuple(c))

    # comparison
    def _cmp(self, o, f):
        x = zi(o)
        if x is not None:
            return mkbool(z3.simplify(f(self.e, x)))
        r = zr(o)
        if r is not None:
            nan, val = r
            c = f(z3.ToReal(self.e), val)
            if nan is not None:
                c = z3.And(z3.Not(nan), c)
            return mkbool(z3.simplify(c))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return lnot(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    # arithmetic
    def _bin(self, o, f, ff, swap=False):
        x = zi(o)
        if x is not None:
            return mkint(f(x, self.e) if swap else f(self.e, x))
        if zr(o) is not None:
            a = tofloat(self)
            return ff(o, a) if swap else ff(a, o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: fadd(a, b))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: fsub(a, b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: fsub(a, b), True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.conc()
        if isinstance(o, (SymStr, SymBytes)):
            return o * self.conc()
        return self._bin(o, lambda a, b: a * b, lambda a, b: fmul(a, b))
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __floordiv__(self, o):
        x = zi(o)
        if x is None:
            if zr(o) is not None:
                return tofloat(self) // o
            return NotImplemented
        return idiv(self.e, x)

    def __rfloordiv__(self, o):
        x = zi(o)
        if x is None:
            return NotImplemented
        return idiv(x, self.e)

    def __mod__(self, o):
        x = zi(o)
        if x is None:
            return NotImplemented
        return imod(self.e, x)

    def __rmod__(self, o):
        x = zi(o)
        if x is None:
            return NotImplemented
        return imod(x, self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return tofloat(self) / o

    def __rtruediv__(self, o):
        return tofloat(o) / tofloat(self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o < 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.conc() ** o

    def __rpow__(self, o):
        return o ** self.conc()

    # bit operations against constants
    def __and__(self, o):
        if isinstance(o, SymInt):
            o = o.conc()
        if isinstance(o, SymBool):
            o = int(o)
        if isinstance(o, int):
            return iand(self, o)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        # x | c == x + c - (x & c)
        if isinstance(o, SymInt):
            lo = disjoint_or(self, o)
            if lo is not None:
                return lo
            o = o.conc()
        if isinstance(o, int):
            return self + o - (self & o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymInt):
            o = o.conc()
        if isinstance(o, int):
            return self + o - 2 * (self & o)
        return NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.conc()
        return self * (1 << o)

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.conc()
        return self // (1 << o)

    def __rlshift__(self, o):
        return o << self.conc()

    def __rrshift__(self, o):
        return o >> self.conc()

    def __round__(self, n=None):
        return self

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __str__(self):
        return str(self.conc())


def idiv(a, b):
    """Python floor division on z3 ints (z3 div is Euclidean)."""
    if z3.is_int_value(b):
        c = b.as_long()
        if c == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if c > 0:
            return mkint(a / b)
        return mkint((-a) / z3.IntVal(-c))
    if E().decide(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if E().decide(b > 0):
        return mkint(a / b)
    return mkint((-a) / (-b))


def imod(a, b):
    q = idiv(a, b)
    return mkint(a - b * zi(q))


def iand(x, c):
    if c < 0:
        # x & c == x - (x & ~c)
        return x - iand(x, ~c)
    r = 0
    i = 0
    while c >> i:
        if not (c >> i) & 1:
            i += 1
            continue
        j = i
        while (c >> j) & 1:
            j += 1
        # bits i..j-1
        r = r + ((x // (1 << i)) % (1 << (j - i))) * (1 << i)
        i = j
    return r


def disjoint_or(a, b):
    """a | b when one operand is provably a multiple of 2**k and the other
    is provably below 2**k (the usual byte-assembling idiom)."""
    for k in (8, 16, 24, 1, 2, 4, 10, 32):
        m = 1 << k
        for x, y in ((a, b), (b, a)):
            c = z3.And(x.e % m == 0, y.e >= 0, y.e < m)
            eng = E()
            if eng._eval(c) is not False:
                mod = eng.model
                r = eng._check(z3.Not(c))
                eng.model = mod
                if r == z3.unsat:
                    return x + y
    return None


# ------------------------------------------------------------------ floats
# A SymFloat is "NaN, or the double nearest to the real `v`".  Values are
# parsed, moved and compared; arithmetic keeps the exact real and is only
# used where the harness states that exactness as an assumption.

def frac(x):
    # the shortest decimal of the double: what a parsed number would be
    return z3.RealVal(Fraction(repr(float(x))))


def zr(x):
    """(nan z3 Bool or None, z3 Real) of a number, else None."""
    if isinstance(x, SymFloat):
        return (x.nan, x.v)
    if isinstance(x, SymInt):
        return (None, z3.ToReal(x.e))
    if isinstance(x, SymBool):
        return (None, z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, (bool, int)):
        return (None, z3.RealVal(int(x)))
    if isinstance(x, float):
        if x != x:
            return (z3.BoolVal(True), z3.RealVal(0))
        if x in (float('inf'), float('-inf')):
            return (None, z3.RealVal(10 ** 400 if x > 0 else -10 ** 400))
        return (None, frac(x))
    if isinstance(x, Fraction):
        return (None, z3.RealVal(x))
    if type(x).__module__ == 'numpy' and getattr(x, 'ndim', 1) == 0 and \
            getattr(getattr(x, 'dtype', None), 'kind', '') in 'iufb':
        return zr(x.item())
    return None


class SymFloat(Sym):
    __slots__ = ('nan', 'v')
    pytype = float

    def __init__(self, v, nan=None):
        self.v = v
        if nan is not None and z3.is_false(nan):
            nan = None
        self.nan = nan

    def _cmp(self, o, f):
        r = zr(o)
        if r is None:
            return NotImplemented
        c = f(self.v, r[1])
        ns = [z3.Not(n) for n in (self.nan, r[0]) if n is not None]
        return mkbool(z3.simplify(z3.And(c, *ns)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return lnot(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def isnan(self):
        return False if self.nan is None else mkbool(self.nan)

    def __bool__(self):
        c = self.v != 0
        if self.nan is not None:
            c = z3.Or(self.nan, c)
        return E().decide(z3.simplify(c))

    def __add__(self, o):
        return fadd(self, o)

    def __radd__(self, o):
        return fadd(o, self)

    def __sub__(self, o):
        return fsub(self, o)

    def __rsub__(self, o):
        return fsub(o, self)

    def __mul__(self, o):
        return fmul(self, o)

    def __rmul__(self, o):
        return fmul(o, self)

    def __neg__(self):
        return SymFloat(z3.simplify(-self.v), self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.If(self.v < 0, -self.v, self.v), self.nan)

    def __truediv__(self, o):
        r = zr(o)
        if r is None:
            return NotImplemented
        if E().decide(r[1] == 0):
            raise ZeroDivisionError('float division by zero')
        return _f(self.v / r[1], self.nan, r[0])

    def __rtruediv__(self, o):
        return tofloat(o) / self

    def __floordiv__(self, o):
        q = self / o
        return SymFloat(z3.ToReal(z3.ToInt(q.v)), q.nan)

    def __mod__(self, o):
        return self - (self // o) * o

    def trunc(self):
        if self.nan is not None and E().decide(self.nan):
            raise ValueError('cannot convert float NaN to integer')
        return mkint(z3.If(self.v >= 0, z3.ToInt(self.v),
                           -z3.ToInt(-self.v)))

    __int__ = lambda self: int(self.trunc())

    def __trunc__(self):
        return self.trunc()

    def conc(self):
        if self.nan is not None and E().decide(self.nan):
            return float('nan')
        e = z3.simplify(self.v)
        few = z3.is_app_of(e, z3.Z3_OP_TO_REAL)
        return float(E().realise(e, 64 if few else 2))

    def __float__(self):
        return self.conc()

    def __hash__(self):
        return hash(self.conc())

    def is_integer(self):
        return mkbool(z3.simplify(z3.IsInt(self.v)))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round(x, n)')
        if self.nan is not None and E().decide(self.nan):
            raise ValueError('cannot convert float NaN to integer')
        f = z3.ToInt(self.v)
        d = self.v - z3.ToReal(f)
        half = z3.RealVal('1/2')
        return mkint(z3.If(d < half, f, z3.If(d > half, f + 1,
                     z3.If(f % 2 == 0, f, f + 1))))

    def __repr__(self):
        return '<SymFloat>'

    def __str__(self):
        return str(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)


def tofloat(x):
    if isinstance(x, (SymFloat, float)):
        return x
    if isinstance(x, Sym):
        r = zr(x)
        return SymFloat(z3.simplify(r[1]), r[0])
    return float(x)


def _f(v, *nans):
    ns = [n for n in nans if n is not None]
    return SymFloat(z3.simplify(v), z3.simplify(z3.Or(*ns)) if ns else None)


def _fbin(f):
    def op(a, b):
        x, y = zr(a), zr(b)
        if x is None or y is None:
            return NotImplemented
        return _f(f(x[1], y[1]), x[0], y[0])
    return op


fadd = _fbin(lambda a, b: a + b)
fsub = _fbin(lambda a, b: a - b)
fmul = _fbin(lambda a, b: a * b)


# ------------------------------------------------------------------- chars

class Ch(object):
    """One symbolic character/byte: integer term and optional finite domain."""
    __slots__ = ('e', 'dom')

    def __init__(self, e, dom=None):
        self.e, self.dom = e, dom

    def __repr__(self):
        return '<Ch>'


def chtest(c, codes):
    """Fork-resolved test: is char c (int or Ch) in the set of codes?"""
    if isinstance(c, int):
        return c in codes
    if c.dom is not None:
        inter = c.dom & codes if isinstance(codes, frozenset) else \
            frozenset(x for x in c.dom if x in codes)
        if not inter:
            return False
        if len(inter) == len(c.dom):
            return True
        rest = c.dom - inter
        if len(rest) < len(inter):
            return not E().decide(inset(c.e, rest))
        return E().decide(inset(c.e, inter))
    return E().decide(inset(c.e, codes))


def inset(e, codes):
    """z3 Bool: e in codes (an iterable of ints), as ranges."""
    s = sorted(codes)
    if not s:
        return z3.BoolVal(False)
    rs = []
    lo = hi = s[0]
    for x in s[1:]:
        if x == hi + 1:
            hi = x
        else:
            rs.append((lo, hi))
            lo = hi = x
    rs.append((lo, hi))
    parts = [e == a if a == b else z3.And(e >= a, e <= b) for a, b in rs]
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def cheq(a, b):
    """python bool or z3 Bool for char equality."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if a.dom is not None and b not in a.dom:
            return False
        return a.e == b
    if a.dom is not None and b.dom is not None and not (a.dom & b.dom):
        return False
    if a.e.eq(b.e):
        return True
    return a.e == b.e


def seqeq(xs, ys):
    if len(xs) != len(ys):
        return False
    cs = []
    for a, b in zip(xs, ys):
        r = cheq(a, b)
        if r is False:
            return False
        if r is True:
            continue
        cs.append(r)
    if not cs:
        return True
    return mkbool(z3.And(*cs) if len(cs) > 1 else cs[0])


DIGITS = frozenset(range(48, 58))
WS_STR = frozenset(i for i in range(0x3001) if chr(i).isspace())
WS_BYTES = frozenset(b' \t\n\r\x0b\f')
UPPER = frozenset(range(65, 91))
LOWER = frozenset(range(97, 123))


class SymSeq(Sym):
    """Common parts of symbolic str and bytes: concrete length, symbolic
    elements.  `c` is a tuple of int | Ch."""
    __slots__ = ('c',)

    def __init__(self, chars):
        self.c = tuple(chars)

    @classmethod
    def make(cls, chars):
        chars = tuple(chars)
        for x in chars:
            if not isinstance(x, int):
                return cls(chars)
        return cls.conv(chars)

    @classmethod
    def codes(cls, s):
        """tuple of codes of a native or symbolic sequence, or None."""
        if isinstance(s, cls):
            return s.c
        if isinstance(s, cls.pytype):
            return cls.native_codes(s)
        return None

    def _need(self, s):
        c = self.codes(s)
        if c is None:
            raise TypeError('expected %s, got %s' % (self.pytype.__name__,
                                                     type(s).__name__))
        return c

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    def conc(self):
        out = []
        for x in self.c:
            out.append(x if isinstance(x, int) else E().realise(x.e, 300))
        return self.conv(out)

    def __hash__(self):
        return hash(self.conc())

    def __str__(self):
        return str(self.conc())

    def __repr__(self):
        return '<%s[%d]>' % (type(self).__name__, len(self.c))

    def __eq__(self, o):
        c = self.codes(o)
        if c is None:
            return False
        return seqeq(self.c, c)

    def __ne__(self, o):
        return lnot(self == o)

    def _lt(self, a, b, strict):
        for x, y in zip(a, b):
            r = cheq(x, y)
            if r is True or (r is not False and E().decide(r)):
                continue
            ex = z3.IntVal(x) if isinstance(x, int) else x.e
            ey = z3.IntVal(y) if isinstance(y, int) else y.e
            return E().decide(z3.simplify(ex < ey))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(self.c, self._need(o), True)

    def __le__(self, o):
        return self._lt(self.c, self._need(o), False)

    def __gt__(self, o):
        return self._lt(self._need(o), self.c, True)

    def __ge__(self, o):
        return self._lt(self._need(o), self.c, False)

    def __add__(self, o):
        c = self.codes(o)
        if c is None:
            return NotImplemented
        return self.make(self.c + c)

    def __radd__(self, o):
        c = self.codes(o)
        if c is None:
            return NotImplemented
        return self.make(c + self.c)

    def __mul__(self, n):
        return self.make(self.c * int(n))
    __rmul__ = __mul__

    def __contains__(self, o):
        return self.find(o) >= 0

    def _match_at(self, i, pat):
        if i < 0 or i + len(pat) > len(self.c):
            return False
        r = seqeq(self.c[i:i + len(pat)], pat)
        return bool(r)

    def find(self, sub, start=0, end=None):
        pat = self._need(sub)
        start, end, _ = slice(start, end).indices(len(self.c))
        for i in range(start, end - len(pat) + 1):
            if self._match_at(i, pat):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        pat = self._need(sub)
        start, end, _ = slice(start, end).indices(len(self.c))
        for i in range(end - len(pat), start - 1, -1):
            if self._match_at(i, pat):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub):
        pat = self._need(sub)
        if not pat:
            return len(self.c) + 1
        n = i = 0
        while i + len(pat) <= len(self.c):
            if self._match_at(i, pat):
                n += 1
                i += len(pat)
            else:
                i += 1
        return n

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        s = self[start:end]
        pat = self._need(p)
        cs = self.codes(s)
        if len(pat) > len(cs):
            return False
        return seqeq(cs[:len(pat)], pat)

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        cs = self.codes(self[start:end])
        pat = self._need(p)
        if len(pat) > len(cs):
            return False
        return seqeq(cs[len(cs) - len(pat):], pat)

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self[:-len(p)]
        return self

    def _stripset(self, chars):
        if chars is None:
            return self.WS
        c = self._need(chars)
        if all(isinstance(x, int) for x in c):
            return frozenset(c)
        return frozenset(self.native_codes(type(self)(c).conc()))

    def lstrip(self, chars=None):
        s = self._stripset(chars)
        i = 0
        while i < len(self.c) and chtest(self.c[i], s):
            i += 1
        return self.make(self.c[i:])

    def rstrip(self, chars=None):
        s = self._stripset(chars)
        i = len(self.c)
        while i > 0 and chtest(self.c[i - 1], s):
            i -= 1
        return self.make(self.c[:i])

    def strip(self, chars=None):
        s = self._stripset(chars)
        i, j = 0, len(self.c)
        while i < j and chtest(self.c[i], s):
            i += 1
        while j > i and chtest(self.c[j - 1], s):
            j -= 1
        return self.make(self.c[i:j])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        pat = self._need(sep)
        if not pat:
            raise ValueError('empty separator')
        out, i, last = [], 0, 0
        while i + len(pat) <= len(self.c):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._match_at(i, pat):
                out.append(self.make(self.c[last:i]))
                i += len(pat)
                last = i
            else:
                i += 1
        out.append(self.make(self.c[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit ws')
        pat = self._need(sep)
        out, end = [], len(self.c)
        i = end - len(pat)
        while i >= 0 and len(out) < maxsplit:
            if self._match_at(i, pat) and i + len(pat) <= end:
                out.append(self.make(self.c[i + len(pat):end]))
                end = i
                i -= len(pat)
            else:
                i -= 1
        out.append(self.make(self.c[:end]))
        return out[::-1]

    def _split_ws(self, maxsplit):
        out, i, n = [], 0, len(self.c)
        while True:
            while i < n and chtest(self.c[i], self.WS):
                i += 1
            if i >= n:
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(self.make(self.c[i:]).rstrip())
                return out
            j = i
            while j < n and not chtest(self.c[j], self.WS):
                j += 1
            out.append(self.make(self.c[i:j]))
            i = j

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            e = self.conv(())
            return self, e, e
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            e = self.conv(())
            return e, e, self
        return self[:i], sep, self[i + len(sep):]

    def replace(self, old, new, count=-1):
        po, pn = self._need(old), self._need(new)
        if not po:
            raise Unsupported('replace empty')
        out, i, n = [], 0, 0
        while i < len(self.c):
            if (count < 0 or n < count) and self._match_at(i, po):
                out.extend(pn)
                i += len(po)
                n += 1
            else:
                out.append(self.c[i])
                i += 1
        return self.make(out)

    def join(self, items):
        out = []
        for i, it in enumerate(items):
            c = self._need(it)
            if i:
                out.extend(self.c)
            out.extend(c)
        return self.make(out)

    def _map(self, frm, to):
        off = min(to) - min(frm)
        out = []
        for x in self.c:
            if isinstance(x, int):
                out.append(x + off if x in frm else x)
            elif chtest(x, frm):
                dom = None if x.dom is None else \
                    frozenset(d + off for d in x.dom if d in frm)
                out.append(Ch(z3.simplify(x.e + off), dom))
            else:
                out.append(x)
        return self.make(out)

    def upper(self):
        self._ascii()
        return self._map(LOWER, UPPER)

    def lower(self):
        self._ascii()
        return self._map(UPPER, LOWER)
    casefold = lower

    def _ascii(self):
        for x in self.c:
            if isinstance(x, int):
                ok = x < 128
            elif x.dom is not None:
                ok = max(x.dom) < 128
            else:
                ok = E().decide(x.e < 128)
            if not ok:
                raise PathCut('non-ascii case mapping')

    def _all(self, s):
        return bool(self.c) and all(chtest(x, s) for x in self.c)

    def isdigit(self):
        return self._all(DIGITS)
    isdecimal = isnumeric = isdigit

    def isspace(self):
        return self._all(self.WS)

    def isalpha(self):
        self._ascii()
        return self._all(UPPER | LOWER)

    def isalnum(self):
        self._ascii()
        return self._all(UPPER | LOWER | DIGITS)

    def isupper(self):
        self._ascii()
        return self.upper() == self and not self.lower() == self

    def islower(self):
        self._ascii()
        return self.lower() == self and not self.upper() == self

    def isidentifier(self):
        self._ascii()
        al = UPPER | LOWER | frozenset([95])
        return bool(self.c) and chtest(self.c[0], al) and \
            all(chtest(x, al | DIGITS) for x in self.c[1:])

    def splitlines(self, keepends=False):
        out, i, n = [], 0, len(self.c)
        nl = frozenset([10, 13]) if self.pytype is bytes else \
            frozenset([10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029])
        while i < n:
            j = i
            while j < n and not chtest(self.c[j], nl):
                j += 1
            k = j
            if j < n:
                k = j + 1
                if chtest(self.c[j], frozenset([13])) and k < n and \
                        chtest(self.c[k], frozenset([10])):
                    k += 1
            out.append(self.make(self.c[i:k if keepends else j]))
            i = k
        return out

    def ljust(self, w, fill=None):
        f = self._need(fill) if fill is not None else (32,)
        return self.make(self.c + f * (int(w) - len(self.c)))

    def rjust(self, w, fill=None):
        f = self._need(fill) if fill is not None else (32,)
        return self.make(f * (int(w) - len(self.c)) + self.c)

    def zfill(self, w):
        if len(self.c) >= w:
            return self
        if self.c and chtest(self.c[0], frozenset([43, 45])):
            return self.make(self.c[:1] + (48,) * (w - len(self.c))
                             + self.c[1:])
        return self.make((48,) * (w - len(self.c)) + self.c)


class SymStr(SymSeq):
    __slots__ = ()
    pytype = str
    WS = WS_STR

    @staticmethod
    def conv(codes):
        return ''.join(map(chr, codes))

    @staticmethod
    def native_codes(s):
        return tuple(map(ord, s))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.make(self.c[_slice(i)])
        return self.make((self.c[int(i)],))

    def __iter__(self):
        for x in self.c:
            yield self.make((x,))

    def encode(self, encoding='utf-8', errors='strict'):
        enc = _codec(encoding)
        out = []
        for x in self.c:
            if isinstance(x, int):
                out.extend(chr(x).encode(encoding, errors))
                continue
            if enc == 'utf-16-le':
                dom = x.dom
                if dom is not None and max(dom) < 256:
                    out.extend([x, 0])
                elif E().decide(z3.Or(x.e < 0xd800, z3.And(
                        x.e > 0xdfff, x.e < 0x10000))):
                    out.extend([Ch(x.e % 256, None), Ch(x.e / 256, None)])
                else:
                    v = E().realise(x.e, 300)
                    out.extend(chr(v).encode(encoding, errors))
                continue
            lim = 256 if enc == 'latin-1' else 128
            if x.dom is not None:
                low = frozenset(c for c in x.dom if c < lim)
                if len(low) == len(x.dom):
                    out.append(x)
                elif low and chtest(x, low):
                    out.append(Ch(x.e, low) if len(low) > 1 else
                               next(iter(low)))
                else:
                    v = E().realise(x.e, 300)
                    out.extend(chr(v).encode(encoding, errors))
            elif E().decide(x.e < lim):
                out.append(x)
            else:
                v = E().realise(x.e, 300)
                out.extend(chr(v).encode(encoding, errors))
        return SymBytes.make(out)

    def format(self, *a, **k):
        return self.conc().format(*a, **k)

    def translate(self, t):
        return self.conc().translate(t)

    def title(self):
        return self.conc().title()

    def expandtabs(self, n=8):
        return self.conc().expandtabs(n)

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()


def _codec(enc):
    import codecs
    n = codecs.lookup(enc).name
    if n in ('ascii', 'utf-8'):
        return n
    if n in ('iso8859-1',):
        return 'latin-1'
    if n in ('cp1252', 'cp1251', 'cp437', 'iso8859-15', 'utf-16-le'):
        return n
    raise Unsupported('codec ' + n)


def _slice(s):
    def f(v):
        return None if v is None else int(v)
    return slice(f(s.start), f(s.stop), f(s.step))


class SymBytes(SymSeq):
    __slots__ = ()
    pytype = bytes
    WS = WS_BYTES

    @staticmethod
    def conv(codes):
        return bytes(codes)

    @staticmethod
    def native_codes(s):
        return tuple(s)

    @classmethod
    def codes(cls, s):
        if isinstance(s, cls):
            return s.c
        if isinstance(s, (bytes, bytearray, memoryview)):
            return tuple(bytes(s))
        return None

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.make(self.c[_slice(i)])
        x = self.c[int(i)]
        return x if isinstance(x, int) else SymInt(x.e)

    def __iter__(self):
        for x in self.c:
            yield x if isinstance(x, int) else SymInt(x.e)

    def __contains__(self, o):
        if isinstance(o, (int, SymInt)):
            cs = [cheq(x, o if isinstance(o, int) else Ch(o.e))
                  for x in self.c]
            return bool(lor(*[mkbool(c) if not isinstance(c, bool) else c
                              for c in cs]))
        return self.find(o) >= 0

    def decode(self, encoding='utf-8', errors='strict'):
        enc = _codec(encoding)
        out = []
        if enc == 'latin-1':
            return SymStr.make(self.c)
        if enc == 'utf-16-le':
            return self._utf16(errors)
        single = enc.startswith('cp') or enc.startswith('iso')
        i = 0
        while i < len(self.c):
            x = self.c[i]
            if isinstance(x, int):
                if x < 128:
                    out.append(x)
                    i += 1
                    continue
                j = i
                while j < len(self.c) and isinstance(self.c[j], int) and \
                        self.c[j] >= 128:
                    j += 1
                try:
                    out.extend(map(ord, bytes(self.c[i:j]).decode(encoding,
                                                                  errors)))
                except UnicodeDecodeError:
                    return self.conc().decode(encoding, errors)
                i = j
                continue
            ok = (max(x.dom) < 128) if x.dom is not None else \
                E().decide(x.e < 128)
            if not ok and x.dom is not None:
                low = frozenset(c for c in x.dom if c < 128)
                ok = bool(low) and chtest(x, low)
                if ok:
                    x = Ch(x.e, low) if len(low) > 1 else next(iter(low))
            if ok:
                out.append(x)
            elif enc == 'ascii' and errors == 'strict':
                raise UnicodeDecodeError('ascii', b'?', 0, 1,
                                         'ordinal not in range(128)')
            elif single:
                out.append(ord(bytes([E().realise(x.e, 300)]).decode(
                    encoding, errors)))
            else:
                return self.conc().decode(encoding, errors)
            i += 1
        return SymStr.make(out)

    def _utf16(self, errors):
        out, n = [], len(self.c)
        if n % 2:
            return self.conc().decode('utf-16-le', errors)
        i = 0
        while i < n:
            lo, hi = self.c[i], self.c[i + 1]
            sur = range(0xd8, 0xe0)
            if chtest(hi, frozenset(sur)):
                # surrogates: realise the rest of them
                j = i
                while j < n and chtest(self.c[j + 1], frozenset(sur)):
                    j += 2
                part = SymBytes(self.c[i:j]).conc()
                out.extend(map(ord, part.decode('utf-16-le', errors)))
                i = j
                continue
            i += 2
            if isinstance(lo, int) and isinstance(hi, int):
                out.append(lo + 256 * hi)
                continue
            dl = frozenset([lo]) if isinstance(lo, int) else lo.dom
            dh = frozenset([hi]) if isinstance(hi, int) else hi.dom
            dom = None
            if dl is not None and dh is not None and \
                    len(dl) * len(dh) <= 1024:
                dom = frozenset(a + 256 * b for a in dl for b in dh
                                if b not in sur)
            e = (lo if isinstance(lo, int) else lo.e) + \
                256 * (hi if isinstance(hi, int) else hi.e)
            out.append(Ch(e, dom))
        return SymStr.make(out)

    def hex(self):
        return self.conc().hex()

    def translate(self, t, *a):
        return self.conc().translate(t, *a)


# --------------------------------------------------------------- conversion

def str_of_int(x):
    """str(SymInt) with symbolic digits, forking on sign and digit count."""
    eng = E()
    e = x.e
    neg = eng.decide(z3.simplify(e < 0))
    if neg:
        e = -e
    n = 1
    while n < 20 and not eng.decide(z3.simplify(e < 10 ** n)):
        n += 1
    out = [45] if neg else []
    for k in range(n - 1, -1, -1):
        d = (e / z3.IntVal(10 ** k)) if k else e
        if k != n - 1:
            d = d % 10
        d = z3.simplify(48 + d)
        out.append(d.as_long() if z3.is_int_value(d) else Ch(d, DIGITS))
    return SymStr.make(out)


def digit_value(x):
    if isinstance(x, int):
        return z3.IntVal(x - 48)
    return x.e - 48


def _clean(s):
    """Strip whitespace; validate underscores; codes tuple."""
    if isinstance(s, SymBytes):
        t = SymBytes.codes(s.strip())
    else:
        t = SymStr.codes(s.strip())
    return t


def _underscores(t):
    """Remove PEP 515 underscores; None when misplaced."""
    us = frozenset([95])
    out = []
    for i, x in enumerate(t):
        if chtest(x, us):
            if i == 0 or i == len(t) - 1 or not chtest(t[i - 1], DIGITS) \
                    or not chtest(t[i + 1], DIGITS):
                return None
            continue
        out.append(x)
    return out


def int_of_str(s, base=10):
    if base == 16:
        return _int16(s)
    if base != 10:
        return int(s.conc(), base)
    t = _clean(s)
    bad = ValueError('invalid literal for int() with base 10: <symbolic>')
    if not t:
        raise bad
    neg = False
    if chtest(t[0], frozenset([43, 45])):
        neg = chtest(t[0], frozenset([45]))
        t = t[1:]
    t = _underscores(t)
    if not t:
        raise bad
    v = z3.IntVal(0)
    for x in t:
        if not chtest(x, DIGITS):
            if not isinstance(x, int) and x.dom is None and \
                    E().decide(x.e > 127):
                raise PathCut('non-ascii digit')
            raise bad
        v = v * 10 + digit_value(x)
    return mkint(-v if neg else v)


def _int16(s):
    t = _clean(s)
    v = 0
    if not t:
        raise ValueError('invalid literal for int() with base 16')
    for x in t:
        if chtest(x, DIGITS):
            d = x - 48 if isinstance(x, int) else SymInt(x.e - 48)
        elif chtest(x, frozenset(range(65, 71))):
            d = x - 55 if isinstance(x, int) else SymInt(x.e - 55)
        elif chtest(x, frozenset(range(97, 103))):
            d = x - 87 if isinstance(x, int) else SymInt(x.e - 87)
        else:
            raise ValueError('invalid literal for int() with base 16')
        v = v * 16 + d
    return v


def float_of_str(s):
    t = _clean(s)
    bad = ValueError('could not convert string to float: <symbolic>')
    if not t:
        raise bad
    if all(isinstance(x, int) for x in t):
        return float(''.join(map(chr, t)))
    neg = False
    if chtest(t[0], frozenset([43, 45])):
        neg = chtest(t[0], frozenset([45]))
        t = t[1:]
    if not t:
        raise bad
    if chtest(t[0], frozenset(b'nNiI')):
        low = SymStr.codes(SymStr.make(t).lower())
        for word in ('nan', 'inf', 'infinity'):
            if len(low) == len(word) and \
                    bool(seqeq(low, tuple(map(ord, word)))):
                return float(('-' if neg else '') + word)
        raise bad
    t = _underscores(t)
    if not t:
        raise bad
    mant, i, point, nd, expo = z3.IntVal(0), 0, None, 0, 0
    while i < len(t):
        x = t[i]
        if chtest(x, DIGITS):
            mant = mant * 10 + digit_value(x)
            nd += 1
            if point is not None:
                point += 1
        elif point is None and chtest(x, frozenset([46])):
            point = 0
        elif nd and chtest(x, frozenset(b'eE')):
            i += 1
            eneg = False
            if i < len(t) and chtest(t[i], frozenset([43, 45])):
                eneg = chtest(t[i], frozenset([45]))
                i += 1
            if i >= len(t):
                raise bad
            ev = z3.IntVal(0)
            while i < len(t):
                if not chtest(t[i], DIGITS):
                    raise bad
                ev = ev * 10 + digit_value(t[i])
                i += 1
            expo = E().realise(z3.simplify(ev), 100)
            expo = -expo if eneg else expo
            break
        else:
            if not isinstance(x, int) and x.dom is None and \
                    E().decide(x.e > 127):
                raise PathCut('non-ascii digit')
            raise bad
        i += 1
    if not nd:
        raise bad
    p = expo - (point or 0)
    if abs(p) > 30:
        raise PathCut('exponent range')
    v = z3.ToReal(mant)
    v = v * z3.RealVal(10 ** p) if p >= 0 else v / z3.RealVal(10 ** -p)
    v = z3.simplify(-v if neg else v)
    if z3.is_rational_value(v) and neg and v.as_fraction() == 0:
        return -0.0
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    return SymFloat(v)


# -------------------------------------------------------------------- dates

class SymDate(Sym):
    __slots__ = ('year', 'month', 'day')
    pytype = datetime.date

    def __init__(self, y, m, d):
        self.year, self.month, self.day = y, m, d

    def __eq__(self, o):
        if isinstance(o, (SymDate, datetime.date)):
            return land(self.year == o.year, self.month == o.month,
                        self.day == o.day)
        return False

    def __ne__(self, o):
        return lnot(self == o)

    def conc(self):
        return datetime.date(int(self.year), int(self.month), int(self.day))

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        return True

    def isoformat(self):
        return self.conc().isoformat()

    def __repr__(self):
        return '<SymDate>'


def mkdate(y, m, d):
    if not any(is_sym(x) for x in (y, m, d)):
        return datetime.date(y, m, d)
    for x in (y, m, d):
        if zi(x) is None:
            raise TypeError('an integer is required')
    if not (y >= 1) or not (y <= 9999):
        raise ValueError('year is out of range')
    if not (m >= 1) or not (m <= 12):
        raise ValueError('month must be in 1..12')
    if not (d >= 1):
        raise ValueError('day is out of range for month')
    if not (d <= 28):
        zm, zy, zd = zi(m), zi(y), zi(d)
        leap = z3.And(zy % 4 == 0, z3.Or(zy % 100 != 0, zy % 400 == 0))
        dim = z3.If(z3.Or(zm == 4, zm == 6, zm == 9, zm == 11), 30,
                    z3.If(zm == 2, z3.If(leap, 29, 28), 31))
        if not E().decide(z3.simplify(zd <= dim)):
            raise ValueError('day is out of range for month')
    return SymDate(y, m, d)


DAY = 86400 * 10 ** 6


class SymDelta(Sym):
    """A timedelta of symbolic length in microseconds."""
    __slots__ = ('us',)
    pytype = datetime.timedelta

    def __init__(self, us):
        self.us = us

    @staticmethod
    def of(o):
        if isinstance(o, SymDelta):
            return o.us
        if isinstance(o, datetime.timedelta):
            return (o.days * 86400 + o.seconds) * 10 ** 6 + o.microseconds
        return None

    def __add__(self, o):
        x = SymDelta.of(o)
        if x is not None:
            return SymDelta(self.us + x)
        x = SymDatetime.of(o)
        if x is not None:
            return SymDatetime.make(x + self.us)
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return SymDelta(-self.us)

    def __sub__(self, o):
        x = SymDelta.of(o)
        return NotImplemented if x is None else SymDelta(self.us - x)

    def __rsub__(self, o):
        x = SymDelta.of(o)
        if x is not None:
            return SymDelta(x - self.us)
        x = SymDatetime.of(o)
        return NotImplemented if x is None else SymDatetime.make(x - self.us)

    def __mul__(self, o):
        if isinstance(o, (int, SymInt)):
            return SymDelta(self.us * o)
        return NotImplemented
    __rmul__ = __mul__

    def __eq__(self, o):
        x = SymDelta.of(o)
        return False if x is None else self.us == x

    def __ne__(self, o):
        return lnot(self == o)

    def conc(self):
        return datetime.timedelta(microseconds=int(self.us))

    def __hash__(self):
        return hash(self.conc())

    days = property(lambda self: self.us // DAY)
    seconds = property(lambda self: self.us % DAY // 10 ** 6)
    microseconds = property(lambda self: self.us % 10 ** 6)

    def __repr__(self):
        return '<SymDelta>'


def mkdelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0,
            hours=0, weeks=0):
    us = 0
    for x, k in ((days, DAY), (seconds, 10 ** 6), (microseconds, 1),
                 (milliseconds, 1000), (minutes, 60 * 10 ** 6),
                 (hours, 3600 * 10 ** 6), (weeks, 7 * DAY)):
        us = us + x * k
    if isinstance(us, (float, SymFloat)):
        us = round(us)
    if not is_sym(us):
        return datetime.timedelta(microseconds=us)
    return SymDelta(us)


class SymDatetime(Sym):
    """A naive datetime: symbolic microseconds since 0001-01-01."""
    __slots__ = ('us',)
    pytype = datetime.datetime

    def __init__(self, us):
        self.us = us

    @staticmethod
    def make(us):
        if (us < 0) or not (us < datetime.date.max.toordinal() * DAY):
            raise OverflowError('date value out of range')
        if not is_sym(us):
            return datetime.datetime(1, 1, 1) + \
                datetime.timedelta(microseconds=us)
        return SymDatetime(us)

    @staticmethod
    def of(o):
        if isinstance(o, SymDatetime):
            return o.us
        if isinstance(o, datetime.datetime):
            return SymDelta.of(o - datetime.datetime(1, 1, 1))
        return None

    def __add__(self, o):
        x = SymDelta.of(o)
        return NotImplemented if x is None else SymDatetime.make(self.us + x)
    __radd__ = __add__

    def __sub__(self, o):
        x = SymDelta.of(o)
        if x is not None:
            return SymDatetime.make(self.us - x)
        x = SymDatetime.of(o)
        return NotImplemented if x is None else SymDelta(self.us - x)

    def __rsub__(self, o):
        x = SymDatetime.of(o)
        return NotImplemented if x is None else SymDelta(x - self.us)

    def _cmp(self, o, f):
        x = SymDatetime.of(o)
        return NotImplemented if x is None else f(self.us, x)

    def __eq__(self, o):
        x = SymDatetime.of(o)
        return False if x is None else self.us == x

    def __ne__(self, o):
        return lnot(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return True

    def conc(self):
        return datetime.datetime(1, 1, 1) + \
            datetime.timedelta(microseconds=int(self.us))

    def __hash__(self):
        return hash(self.conc())

    def __getattr__(self, name):
        return getattr(self.conc(), name)

    microsecond = property(lambda self: self.us % 10 ** 6)
    second = property(lambda self: self.us // 10 ** 6 % 60)
    minute = property(lambda self: self.us // (60 * 10 ** 6) % 60)
    hour = property(lambda self: self.us // (3600 * 10 ** 6) % 24)

    def __repr__(self):
        return '<SymDatetime>'


def mkdatetime(y, m, d, hour=0, minute=0, second=0, microsecond=0, *a, **k):
    if a or k:
        raise Unsupported('datetime with tzinfo')
    if any(is_sym(x) for x in (y, m, d)):
        y, m, d = conc(y), conc(m), conc(d)
    for x, hi in ((hour, 24), (minute, 60), (second, 60),
                  (microsecond, 10 ** 6)):
        if (x < 0) or not (x < hi):
            raise ValueError('out of range')
    us = SymDatetime.of(datetime.datetime(y, m, d)) + \
        ((hour * 60 + minute) * 60 + second) * 10 ** 6 + microsecond
    return SymDatetime.make(us)


def conc(x):
    """Fully concretise (forking) a symbolic value or container."""
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, Sym):
        return x.conc()
    if type(x) in (list, tuple, set, frozenset):
        return type(x)([conc(y) for y in x])
    if type(x) is dict:
        return {conc(k): conc(v) for k, v in x.items()}
    if isinstance(x, slice):
        return slice(conc(x.start), conc(x.stop), conc(x.step))
    return x
