"""Symbolic numpy arrays: an ndarray subclass with object storage holding
symbolic scalars plus the dtype the real array would have."""
import numpy as np
import datetime
from . import core
from . import values as V
from .values import Sym, SymBool, SymInt, SymFloat, SymStr, SymBytes, SymDate
from .core import Unsupported


class SymArray(np.ndarray):

    def __new__(cls, items, dtype):
        items = list(items)
        obj = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            obj[i] = x
        a = obj.view(cls)
        a._dt = np.dtype(dtype)
        return a

    def __array_finalize__(self, obj):
        self._dt = getattr(obj, '_dt', np.dtype(object))

    dtype = property(lambda self: self._dt)
    itemsize = property(lambda self: self._dt.itemsize)
    nbytes = property(lambda self: self._dt.itemsize * self.size)

    def raw(self):
        return self.view(np.ndarray)

    # -- element access ---------------------------------------------------
    def __getitem__(self, i):
        i = index(i)
        r = self.raw()[i]
        if isinstance(r, np.ndarray):
            return wrap(r, self._dt)
        return r

    def __setitem__(self, i, v):
        i = index(i)
        dt = self._dt
        if isinstance(v, np.ndarray):
            vals = [cast(x, dt) for x in raw(v).ravel()]
            if v.ndim == 0:
                self.raw()[i] = vals[0]
            else:
                self.raw()[i] = objarr(vals)
        elif isinstance(v, (list, tuple)):
            self.raw()[i] = objarr([cast(x, dt) for x in v])
        else:
            self.raw()[i] = cast(v, dt)

    def __iter__(self):
        return iter(list(self.raw()))

    def __reduce__(self):
        raise Unsupported('pickle')

    def __contains__(self, x):
        return bool(V.lor(*[y == x for y in self]))

    # -- methods ----------------------------------------------------------
    def tolist(self):
        return list(self.raw())

    def item(self, *a):
        return self.raw().item(*a)

    def copy(self, order='C'):
        return SymArray(list(self.raw()), self._dt)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def flatten(self, order='C'):
        return self.copy()

    def ravel(self, order='C'):
        return self

    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        return SymArray([cast(x, dt) for x in self.raw()], dt)

    def all(self, *a, **k):
        return V.land(*[truth(x) for x in self.raw()])

    def any(self, *a, **k):
        return V.lor(*[truth(x) for x in self.raw()])

    def sum(self, *a, **k):
        r = 0
        for x in self.raw():
            r = r + (x._asint() if isinstance(x, SymBool) else
                     int(x) if isinstance(x, (bool, np.bool_)) else x)
        return r

    def nonzero(self):
        return (np.array([i for i, x in enumerate(self.raw()) if truth(x)],
                         dtype=np.intp),)

    def __bool__(self):
        if self.size == 1:
            return bool(truth(self.raw()[0]))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __repr__(self):
        return '<SymArray %s %s>' % (self.raw().shape, self._dt)
    __str__ = __repr__

    def fill(self, v):
        self[:] = v

    # -- ufuncs -----------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        out = kwargs.pop('out', None)
        where = kwargs.pop('where', True)
        if method == 'reduce' and ufunc in (np.logical_and, np.logical_or,
                                            np.add) and not kwargs.get('axis'):
            a = inputs[0]
            a = a if isinstance(a, SymArray) else wrap(a, a.dtype)
            return {np.logical_and: a.all, np.logical_or: a.any,
                    np.add: a.sum}[ufunc]()
        if method != '__call__' or where is not True:
            return fallback(getattr(ufunc, method), inputs, kwargs)
        f = UFUNCS.get(ufunc)
        if f is None:
            r = fallback(ufunc, inputs, kwargs)
        else:
            ins = [x if isinstance(x, (np.ndarray, list, tuple)) else x
                   for x in inputs]
            n = None
            for x in ins:
                if isinstance(x, (np.ndarray, list, tuple)) and \
                        np.ndim(raw(x)) == 1:
                    m = len(x)
                    n = m if n in (None, 1) else n
                    if m not in (n, 1):
                        raise ValueError(
                            'operands could not be broadcast together')
            if n is None:
                return f(*[x.item() if isinstance(x, np.ndarray) else x
                           for x in ins])
            cols = []
            for x in ins:
                if isinstance(x, (np.ndarray, list, tuple)):
                    e = list(raw(x)) if np.ndim(raw(x)) else [raw(x).item()]
                    cols.append(e * n if len(e) == 1 else e)
                else:
                    cols.append([x] * n)
            vals = [f(*t) for t in zip(*cols)]
            dt = result_dtype(ufunc, ins)
            r = SymArray([cast(x, dt) for x in vals], dt)
        if out is not None:
            o = out[0]
            o[...] = r if isinstance(o, SymArray) else \
                (r.realise() if isinstance(r, SymArray) else r)
            return o
        return r

    def realise(self):
        """The real array, forking over every symbolic element."""
        vals = [V.conc(x) for x in self.raw()]
        if self._dt.kind == 'O':
            return objarr(vals)
        return np.array(vals, dtype=self._dt)

    # -- functions --------------------------------------------------------
    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        return fallback(func, args, kwargs)


def raw(x):
    if isinstance(x, SymArray):
        return x.raw()
    if isinstance(x, np.ndarray):
        return x
    return objarr(x)


def objarr(vals):
    vals = list(vals)
    o = np.empty(len(vals), dtype=object)
    for i, x in enumerate(vals):
        o[i] = x
    return o


def wrap(r, dt):
    """Object ndarray -> SymArray (or the real array if nothing symbolic)."""
    if r.ndim == 1 and r.dtype == object and not any(
            isinstance(x, Sym) for x in r):
        pass
    a = r.view(SymArray)
    a._dt = np.dtype(dt)
    return a


def truth(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return bool(x)
    return bool(x)


def index(i):
    if isinstance(i, SymArray):
        r = i.realise()
        return r
    if isinstance(i, slice):
        return V._slice(i)
    if isinstance(i, Sym):
        return V.conc(i)
    if isinstance(i, tuple):
        return tuple(index(x) for x in i)
    if isinstance(i, list):
        return [index(x) for x in i]
    return i


def cast(x, dt):
    """One element cast to dtype dt, as numpy does on assignment."""
    k = dt.kind
    if not isinstance(x, Sym):
        if k == 'O':
            return x
        return np.array([x], dtype=object).astype(dt)[0] if not (
            k in 'SU') else np.array([x]).astype(dt)[0]
    if k == 'b':
        if isinstance(x, SymBool):
            return x
        if isinstance(x, (SymInt, SymFloat)):
            return x != 0 if isinstance(x, SymInt) else \
                V.lor(x.isnan(), x != 0)
    elif k in 'iu':
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._asint()
        if isinstance(x, SymFloat):
            return x.trunc()
    elif k == 'f':
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return V.tofloat(x)
    elif k == 'U':
        if isinstance(x, SymStr):
            return x[:dt.itemsize // 4]
    elif k == 'S':
        if isinstance(x, SymBytes):
            return x[:dt.itemsize]
    elif k == 'O':
        return x
    return np.array([V.conc(x)]).astype(dt)[0]


def kinddtype(x):
    """dtype numpy would infer for one element."""
    if isinstance(x, SymBool):
        return np.dtype(bool)
    if isinstance(x, SymInt):
        return np.dtype(np.int64)
    if isinstance(x, SymFloat):
        return np.dtype(float)
    if isinstance(x, SymStr):
        return np.dtype('U%d' % max(1, len(x)))
    if isinstance(x, SymBytes):
        return np.dtype('S%d' % max(1, len(x)))
    if isinstance(x, Sym):
        return np.dtype(object)
    return np.array([x]).dtype if not isinstance(x, (list, tuple)) else None


def has_sym(seq):
    return any(isinstance(x, Sym) for x in seq)


def np_array(obj, dtype=None, copy=True, ndmin=0, **kw):
    """np.array on something containing symbolic elements."""
    if isinstance(obj, SymArray):
        if dtype is not None and np.dtype(dtype) != obj._dt:
            return obj.astype(dtype)
        return obj.copy() if copy else obj
    if isinstance(obj, Sym):
        raise Unsupported('0-d symbolic array')
    items = list(obj)
    items = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x
             for x in items]
    if any(isinstance(x, (list, tuple, np.ndarray, dict)) for x in items):
        raise Unsupported('nested symbolic array')
    if dtype is None:
        dts = [kinddtype(x) for x in items]
        if any(d.kind == 'O' for d in dts):
            dt = np.dtype(object)
        else:
            probes = [np.zeros(1, d)[0] if d.kind not in 'SU' else
                      ('x' if d.kind == 'U' else b'x') *
                      (d.itemsize // (4 if d.kind == 'U' else 1))
                      for d in dts]
            dt = np.array(probes).dtype
    else:
        dt = np.dtype(dtype)
        if dt.kind in 'US' and dt.itemsize == 0:
            dt = np.dtype('%s%d' % (dt.kind, max(
                [1] + [len(V.conc(x)) if not isinstance(x, V.SymSeq)
                       else len(x) for x in items])))
    if dt.kind in 'US':
        items = [str(V.conc(x)) if (isinstance(x, Sym) and dt.kind == 'U' and
                                    not isinstance(x, SymStr)) else x
                 for x in items]
    return SymArray([cast(x, dt) for x in items], dt)


def dummy(x):
    """A concrete array of the same dtype and shape."""
    if isinstance(x, SymArray):
        return np.zeros(x.shape, dtype=x._dt) if x._dt.kind != 'O' else \
            objarr([None] * x.size)
    if isinstance(x, Sym):
        d = kinddtype(x)
        return np.zeros(1, d)[0]
    if type(x) in (list, tuple):
        return type(x)(dummy(y) for y in x)
    return x


_CMP = {np.equal, np.not_equal, np.less, np.less_equal, np.greater,
        np.greater_equal, np.logical_and, np.logical_or, np.logical_not,
        np.logical_xor, np.isnan, np.isfinite}


def result_dtype(ufunc, ins):
    if ufunc in _CMP:
        return np.dtype(bool)
    with np.errstate(all='ignore'):
        return ufunc(*[dummy(x) for x in ins]).dtype


def _isnan(x):
    if isinstance(x, SymFloat):
        return x.isnan()
    if isinstance(x, Sym):
        return False
    return bool(np.isnan(x))


def _inv(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    return ~x


def _l(f):
    return lambda a, b: f(_t(a), _t(b))


def _t(x):
    return x if isinstance(x, SymBool) else truth(x)


def _and(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and \
            isinstance(b, (SymBool, bool, np.bool_)):
        return V.land(a, b)
    return a & b


def _or(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and \
            isinstance(b, (SymBool, bool, np.bool_)):
        return V.lor(a, b)
    return a | b


def _eq(a, b):
    return b == a if isinstance(b, Sym) else a == b


UFUNCS = {
    np.equal: _eq,
    np.not_equal: lambda a, b: V.lnot(_eq(a, b)),
    np.less: lambda a, b: a < b,
    np.less_equal: lambda a, b: a <= b,
    np.greater: lambda a, b: a > b,
    np.greater_equal: lambda a, b: a >= b,
    np.bitwise_and: _and, np.bitwise_or: _or,
    np.bitwise_xor: lambda a, b: a ^ b,
    np.invert: _inv,
    np.logical_and: _l(V.land), np.logical_or: _l(V.lor),
    np.logical_not: lambda a: V.lnot(_t(a)),
    np.logical_xor: _l(lambda a, b: V.lnot(_eq(a, b))),
    np.isnan: _isnan,
    np.isfinite: lambda x: V.lnot(_isnan(x)),
    np.add: lambda a, b: a + b,
    np.subtract: lambda a, b: a - b,
    np.multiply: lambda a, b: a * b,
    np.negative: lambda a: -a,
    np.absolute: abs,
}


def fallback(func, args, kwargs):
    """Realise every symbolic argument and call the real numpy function."""
    core.ENG.functions_realised = True
    return func(*[deep_real(a) for a in args],
                **{k: deep_real(v) for k, v in kwargs.items()})


def deep_real(x):
    if isinstance(x, SymArray):
        return x.realise()
    if isinstance(x, Sym):
        return V.conc(x)
    if type(x) in (list, tuple):
        return type(x)(deep_real(y) for y in x)
    return x


def _where(cond, *ab):
    if isinstance(cond, SymArray):
        cond = cond.astype(bool).realise()
    if not ab:
        return np.where(cond)
    a, b = ab
    da, db = dummy(a), dummy(b)
    dt = np.where(cond, da, db).dtype
    n = len(cond)

    def elems(x):
        if isinstance(x, np.ndarray) and x.ndim == 1:
            e = list(raw(x))
            if len(e) == 1 and n != 1:
                e = e * n
            if len(e) != n:
                raise ValueError('operands could not be broadcast together')
            return e
        return [x] * n
    ea, eb = elems(a), elems(b)
    return SymArray([cast(p if c else q, dt)
                     for c, p, q in zip(cond, ea, eb)], dt)


def _structural(func):
    """Functions that only move elements: run on object storage, take the
    result dtype from the real function on dummies."""
    def h(*args, **kwargs):
        def o(x):
            if isinstance(x, SymArray):
                return x.raw()
            if isinstance(x, np.ndarray) and x.dtype != object:
                return objarr(list(x))
            if type(x) in (list, tuple) and any(
                    isinstance(y, np.ndarray) for y in x):
                return type(x)(o(y) for y in x)
            return x
        a0 = args[0]
        dt = func(dummy(a0), *[dummy(x) for x in args[1:]], **kwargs).dtype
        r = func(o(a0), *[o(x) if i == 0 and func in (np.append,) else x
                          for i, x in enumerate(args[1:])], **kwargs)
        return SymArray([cast(x, dt) for x in r], dt)
    return h


def _full_like(a, v, dtype=None, **k):
    dt = np.dtype(dtype) if dtype is not None else a.dtype
    if isinstance(v, Sym):
        return SymArray([cast(v, dt)] * len(a), dt)
    return np.full(len(a), v, dtype=dt)


def _array_equal(a, b, equal_nan=False):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        e = _eq(x, y)
        if equal_nan:
            e = V.lor(e, V.land(_isnan(x), _isnan(y)))
        cs.append(e)
    return V.land(*cs)


FUNCS = {
    np.where: _where,
    np.append: _structural(np.append),
    np.concatenate: _structural(np.concatenate),
    np.hstack: _structural(np.hstack),
    np.full_like: _full_like,
    np.ones_like: lambda a, dtype=None, **k:
        np.ones(len(a), dtype=dtype or a.dtype),
    np.zeros_like: lambda a, dtype=None, **k:
        np.zeros(len(a), dtype=dtype or a.dtype),
    np.empty_like: lambda a, dtype=None, **k:
        np.zeros(len(a), dtype=dtype or a.dtype),
    np.copy: lambda a, **k: a.copy(),
    np.array_equal: _array_equal,
    np.all: lambda a, *r, **k: a.all(),
    np.any: lambda a, *r, **k: a.any(),
    np.sum: lambda a, *r, **k: a.sum(),
    np.count_nonzero: lambda a, *r, **k:
        sum(1 for x in a.raw() if truth(x)),
    np.nonzero: lambda a: a.nonzero(),
    np.flatnonzero: lambda a: a.nonzero()[0],
    np.size: lambda a, *r: a.size,
    np.ndim: lambda a: 1,
    np.shape: lambda a: a.shape,
    np.atleast_1d: lambda a: a,
    np.ravel: lambda a, *r: a,
    np.compress: lambda c, a, *r, **k: a[np.asarray(deep_real(c))],
    np.extract: lambda c, a: a[np.asarray(deep_real(c))],
    np.take: lambda a, i, *r, **k: a[deep_real(i)],
    np.may_share_memory: lambda a, b: np.may_share_memory(raw(a), raw(b)),
    np.shares_memory: lambda a, b: np.shares_memory(raw(a), raw(b)),
}
