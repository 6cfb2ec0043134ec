"""numpy shim: object-dtype ndarray subclass carrying a pseudo dtype, with symbolic elements."""
import math
import types
import operator
import numpy as np
from . import core
from .core import (Sym, SReal, SInt, SBool, ite, smax2, smin2, s_cmp, s_sqrt, s_floor, s_ceil, s_trunc_int,
                   s_round, s_not, s_abs, s_pow, as_bool_expr, mkbool, PathLimit, R, lift, isnpv)
import z3

F8 = np.dtype('f8')
I8 = np.dtype('i8')
B1 = np.dtype('?')
OBJ = np.dtype('O')


class SymArray(np.ndarray):
    """Object array that pretends to have dtype _sdt."""
    _sdt = F8

    def __array_finalize__(self, obj):
        if isinstance(obj, SymArray):
            self._sdt = obj._sdt

    @property
    def dtype(self):
        return self._sdt

    @property
    def itemsize(self):
        return self._sdt.itemsize

    @property
    def nbytes(self):
        return self.size * self._sdt.itemsize

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return apply_ufunc(ufunc, inputs, method, kw)

    def __array_function__(self, func, types_, args, kwargs):
        f = TABLE.get(func.__name__) if getattr(func, '__module__', '').startswith('numpy') else None
        if func.__module__ and func.__module__.startswith('numpy.linalg'):
            f = LINALG.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        return generic(func, args, kwargs)

    def __getitem__(self, ix):
        ix = fixindex(ix)
        r = np.ndarray.__getitem__(self, ix)
        if isinstance(r, np.ndarray):
            return r
        return elem(r, self._sdt)

    def __setitem__(self, ix, v):
        if isinstance(ix, SymArray) and ix._sdt == B1 and ix.shape == self.shape and _hassym(ix) and \
                (not isinstance(v, np.ndarray) or v.ndim == 0):
            # masked scalar assignment without forking
            m = plain(ix)
            val = v.item() if isinstance(v, np.ndarray) else v
            val = coerce_scalar(val, self._sdt)
            b = plain(self)
            out = np.empty(b.shape, dtype=object)
            for i in np.ndindex(b.shape):
                out[i] = ite(m[i], val, b[i])
            np.ndarray.__setitem__(self, Ellipsis, out)
            return
        ix = fixindex(ix)
        np.ndarray.__setitem__(self, ix, coerce_any(v, self._sdt))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def item(self, *a):
        r = plain(self).item(*a)
        if isinstance(r, Sym):
            return type(r)(r.e, False)
        return pyscalar(r, self._sdt)

    def tolist(self):
        def f(v):
            if isinstance(v, list):
                return [f(x) for x in v]
            return type(v)(v.e, False) if isinstance(v, Sym) else pyscalar(v, self._sdt)
        return f(plain(self).tolist())

    def astype(self, dt, *a, **k):
        return coerce_arr(self, todtype(dt))

    def copy(self, *a, **k):
        return wrap(plain(self).copy(), self._sdt)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __contains__(self, v):
        return bool(TABLE['any'](self == v))

    def __bool__(self):
        if self.size == 1:
            return bool(plain(self).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(plain(self).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(plain(self).reshape(-1)[0])

    def __index__(self):
        if self.ndim != 0 or self._sdt.kind not in 'iu':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return operator.index(plain(self).reshape(-1)[0])

    def __abs__(self):
        return apply_ufunc(np.absolute, (self,))

    def __repr__(self):
        return 'SymArray(%s)' % (plain(self).tolist(),)

    __str__ = __repr__

    def __reduce__(self):
        raise TypeError('cannot pickle symbolic array')

    def ptp(self, *a, **k):
        return TABLE['max'](self, *a, **k) - TABLE['min'](self, *a, **k)

    def fill(self, v):
        self[...] = v

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = TABLE['sort'](self, axis)

    def dot(self, b, out=None):
        return TABLE['dot'](self, b)

    def __matmul__(self, o):
        return TABLE['matmul'](self, o)

    def __rmatmul__(self, o):
        return TABLE['matmul'](o, self)

    def partition(self, kth, axis=-1, **k):
        self[...] = TABLE['partition'](self, kth, axis)

    def argpartition(self, kth, axis=-1, **k):
        return TABLE['argpartition'](self, kth, axis)


def _meth(name):
    def f(self, *a, **k):
        return TABLE[name](self, *a, **k)
    f.__name__ = name
    return f


for _n in ('sum', 'mean', 'std', 'var', 'max', 'min', 'argmax', 'argmin', 'any', 'all', 'prod', 'cumsum', 'cumprod',
           'argsort', 'clip', 'round', 'nonzero', 'searchsorted', 'take', 'repeat'):
    setattr(SymArray, _n, _meth(_n))


def _iop(ufunc, orig):
    def f(self, o):
        if isinstance(o, Sym):      # ndarray refuses operands without array support; a scalar broadcasts in place
            apply_ufunc(ufunc, (self, o), kw=dict(out=(self,)))
            return self
        return orig(self, o)
    return f


for _n, _u in (('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('truediv', np.true_divide),
               ('floordiv', np.floor_divide), ('mod', np.remainder), ('pow', np.power), ('and', np.bitwise_and),
               ('or', np.bitwise_or), ('xor', np.bitwise_xor)):
    setattr(SymArray, '__i%s__' % _n, _iop(_u, getattr(np.ndarray, '__i%s__' % _n)))


# ------------------------------------------------------------------ conversion helpers
def todtype(dt):
    if dt is None:
        return None
    if isinstance(dt, np.dtype):
        return dt
    d = getattr(dt, '_real', None)
    if d is not None:
        return np.dtype(d)
    if dt is float:
        return F8
    return np.dtype(dt)


def plain(a):
    """view as plain object ndarray"""
    return np.ndarray.view(a, np.ndarray)


def wrap(o, sdt):
    if not isinstance(o, np.ndarray):
        x = np.empty((), dtype=object)
        x[()] = o
        o = x
    v = o.view(SymArray)
    v._sdt = sdt
    return v


def _hassym(a):
    for x in plain(a).flat:
        if isinstance(x, Sym):
            return True
    return False


def conc(a):
    """real ndarray if all-concrete else None"""
    if isinstance(a, SymArray):
        if _hassym(a):
            return None
        p = plain(a)
        if a._sdt == OBJ:
            return p
        return p.astype(a._sdt)
    return a


def fromreal(a):
    """real ndarray -> SymArray"""
    if isinstance(a, SymArray):
        return a
    sdt = np.ndarray.dtype.__get__(a)
    if sdt.kind not in 'fiub':
        return a
    o = a.astype(object)
    if not isinstance(o, np.ndarray):
        o = np.asarray(o, dtype=object)
    if sdt == np.dtype('f4'):
        pass
    return wrap(o, sdt)


def symscalar_dt(v):
    if isinstance(v, SReal):
        return F8
    if isinstance(v, core.SNarrow):
        return v.dt
    if isinstance(v, SInt):
        return I8
    return B1


def dt_of(v):
    if isinstance(v, SymArray):
        return v._sdt
    if isinstance(v, Sym):
        return symscalar_dt(v)
    if isinstance(v, (np.ndarray, np.generic)):
        return v.dtype
    return np.asarray(v).dtype


def pyscalar(v, sdt):
    if sdt.kind == 'f':
        return float(v)
    if sdt.kind in 'iu':
        return int(v)
    if sdt.kind == 'b':
        return bool(v)
    return v


def elem(r, sdt):
    if isinstance(r, Sym):
        if isinstance(r, SInt):
            if core.narrow_dt(sdt):
                return core.SNarrow(r.e, True, sdt)
            return SInt(r.e, True) if isinstance(r, core.SNarrow) else r if r.np else SInt(r.e, True)
        return r if r.np else type(r)(r.e, True)
    if sdt.kind in 'fiub':
        return sdt.type(r)
    return r


def coerce_scalar(v, sdt, npf=True):
    """value stored into an array of pseudo dtype sdt"""
    if isinstance(v, np.ndarray):
        if v.size == 1:
            v = plain(v).reshape(-1)[0] if isinstance(v, SymArray) else v.item()
    if sdt is None or sdt == OBJ:
        return v
    if isinstance(v, Sym):
        if sdt.kind == 'f':
            return v if isinstance(v, SReal) and v.np else SReal(R(v), npf)
        if sdt.kind in 'iu':
            if core.narrow_dt(sdt):
                return SInt(v.e if isinstance(v, core.SNarrow) and v.dt == sdt else core.wrap_int(s_trunc_int(v, npf).e, sdt), True)
            return s_trunc_int(v, npf)
        if sdt.kind == 'b':
            if isinstance(v, SBool):
                return v
            k, e = lift(v)
            return mkbool(e != 0, npf)
        return v
    if v is None or isinstance(v, str):
        return np.asarray(v).astype(sdt).item()
    if sdt.kind in 'iu':
        # keep wrapped ints so that dictionary keys compare uniformly
        if isinstance(v, (float, np.floating)):
            if not math.isfinite(v):
                return int(np.asarray(v).astype(sdt))
            return int(v)
        return int(v)
    if sdt.kind == 'f':
        return float(v) if sdt == F8 else float(sdt.type(v))
    if sdt.kind == 'b':
        return bool(v)
    return v


_co = {}


def coerce_arr(a, sdt):
    if sdt is None:
        return a
    o = plain(a) if isinstance(a, np.ndarray) else a
    f = _co.get(sdt)
    if f is None:
        if sdt.kind in 'iu':
            def g(v):
                v = coerce_scalar(v, sdt)
                return v if isinstance(v, Sym) else SInt(core.iv(core.wrap_int(int(v), sdt) if core.narrow_dt(sdt) else v), True)
        else:
            def g(v):
                return coerce_scalar(v, sdt)
        f = _co[sdt] = np.frompyfunc(g, 1, 1)
    r = f(o)
    if not isinstance(r, np.ndarray):
        x = np.empty((), dtype=object)
        x[()] = r
        r = x
    return wrap(r, sdt)


def coerce_any(v, sdt):
    if isinstance(v, SymArray):
        if v._sdt == sdt:
            return plain(v)
        return np.frompyfunc(lambda x: coerce_scalar(x, sdt), 1, 1)(plain(v))
    if isinstance(v, np.ndarray):
        return np.frompyfunc(lambda x: coerce_scalar(x, sdt), 1, 1)(v.astype(object))
    if isinstance(v, (list, tuple, range)):
        return coerce_any(asarr(v), sdt)
    return coerce_scalar(v, sdt)


def _walk_leaves(x, out):
    if isinstance(x, SymArray):
        out.append(('d', x._sdt))
        return
    if isinstance(x, np.ndarray):
        out.append(('d', x.dtype))
        return
    if isinstance(x, (list, tuple)):
        for y in x:
            _walk_leaves(y, out)
        return
    if isinstance(x, Sym):
        out.append(('d', symscalar_dt(x)))
    else:
        out.append(('v', x))


def has_sym(x, depth=0):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return _hassym(x)
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, Sym) for v in x.flat)
    if isinstance(x, (list, tuple, set, frozenset)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x.values())
    from collections import deque
    if isinstance(x, deque):
        return any(has_sym(y, depth + 1) for y in x)
    return False


def has_symtype(x, depth=0):
    if isinstance(x, (Sym, SymArray)):
        return True
    if isinstance(x, (list, tuple, set, frozenset)) and depth < 6:
        return any(has_symtype(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 6:
        return any(has_symtype(y, depth + 1) for y in x.values())
    from collections import deque
    if isinstance(x, deque):
        return any(has_symtype(y, depth + 1) for y in x)
    return False


def asarr(x, dtype=None, copy=False):
    """np.asarray for anything, returning SymArray"""
    dtype = todtype(dtype)
    if isinstance(x, SymArray):
        if dtype is not None and dtype != x._sdt:
            return coerce_arr(x, dtype)
        return x.copy() if copy else x
    if isinstance(x, np.ndarray):
        if dtype is not None:
            x = x.astype(dtype) if x.dtype != object else x
            if x.dtype == object:
                return coerce_arr(x, dtype)
        r = fromreal(x)
        return r
    if isinstance(x, Sym):
        o = np.empty((), dtype=object)
        o[()] = x if x.np else type(x)(x.e, True)
        r = wrap(o, symscalar_dt(x))
        return coerce_arr(r, dtype) if dtype is not None else r
    if hasattr(x, '__array__') and not isinstance(x, (list, tuple)):
        return asarr(np.asarray(x), dtype)
    if isinstance(x, (set, frozenset, dict)) or isinstance(x, types.GeneratorType):
        return np.asarray(x)
    from collections import deque
    if isinstance(x, (deque, range)):
        x = list(x)
    if isinstance(x, map) or isinstance(x, filter):
        return np.asarray(x)
    if not has_symtype(x):
        r = np.asarray(x, dtype=dtype)
        return fromreal(r)
    # nested sequence with symbolic leaves
    leaves = []
    _walk_leaves(x, leaves)
    if dtype is None:
        probes = [np.empty(0, d) for t, d in leaves if t == 'd']
        vals = [v for t, v in leaves if t == 'v']
        dts = set(p.dtype for p in probes)
        if vals:
            dts.add(np.asarray(vals).dtype)
        sdt = np.result_type(*dts)
    else:
        sdt = dtype

    def shape(v):
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple, deque)):
            v = list(v)
            if not v:
                return (0,)
            s0 = shape(v[0])
            for w in v[1:]:
                if shape(w) != s0:
                    raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            return (len(v),) + s0
        return ()
    shp = shape(x)
    o = np.empty(shp, dtype=object)

    def fill(v, ix):
        if isinstance(v, SymArray):
            p = plain(v)
            for j in np.ndindex(v.shape):
                o[ix + j] = p[j]
        elif isinstance(v, np.ndarray):
            for j in np.ndindex(v.shape):
                o[ix + j] = v[j]
        elif isinstance(v, (list, tuple, deque)):
            for j, w in enumerate(v):
                fill(w, ix + (j,))
        else:
            o[ix] = SInt(v.e, True) if isinstance(v, core.SNarrow) else v
    fill(x, ())
    if sdt == OBJ:
        return wrap(o, OBJ)
    r = wrap(np.frompyfunc(lambda v: coerce_scalar(v, sdt), 1, 1)(o) if o.ndim else o, sdt)
    return r


def fixindex(ix):
    if isinstance(ix, tuple):
        return tuple(fixindex1(i) for i in ix)
    return fixindex1(ix)


def fixindex1(i):
    if isinstance(i, SymArray):
        if i._sdt.kind == 'b':
            r = np.empty(i.shape, dtype=bool)
            p = plain(i)
            for j in np.ndindex(i.shape):
                r[j] = bool(p[j])
            return r
        if i._sdt.kind in 'iu':
            r = np.empty(i.shape, dtype=np.int64)
            p = plain(i)
            for j in np.ndindex(i.shape):
                r[j] = operator.index(p[j])
            return r if r.ndim else int(r)
        return np.asarray(plain(i).astype(i._sdt))
    if isinstance(i, SInt):
        return i.__index__()
    if isinstance(i, SBool):
        return bool(i)
    if isinstance(i, SReal):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
    if isinstance(i, slice):
        return slice(*[s.__index__() if isinstance(s, SInt) else s for s in (i.start, i.stop, i.step)])
    if isinstance(i, list) and has_symtype(i):
        return fixindex1(asarr(i))
    return i


# ------------------------------------------------------------------ ufuncs
def _uf(name):
    return lambda a: core.eng().uf(name, a, True)


def _npc(f, *a):
    with np.errstate(all='ignore'):
        return f(*[np.float64(x) if isinstance(x, float) else x for x in a])


def _cmpf(op):
    return lambda a, b: s_cmp(op, a, b)


def _land(a, b):
    return mkbool(z3.And(as_bool_expr(a), as_bool_expr(b)), True)


def _lor(a, b):
    return mkbool(z3.Or(as_bool_expr(a), as_bool_expr(b)), True)


def _sign(a):
    k, e = lift(a)
    return SReal(z3.If(e > 0, core.rv(1), z3.If(e < 0, core.rv(-1), core.rv(0))), True)


SCALAR = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'divide': lambda a, b: core.s_div(_npw(a), b), 'true_divide': lambda a, b: core.s_div(_npw(a), b),
    'floor_divide': lambda a, b: a // b, 'remainder': lambda a, b: a % b, 'mod': lambda a, b: a % b,
    'power': lambda a, b: s_pow(_npw(a), b), 'float_power': lambda a, b: s_pow(_npw(a), b),
    'negative': lambda a: -a, 'positive': lambda a: a, 'absolute': s_abs, 'abs': s_abs, 'fabs': s_abs,
    'square': lambda a: a * a, 'sqrt': lambda a: s_sqrt(a, True), 'reciprocal': lambda a: core.s_div(np.float64(1.0), a),
    'less': _cmpf('lt'), 'less_equal': _cmpf('le'), 'greater': _cmpf('gt'), 'greater_equal': _cmpf('ge'),
    'equal': _cmpf('eq'), 'not_equal': _cmpf('ne'),
    'logical_and': _land, 'logical_or': _lor, 'logical_not': s_not, 'bitwise_and': _land, 'bitwise_or': _lor,
    'invert': s_not, 'logical_xor': lambda a, b: mkbool(z3.Xor(as_bool_expr(a), as_bool_expr(b)), True),
    'maximum': smax2, 'minimum': smin2, 'fmax': smax2, 'fmin': smin2,
    'floor': lambda a: s_floor(a, True), 'ceil': lambda a: s_ceil(a, True), 'rint': lambda a: s_round(a, 0),
    'trunc': lambda a: SReal(z3.ToReal(s_trunc_int(a).e), True),
    'sign': _sign, 'isfinite': lambda a: True, 'isnan': lambda a: False, 'isinf': lambda a: False,
    'conjugate': lambda a: a, 'signbit': lambda a: s_cmp('lt', a, 0),
    'hypot': lambda a, b: s_sqrt(a * a + b * b, True),
}
for _n in ('exp', 'log', 'log2', 'log10', 'log1p', 'expm1', 'tanh', 'cos', 'sin', 'arctan'):
    SCALAR[_n] = _uf(_n)


def _npw(a):
    """mark as numpy scalar"""
    if isinstance(a, Sym):
        return a if a.np else type(a)(a.e, True)
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        return np.float64(a)
    return a


_fp = {}


def _vec(ufunc):
    f = _fp.get(ufunc)
    if f is None:
        h = SCALAR.get(ufunc.__name__)

        def g(*a):
            if not any(isinstance(x, Sym) for x in a):
                r = _npc(ufunc, *a)
                return r.item() if isinstance(r, np.generic) else r
            if h is None:
                raise PathLimit('ufunc %s on symbolic values' % ufunc.__name__)
            if any(isinstance(x, (float, np.floating)) and x != x for x in a) and ufunc.__name__ not in (
                    'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'isnan', 'isfinite'):
                return math.nan
            return h(*a)
        f = _fp[ufunc] = np.frompyfunc(g, ufunc.nin, 1)
    return f


def _probe(v):
    if isinstance(v, SymArray):
        return np.ones((1,) * min(v.ndim, 1) or (), v._sdt) if v.ndim else v._sdt.type(1)
    if isinstance(v, np.ndarray):
        return np.ones(1, v.dtype)
    if isinstance(v, SReal):
        return np.float64(1) if v.np else 1.0
    if isinstance(v, core.SNarrow):
        return v.dt.type(1)
    if isinstance(v, SInt):
        return np.int64(1) if v.np else 1
    if isinstance(v, SBool):
        return np.True_ if v.np else True
    if isinstance(v, float):
        return 1.0
    if isinstance(v, bool):
        return True
    if isinstance(v, int):
        return 1
    if isinstance(v, np.generic):
        return v.dtype.type(1)
    return v


def result_dt(ufunc, inputs, out=None):
    pr = [_probe(v) for v in inputs]
    with np.errstate(all='ignore'):
        if out is not None:
            r = ufunc(*pr, out=np.ones(1, out._sdt if isinstance(out, SymArray) else out.dtype))
        else:
            r = ufunc(*pr)
    return np.asarray(r).dtype


def _obj(v):
    if isinstance(v, SymArray):
        return plain(v)
    if isinstance(v, np.ndarray):
        return v.astype(object)
    if isinstance(v, (np.generic,)):
        return v.item() if not isinstance(v, np.floating) else float(v)
    if isinstance(v, Sym):
        o = np.empty((), dtype=object)
        o[()] = SInt(v.e, True) if isinstance(v, core.SNarrow) else v
        return o
    return v


_NOWRAP = ('maximum', 'minimum', 'fmax', 'fmin', 'positive', 'sign')


def _wrapped(r, dt):
    """integer results of a narrow type, modulo its size"""
    def one(v):
        if isinstance(v, SInt):
            return SInt(core.wrap_int(v.e, dt), True)
        return core.wrap_int(int(v), dt) if isinstance(v, (int, np.integer)) and not isinstance(v, bool) else v
    if isinstance(r, np.ndarray):
        return np.frompyfunc(one, 1, 1)(r)
    return one(r)


def apply_ufunc(ufunc, inputs, method='__call__', kw=None):
    kw = dict(kw or {})
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kw.pop('where', True)
    dtype = todtype(kw.pop('dtype', None))
    inputs = tuple(asarr(x) if isinstance(x, (list, tuple)) else x for x in inputs)
    if method == 'reduce':
        a = asarr(inputs[0])
        name = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min', 'logical_and': 'all',
                'logical_or': 'any'}.get(ufunc.__name__)
        if name is None:
            raise PathLimit('reduce ' + ufunc.__name__)
        return TABLE[name](a, **dict(dict(axis=0, out=out, where=where, dtype=dtype) if name not in ('any', 'all') else dict(axis=0, out=out, where=where), **kw))
    if method == 'accumulate':
        a = asarr(inputs[0])
        return TABLE['_accumulate'](ufunc, a, kw.get('axis', 0))
    if method == 'outer':
        a, b = asarr(inputs[0]), asarr(inputs[1])
        return apply_ufunc(ufunc, (a.reshape(a.shape + (1,) * b.ndim), b))
    if method == 'at':
        a, ix = inputs[0], inputs[1]
        vals = inputs[2] if len(inputs) > 2 else None
        ix = np.atleast_1d(fixindex1(asarr(ix)) if not isinstance(ix, tuple) else ix)
        vals = asarr(vals) if vals is not None else None
        for n, i in enumerate(ix):
            a[int(i)] = apply_ufunc(ufunc, (a[int(i)],) + ((vals[n] if vals.ndim else vals,) if vals is not None else ()))
        return None
    if method != '__call__':
        raise PathLimit('ufunc method ' + method)
    if ufunc.__name__ == 'matmul':
        return TABLE['matmul'](*inputs)
    rdt = result_dt(ufunc, inputs, out)
    if dtype is not None:
        rdt = dtype
    cs = [conc(x) if isinstance(x, SymArray) else x for x in inputs]
    if all(c is not None and not isinstance(c, Sym) for c in cs) and where is True:
        with np.errstate(all='ignore'):
            r = ufunc(*cs, **kw)
        if isinstance(r, tuple):
            return tuple(fromreal(x) if isinstance(x, np.ndarray) else x for x in r)
        r = fromreal(r) if isinstance(r, np.ndarray) else r
    else:
        r = _vec(ufunc)(*[_obj(x) for x in inputs])
        if core.narrow_dt(rdt) and ufunc.__name__ not in _NOWRAP:
            r = _wrapped(r, rdt)
        if isinstance(r, np.ndarray):
            r = wrap(r, rdt)
        else:
            r = elem(r, rdt)
    if where is not True:
        w = plain(asarr(where))
        if out is None:
            return TABLE['where'](asarr(where), r, 0.0)
        r = TABLE['where'](asarr(where), r, out)
    if out is not None:
        o = out
        if isinstance(o, SymArray):
            np.ndarray.__setitem__(o, Ellipsis, coerce_any(r, o._sdt))
            return o
        o[...] = r
        return o
    return r


# ------------------------------------------------------------------ functions
TABLE = {}
LINALG = {}
RANDOM = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def _sc(x):
    """0-d result -> scalar"""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return elem(plain(x)[()] if isinstance(x, SymArray) else x[()], dt_of(x))
    return x


def _reduce(a, axis, keepdims, fn, rdt):
    """fn: list of elements -> element"""
    p = plain(a)
    if axis is None:
        r = fn(list(p.reshape(-1)))
        if keepdims:
            return wrap(r, rdt).reshape((1,) * a.ndim)
        return elem(r, rdt)
    if isinstance(axis, tuple):
        axs = sorted(x % a.ndim for x in axis)
        m = np.moveaxis(p, axs, range(a.ndim - len(axs), a.ndim))
        out = np.empty(m.shape[:a.ndim - len(axs)], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = fn(list(m[i].reshape(-1)))
        if keepdims:
            return wrap(np.expand_dims(out, tuple(axs)), rdt)
        return _sc(wrap(out, rdt))
    axis = operator.index(axis)
    if not -a.ndim <= axis < max(a.ndim, 1):
        raise np.exceptions.AxisError(axis, a.ndim)
    m = np.moveaxis(p, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = fn(list(m[i]))
    r = wrap(out, rdt)
    if keepdims:
        r = wrap(np.expand_dims(out, axis), rdt)
    return _sc(r) if not keepdims else r


def _csum(l):
    """sum of mixed list"""
    cs = 0
    acc = None
    for x in l:
        if isinstance(x, Sym):
            if isinstance(x, SBool):
                x = SInt(core.toint('b', x.e), x.np)
            acc = x if acc is None else acc + x
        else:
            cs = cs + x
    if acc is None:
        return cs
    if isinstance(cs, float) and cs == 0.0:
        cs = 0
    return acc + cs if cs != 0 else acc


def _concfast(name):
    return getattr(np, name)


_NV = np._globals._NoValueType
_COMB = {'sum': lambda i, r: i + r, 'prod': lambda i, r: i * r, 'max': lambda i, r: smax2(i, r), 'min': lambda i, r: smin2(i, r),
         'any': lambda i, r: mkbool(z3.Or(as_bool_expr(i), as_bool_expr(r)), True), 'all': lambda i, r: mkbool(z3.And(as_bool_expr(i), as_bool_expr(r)), True)}


def _red(name, fn, dtf):
    base = name[3:] if name.startswith('nan') else name
    skip = base != name

    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True, **k):
        if k:
            raise PathLimit('%s with %s' % (name, sorted(k)))
        a = asarr(a)
        if isinstance(axis, _NV):
            axis = None
        if isinstance(keepdims, _NV):
            keepdims = False
        if isinstance(where, _NV):
            where = True
        hasinit = not isinstance(initial, _NV)
        c = conc(a)
        cw = where if isinstance(where, (bool, np.bool_)) else conc(asarr(where))
        if c is not None and cw is not None and not isinstance(initial, Sym):
            kk = {}
            if keepdims:
                kk['keepdims'] = True
            if dtype is not None:
                kk['dtype'] = todtype(dtype)
            if hasinit:
                kk['initial'] = initial
            if cw is not True:
                kk['where'] = cw
            r = getattr(np, name)(c, axis=axis, **kk)
            r = fromreal(r) if isinstance(r, np.ndarray) else r
        else:
            if a.size == 0 and base in ('max', 'min') and not hasinit:
                raise ValueError('zero-size array to reduction operation which has no identity')
            if cw is not True or hasinit:
                if base not in _COMB:
                    if hasinit:
                        raise PathLimit('%s with initial' % name)
                    if cw is None:
                        raise PathLimit('%s with symbolic where' % name)
            g = fn
            if skip:
                g = lambda l: fn([v for v in l if not (isinstance(v, float) and v != v)])
            p = a
            if cw is not True:
                m = np.broadcast_to(np.array([bool(v) for v in plain(asarr(where)).reshape(-1)], dtype=bool).reshape(asarr(where).shape), a.shape)
                o = np.empty(a.shape, dtype=object)
                pa = plain(a)
                for i in np.ndindex(a.shape):
                    o[i] = pa[i] if m[i] else _SKIP
                p = wrap(o, a._sdt)
                g0 = g

                def g(l):
                    l = [v for v in l if v is not _SKIP]
                    if not l and base in ('max', 'min') and not hasinit:
                        raise ValueError('reduction operation %s does not have an identity, so to use a where mask one has to specify \'initial\'' % base)
                    return g0(l) if l or base not in ('max', 'min') else _SKIP
            if hasinit:
                g1 = g

                def g(l):
                    if not l and base in ('max', 'min'):
                        return initial
                    r = g1(l)
                    return initial if r is _SKIP else _COMB[base](initial, r)
            rdt = todtype(dtype) or dtf(a._sdt)
            r = _reduce(p, axis, keepdims, g, rdt)
        if out is not None and not isinstance(out, _NV):
            out[...] = r
            return out
        return r
    return f


_SKIP = object()


def _sumdt(d):
    return I8 if d.kind in 'b' else (I8 if d.kind == 'i' else d)


def _prod(l):
    r = 1
    for x in l:
        r = r * x
    return r


def _fold(f):
    def g(l):
        r = l[0]
        for x in l[1:]:
            r = f(r, x)
        return r
    return g


def _anyf(l):
    return mkbool(z3.Or([as_bool_expr(x) for x in l]), True)


def _allf(l):
    return mkbool(z3.And([as_bool_expr(x) for x in l]), True)


for _p in ('', 'nan'):
    TABLE[_p + 'sum'] = _red(_p + 'sum', _csum, _sumdt)
    TABLE[_p + 'prod'] = _red(_p + 'prod', _prod, _sumdt)
    TABLE[_p + 'max'] = _red(_p + 'max', _fold(smax2), lambda d: d)
    TABLE[_p + 'min'] = _red(_p + 'min', _fold(smin2), lambda d: d)
    TABLE[_p + 'mean'] = _red(_p + 'mean', lambda l: core.s_div(_npw(_csum(l)), len(l)), lambda d: F8)
TABLE['amax'], TABLE['amin'] = TABLE['max'], TABLE['min']
TABLE['any'] = _red('any', _anyf, lambda d: B1)
TABLE['all'] = _red('all', _allf, lambda d: B1)


def _var(l, ddof=0):
    n = len(l)
    m = _csum(l) / n if n else math.nan
    d = [x - m for x in l]
    s = _csum([x * x for x in d])
    if n - ddof <= 0:
        return math.nan
    return s / (n - ddof)


@reg('var')
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    if 'correction' in k:
        ddof = k.pop('correction')
    if k:
        raise PathLimit('var with %s' % sorted(k))
    a = asarr(a)
    c = conc(a)
    if c is not None:
        r = np.var(c, axis=axis, ddof=ddof, keepdims=keepdims)
        return fromreal(r) if isinstance(r, np.ndarray) else r
    return _reduce(a, axis, keepdims, lambda l: _var(l, ddof), F8)


@reg('std')
def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    if 'correction' in k:
        ddof = k.pop('correction')
    if k:
        raise PathLimit('std with %s' % sorted(k))
    a = asarr(a)
    c = conc(a)
    if c is not None:
        r = np.std(c, axis=axis, ddof=ddof, keepdims=keepdims)
        return fromreal(r) if isinstance(r, np.ndarray) else r

    def g(l):
        v = _var(l, ddof)
        # a sum of squares is non-negative: no domain fork
        if isinstance(v, Sym):
            e = z3.simplify(v.e)
            if not z3.is_rational_value(e):
                return SReal(core.eng().sqrt(v.e), True)
            return float(np.sqrt(float(e.as_fraction())))
        return float(np.sqrt(v))
    return _reduce(a, axis, keepdims, g, F8)


def sort_list(l):
    """ite sorting network (odd-even transposition / insertion), no forks"""
    l = list(l)
    if not any(isinstance(x, Sym) for x in l):
        return sorted(l)
    n = len(l)
    if n > 9 or core.eng().fork_sort:
        # fork-based sort
        return sorted(l)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = l[j], l[j + 1]
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                if b < a:
                    l[j], l[j + 1] = b, a
                continue
            c = s_cmp('le', a, b)
            if isinstance(c, Sym):
                l[j], l[j + 1] = ite(c, a, b), ite(c, b, a)
            elif not c:
                l[j], l[j + 1] = b, a
    return l


def _median(l):
    s = sort_list(l)
    n = len(s)
    if n == 0:
        return math.nan
    if n % 2:
        return s[n // 2] * 1.0 if isinstance(s[n // 2], Sym) else float(s[n // 2])
    return (s[n // 2 - 1] + s[n // 2]) / 2.0


def _red_noargs(name, fn, dtf):
    inner = _red(name, fn, dtf)

    def f(a, axis=None, out=None, overwrite_input=False, keepdims=False):
        return inner(a, axis=axis, out=out, keepdims=keepdims)
    return f


TABLE['median'] = _red_noargs('median', _median, lambda d: F8)
TABLE['nanmedian'] = _red_noargs('nanmedian', _median, lambda d: F8)


@reg('sort')
def f_sort(a, axis=-1, kind=None, order=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    p = np.moveaxis(plain(a), axis, -1)
    out = np.empty(p.shape, dtype=object)
    for i in np.ndindex(p.shape[:-1]):
        s = sort_list(list(p[i]))
        for j, v in enumerate(s):
            out[i + (j,)] = v
    return wrap(np.moveaxis(out, -1, axis), a._sdt)


def _kths(kth, n):
    ks = []
    for kk in np.atleast_1d(np.asarray(fixindex1(kth) if isinstance(kth, Sym) else kth)):
        if not -n <= kk < n:
            raise ValueError('kth(=%d) out of bounds (%d)' % (kk, n))
        ks.append(int(kk) % n)
    return sorted(set(ks))


def _segrev(l, ks):
    """only the kth places are defined: the others come in reversed order here"""
    out, a = [], 0
    for k in ks:
        out += l[a:k][::-1] + [l[k]]
        a = k + 1
    return out + l[a:][::-1]


@reg('partition')
def f_partition(a, kth, axis=-1, kind='introselect', order=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    c = conc(a)
    if c is not None and not isinstance(kth, Sym):
        return fromreal(np.partition(c, conc(kth) if isinstance(kth, SymArray) else kth, axis=axis))
    ks = _kths(kth, a.shape[axis])
    p = np.moveaxis(plain(a), axis, -1)
    out = np.empty(p.shape, dtype=object)
    for i in np.ndindex(p.shape[:-1]):
        for j, v in enumerate(_segrev(sort_list(list(p[i])), ks)):
            out[i + (j,)] = v
    return wrap(np.moveaxis(out, -1, axis), a._sdt)


@reg('argpartition')
def f_argpartition(a, kth, axis=-1, kind='introselect', order=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    c = conc(a)
    if c is not None and not isinstance(kth, Sym):
        return fromreal(np.argpartition(c, conc(kth) if isinstance(kth, SymArray) else kth, axis=axis))
    if a.ndim != 1:
        raise PathLimit('argpartition nd')
    return fromreal(np.array(_segrev([int(v) for v in f_argsort(a)], _kths(kth, a.shape[0])), dtype=np.int64))


@reg('argsort')
def f_argsort(a, axis=-1, kind=None, order=None, **k):
    a = asarr(a)
    c = conc(a)
    if c is not None:
        return fromreal(np.argsort(c, axis=axis, kind='stable'))
    if a.ndim != 1:
        raise PathLimit('argsort nd')
    l = list(plain(a))
    ix = sorted(range(len(l)), key=lambda i: _Key(l[i]))
    return fromreal(np.array(ix, dtype=np.int64))


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(s_cmp('lt', self.v, o.v)) if isinstance(self.v, Sym) or isinstance(o.v, Sym) else self.v < o.v


def _argext(op):
    def fn(l):
        """index of the first extreme, as an ite-chained symbolic integer"""
        bi, bv = 0, l[0]
        for i, x in enumerate(l[1:], 1):
            if not isinstance(x, Sym) and not isinstance(bv, Sym):
                c = x > bv if op == 'gt' else x < bv
            else:
                c = s_cmp(op, x, bv)
            bi, bv = ite(c, i, bi), ite(c, x, bv)
        return bi
    return fn


TABLE['argmax'] = _red('argmax', _argext('gt'), lambda d: I8)
TABLE['argmin'] = _red('argmin', _argext('lt'), lambda d: I8)


@reg('where')
def f_where(c, *xy):
    c = asarr(c)
    if not xy:
        return f_nonzero(c)
    x, y = (v if isinstance(v, Sym) or core.is_num(v) else asarr(v) for v in xy)
    cc = conc(c)
    if cc is not None and not has_sym(x) and not has_sym(y):
        return fromreal(np.where(cc, conc(x), conc(y)))
    rdt = np.result_type(*[_probe(v) for v in (x, y)])
    r = np.frompyfunc(lambda a, b, d: ite(a, b, d), 3, 1)(plain(c), _obj(x), _obj(y))
    return wrap(r, rdt)


@reg('nonzero', 'flatnonzero')
def f_nonzero(a):
    a = asarr(a)
    m = np.empty(a.shape, dtype=bool)
    p = plain(a)
    for i in np.ndindex(a.shape):
        m[i] = bool(p[i])
    return tuple(fromreal(x) for x in np.nonzero(m))


TABLE['flatnonzero'] = lambda a: f_nonzero(asarr(a).ravel())[0]


@reg('argwhere')
def f_argwhere(a):
    return f_stack(f_nonzero(a), 1)


@reg('count_nonzero')
def f_count_nonzero(a, axis=None, **k):
    a = asarr(a)
    b = wrap(np.frompyfunc(lambda v: SInt(z3.If(as_bool_expr(v), core.iv(1), core.iv(0)), True) if isinstance(v, Sym) else int(bool(v)), 1, 1)(plain(a)), I8)
    return TABLE['sum'](b, axis=axis)


@reg('clip')
def f_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = asarr(a)
    if a_min is not None:
        r = apply_ufunc(np.maximum, (r, a_min))
    if a_max is not None:
        r = apply_ufunc(np.minimum, (r, a_max))
    if out is not None:
        out[...] = r
        return out
    return _sc(r)


@reg('round', 'around', 'round_')
def f_round(a, decimals=0, out=None):
    a = asarr(a)
    c = conc(a)
    if c is not None:
        r = np.round(c, decimals)
        return fromreal(r) if isinstance(r, np.ndarray) and r.ndim else _sc(fromreal(np.asarray(r)))
    return _sc(wrap(np.frompyfunc(lambda v: s_round(v, decimals) if isinstance(v, Sym) else round(v, decimals), 1, 1)(plain(a)), a._sdt))


@reg('cumsum')
def f_cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return TABLE['_accumulate'](np.add, a, axis)


@reg('cumprod')
def f_cumprod(a, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return TABLE['_accumulate'](np.multiply, a, axis)


@reg('_accumulate')
def f_accum(ufunc, a, axis):
    p = np.moveaxis(plain(a), axis, 0)
    out = np.empty(p.shape, dtype=object)
    v = _vec(ufunc)
    for i in range(p.shape[0]):
        out[i] = p[i] if i == 0 else v(out[i - 1], p[i])
    return wrap(np.moveaxis(out, 0, axis), _sumdt(a._sdt))


@reg('dot')
def f_dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return _contract(a, b, b.ndim - 2 if b.ndim > 1 else 0)


def _contract(a, b, bax):
    ca, cb = conc(a), conc(b)
    rdt = np.result_type(a._sdt, b._sdt)
    if ca is not None and cb is not None:
        r = np.dot(ca, cb)
        return fromreal(r) if isinstance(r, np.ndarray) else r
    if a.shape[-1] != b.shape[bax]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    A = plain(a).reshape(-1, a.shape[-1])
    Bm = np.moveaxis(plain(b), bax, 0)
    rest = Bm.shape[1:]
    Bm = Bm.reshape(b.shape[bax], -1)
    out = np.empty((A.shape[0], Bm.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(Bm.shape[1]):
            l = []
            for k in range(A.shape[1]):
                x, y = A[i, k], Bm[k, j]
                if not isinstance(x, Sym) and x == 0 or not isinstance(y, Sym) and y == 0:
                    continue
                l.append(x * y)
            out[i, j] = _csum(l) if l else 0.0
    out = out.reshape(a.shape[:-1] + rest)
    r = wrap(_wrapped(out, rdt) if core.narrow_dt(rdt) else out, rdt)
    return _sc(r)


@reg('matmul')
def f_matmul(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return f_dot(a, b)
    raise PathLimit('batched matmul')


@reg('inner')
def f_inner(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return _contract(a, b, b.ndim - 1)


@reg('vdot')
def f_vdot(a, b):
    return f_dot(asarr(a).ravel(), asarr(b).ravel())


@reg('outer')
def f_outer(a, b, out=None):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return apply_ufunc(np.multiply, (a.reshape(-1, 1), b.reshape(1, -1)))


@reg('einsum')
def f_einsum(spec, *ops, **k):
    ops = [asarr(o) for o in ops]
    if all(conc(o) is not None for o in ops):
        r = np.einsum(spec, *[conc(o) for o in ops])
        return fromreal(r) if isinstance(r, np.ndarray) else r
    s = spec.replace(' ', '')
    if '->' not in s:
        raise PathLimit('einsum')
    ins, outl = s.split('->')
    ins = ins.split(',')
    if '...' in s:
        ext = [o.ndim - len(t.replace('...', '')) if '...' in t else 0 for t, o in zip(ins, ops)]
        m = max(ext)
        if any('...' in t and e != m for t, e in zip(ins, ext)):
            raise PathLimit('einsum broadcasting')
        letters = 'ABCDEFGH'[:m]
        ins = [t.replace('...', letters) for t in ins]
        outl = outl.replace('...', letters)
    dims = {}
    for t, o in zip(ins, ops):
        for ch, n in zip(t, o.shape):
            dims[ch] = n
    summ = [c for c in dims if c not in outl]
    out = np.empty([dims[c] for c in outl], dtype=object)
    for oi in np.ndindex(out.shape):
        env = dict(zip(outl, oi))
        acc = []
        for si in np.ndindex(*[dims[c] for c in summ]):
            env.update(zip(summ, si))
            v = 1
            for t, o in zip(ins, ops):
                v = v * plain(o)[tuple(env[c] for c in t)]
            acc.append(v)
        out[oi] = _csum(acc)
    return _sc(wrap(out, F8))


def _lnorm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    c = conc(x)
    if c is not None:
        r = np.linalg.norm(c, ord=ord, axis=axis, keepdims=keepdims)
        return fromreal(r) if isinstance(r, np.ndarray) else r
    if isinstance(ord, Sym):
        raise PathLimit('symbolic ord')
    if axis is None and x.ndim > 1:
        if ord not in (None, 'fro'):
            raise PathLimit('matrix norm')
        x = x.reshape(-1)
        ord = None

    def fn(l):
        if ord is None or ord == 2:
            s = _csum([v * v for v in l])
            if isinstance(s, Sym):
                e = z3.simplify(s.e)
                if z3.is_rational_value(e):
                    return math.sqrt(e.as_fraction())
                return SReal(core.eng().sqrt(s.e), True)
            return math.sqrt(s)
        ab = [abs(v) for v in l]
        if ord == 1:
            return _csum(ab)
        if ord == math.inf:
            return _fold(smax2)(ab)
        if ord == -math.inf:
            return _fold(smin2)(ab)
        if ord == 0:
            return TABLE['sum'](asarr([v != 0 for v in l]))
        s = _csum([s_pow(_npw(v), ord) if isinstance(v, Sym) else v ** ord for v in ab])
        return s_pow(_npw(s), 1.0 / ord) if isinstance(s, Sym) else s ** (1.0 / ord)
    return _reduce(x, axis, keepdims, fn, F8)


LINALG['norm'] = _lnorm


def _linv(a):
    a = asarr(a)
    c = conc(a)
    if c is None:
        raise PathLimit('symbolic matrix inverse')
    return fromreal(np.linalg.inv(c))


LINALG['inv'] = _linv


# creation
def _creat(name):
    f = getattr(np, name)

    def g(*a, **k):
        if 'dtype' in k:
            k['dtype'] = todtype(k['dtype'])
        a = tuple(fix_arg(x) for x in a)
        k = {kk: fix_arg(v) for kk, v in k.items()}
        return fromreal(f(*a, **k))
    return g


def fix_arg(x):
    """shape-like arguments: symbolic ints are concretised (forking), dtype shims unwrapped"""
    if isinstance(x, SInt):
        return x.__index__()
    if isinstance(x, SReal):
        return x
    if hasattr(x, '_real'):
        return x._real
    if isinstance(x, (tuple, list)):
        return type(x)(fix_arg(y) for y in x)
    return x


for _n in ('zeros', 'ones', 'empty', 'eye', 'identity', 'arange', 'linspace', 'tri', 'logspace'):
    TABLE[_n] = _creat(_n)
_emptyc = TABLE['zeros']


def f_empty(shape, dtype=None, **k):
    # uninitialised memory is modelled by a recognisable poison value
    r = _emptyc(shape, dtype=dtype or F8)
    if r._sdt.kind == 'f':
        plain(r)[...] = -7.77e77
    elif r._sdt.kind in 'iu':
        plain(r)[...] = -777777
    return r


TABLE['empty'] = f_empty
_ar = TABLE['arange']


@reg('arange')
def f_arange(*a, **k):
    a = tuple(x.__index__() if isinstance(x, SInt) else float(x) if isinstance(x, SReal) else x for x in a)
    return _ar(*a, **k)


@reg('linspace')
def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym(start) and not has_sym(stop):
        r = np.linspace(conc(asarr(start)), conc(asarr(stop)), operator.index(num), endpoint=endpoint)
        return fromreal(r)
    n = operator.index(num)
    div = (n - 1) if endpoint else n
    st = (stop - start) * (1.0) / div if div else 0.0
    return asarr([start + st * i for i in range(n)])


@reg('full')
def f_full(shape, fill_value, dtype=None, **k):
    if dtype is None:
        dtype = dt_of(fill_value)
    r = _emptyc(shape, dtype=dtype)
    r[...] = fill_value
    return r


def _like(name):
    def g(a, *args, dtype=None, **k):
        a = asarr(a)
        if name == 'full':
            return f_full(a.shape, args[0] if args else k['fill_value'], dtype=dtype or a._sdt)
        return TABLE[name](a.shape, dtype=dtype or a._sdt)
    return g


for _n in ('zeros', 'ones', 'empty', 'full'):
    TABLE[_n + '_like'] = _like(_n)


@reg('array')
def f_array(x, dtype=None, copy=True, ndmin=0, **k):
    r = asarr(x, dtype)
    if isinstance(r, SymArray):
        if copy is not False:
            r = r.copy()
        while r.ndim < ndmin:
            r = r[None]
    return r


@reg('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray')
def f_asarray(x, dtype=None, *a, **k):
    return asarr(x, dtype)


@reg('asarray_chkfinite')
def f_acf(x, dtype=None, **k):
    return asarr(x, dtype)


@reg('copy')
def f_copy(x, **k):
    return asarr(x).copy()


@reg('fromiter')
def f_fromiter(it, dtype=None, count=-1):
    return asarr(list(it), dtype)


# shape manipulation via object arrays
def _shapef(name):
    f = getattr(np, name)
    impl = getattr(f, '_implementation', f)

    def g(a, *args, **k):
        a = asarr(a)
        args = tuple(fix_arg(x) for x in args)
        k = {kk: fix_arg(v) for kk, v in k.items()}
        r = f(plain(a), *args, **k)
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(x, a._sdt) for x in r)
        return wrap(r, a._sdt)
    return g


for _n in ('reshape', 'ravel', 'squeeze', 'expand_dims', 'transpose', 'moveaxis', 'swapaxes', 'flip', 'fliplr', 'flipud',
           'roll', 'tile', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'split', 'array_split', 'diagonal', 'triu', 'tril',
           'rot90', 'diag', 'vsplit', 'hsplit', 'resize'):
    TABLE[_n] = _shapef(_n)


@reg('repeat')
def f_repeat(a, n, axis=None):
    a = asarr(a)
    return wrap(np.repeat(plain(a), fixindex1(n) if isinstance(n, (SymArray, Sym)) else n, axis), a._sdt)


@reg('take')
def f_take(a, ix, axis=None, **k):
    a = asarr(a)
    ix = fixindex1(ix if isinstance(ix, Sym) else asarr(ix))
    return _sc(wrap(np.take(plain(a), ix, axis), a._sdt))


@reg('delete')
def f_delete(a, obj, axis=None):
    a = asarr(a)
    if isinstance(obj, (Sym, SymArray, list)):
        obj = fixindex1(obj)
    return wrap(np.delete(plain(a), obj, axis), a._sdt)


@reg('insert')
def f_insert(a, obj, values, axis=None):
    a = asarr(a)
    if isinstance(obj, (Sym, SymArray)):
        obj = fixindex1(obj)
    v = coerce_any(values, a._sdt)
    return wrap(np.insert(plain(a), obj, v, axis), a._sdt)


@reg('append')
def f_append(a, v, axis=None):
    a, v = asarr(a), asarr(v)
    if axis is None:
        a, v = a.ravel(), v.ravel()
        axis = 0
    return f_concat((a, v), axis)


@reg('concatenate')
def f_concat(arrs, axis=0, out=None, dtype=None, **k):
    l = [asarr(x) for x in arrs]
    if any(x.ndim == 0 for x in l):
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    sdt = todtype(dtype) or np.result_type(*[x._sdt if isinstance(x, SymArray) else x.dtype for x in l])
    ps = [coerce_any(x, sdt) for x in l]
    return wrap(np.concatenate(ps, axis), sdt)


def _stackf(name):
    f = getattr(np, name)

    def g(arrs, *a, **k):
        l = [asarr(x) for x in arrs]
        sdt = np.result_type(*[x._sdt for x in l])
        return wrap(f([coerce_any(x, sdt) if x.ndim else _box(coerce_any(x, sdt)) for x in l], *a, **k), sdt)
    return g


def _box(v):
    if isinstance(v, np.ndarray):
        return v
    o = np.empty((), dtype=object)
    o[()] = v
    return o


for _n in ('stack', 'hstack', 'vstack', 'column_stack', 'dstack'):
    TABLE[_n] = _stackf(_n)
f_stack = TABLE['stack']


@reg('average')
def f_average(a, axis=None, weights=None, returned=False, **k):
    a = asarr(a)
    if weights is None:
        return TABLE['mean'](a, axis=axis)
    w = asarr(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        w = wrap(np.broadcast_to(plain(w), a.shape[:-1] + w.shape if axis in (-1, a.ndim - 1) else a.shape), w._sdt)
    return TABLE['sum'](a * w, axis=axis) / TABLE['sum'](w, axis=axis)


@reg('searchsorted')
def f_searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    va = asarr(v)
    if conc(a) is not None and conc(va) is not None:
        r = np.searchsorted(conc(a), conc(va), side=side)
        return fromreal(r) if isinstance(r, np.ndarray) and va.ndim else np.int64(r)
    op = 'lt' if side == 'left' else 'le'

    def one(x):
        t = 0
        for y in plain(a):
            c = s_cmp(op, y, x) if isinstance(y, Sym) or isinstance(x, Sym) else (y < x if side == 'left' else y <= x)
            t = t + (SInt(z3.If(as_bool_expr(c), core.iv(1), core.iv(0)), True) if isinstance(c, Sym) else int(c))
        return t
    r = np.empty(va.shape, dtype=object)
    for i in np.ndindex(va.shape):
        r[i] = one(plain(va)[i])
    return _sc(wrap(r, I8))


@reg('digitize')
def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, side='left' if right else 'right')


@reg('histogram')
def f_histogram(a, bins=10, range=None, density=None, weights=None):
    a = asarr(a).ravel()
    c = conc(a)
    if isinstance(bins, (SInt,)):
        bins = bins.__index__()
    if c is not None and not has_sym(bins) and not has_sym(range) and weights is None:
        h, e = np.histogram(c, bins=conc(asarr(bins)) if not isinstance(bins, int) else bins, range=range, density=density)
        return fromreal(h), fromreal(e)
    if weights is not None:
        raise PathLimit('weighted histogram')
    x = list(plain(a))
    if not isinstance(bins, (int, np.integer)):
        edges = list(plain(asarr(bins)))
        n = len(edges) - 1
        simple = False
    else:
        n = int(bins)
        if range is None:
            lo, hi = _fold(smin2)(x), _fold(smax2)(x)
        else:
            lo, hi = range
        same = s_cmp('eq', lo, hi) if isinstance(lo, Sym) or isinstance(hi, Sym) else lo == hi
        if bool(same):
            lo, hi = lo - 0.5, hi + 0.5
        edges = [lo + (hi - lo) * (float(i) / n) if i < n else hi for i in builtins_range(n + 1)]
    cnt = [0] * n
    for v in x:
        for i in builtins_range(n):
            lo_ok = as_bool_expr(_c('ge', v, edges[i]))
            hi_ok = as_bool_expr(_c('le' if i == n - 1 else 'lt', v, edges[i + 1]))
            b = mkbool(z3.And(lo_ok, hi_ok), True)
            if bool(b):
                cnt[i] = cnt[i] + 1
                break
    h = asarr([k if isinstance(k, Sym) else np.int64(k) for k in cnt])
    e = asarr(edges, F8)
    if density:
        w = TABLE['diff'](e)
        return h / w / TABLE['sum'](h), e
    return h, e


def _c(op, a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return s_cmp(op, a, b)
    return {'ge': a >= b, 'le': a <= b, 'lt': a < b, 'gt': a > b}[op]


builtins_range = range


@reg('bincount')
def f_bincount(x, weights=None, minlength=0):
    x = asarr(x)
    ix = fixindex1(x)
    if weights is None:
        return fromreal(np.bincount(ix, minlength=minlength))
    w = plain(asarr(weights))
    n = max(int(ix.max()) + 1 if len(ix) else 0, minlength)
    o = [0.0] * n
    for i, v in zip(ix, w):
        o[i] = o[i] + v
    return asarr(o, F8)


@reg('diff')
def f_diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    if axis in (-1, a.ndim - 1):
        return a[..., 1:] - a[..., :-1]
    if axis == 0:
        return a[1:] - a[:-1]
    raise PathLimit('diff')


@reg('ptp')
def f_ptp(a, axis=None, **k):
    return TABLE['max'](a, axis=axis) - TABLE['min'](a, axis=axis)


@reg('percentile')
def f_percentile(a, q, axis=None, **k):
    return f_quantile(a, np.asarray(q) / 100.0 if not isinstance(q, (int, float)) else q / 100.0, axis, **k)


@reg('quantile')
def f_quantile(a, q, axis=None, **k):
    a = asarr(a)
    c = conc(a)
    if c is not None:
        r = np.quantile(c, q, axis=axis)
        return fromreal(r) if isinstance(r, np.ndarray) else r
    if not isinstance(q, (int, float)):
        raise PathLimit('quantile vector')

    def fn(l):
        s = sort_list(l)
        pos = q * (len(s) - 1)
        lo = int(math.floor(pos))
        hi = min(lo + 1, len(s) - 1)
        return s[lo] + (s[hi] - s[lo]) * (pos - lo)
    return _reduce(a, axis, False, fn, F8)


@reg('array_equal')
def f_array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    r = TABLE['all'](a == b)
    return bool(r)


@reg('isclose')
def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = asarr(a), asarr(b)
    return _sc(abs(a - b) <= (atol + rtol * abs(b)))


@reg('allclose')
def f_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(TABLE['all'](f_isclose(a, b, rtol, atol)))


@reg('array_equiv')
def f_array_equiv(a, b):
    return bool(TABLE['all'](asarr(a) == asarr(b)))


@reg('unique')
def f_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    a = asarr(a).ravel()
    c = conc(a)
    if c is not None:
        r = np.unique(c, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts)
        return tuple(fromreal(x) for x in r) if isinstance(r, tuple) else fromreal(r)
    s = sorted(plain(a), key=_Key)
    vals, cnts = [], []
    for v in s:
        if vals and bool(v == vals[-1]):
            cnts[-1] += 1
        else:
            vals.append(v)
            cnts.append(1)
    if return_index or return_inverse:
        raise PathLimit('unique index')
    if return_counts:
        return asarr(vals, a._sdt), asarr(cnts)
    return asarr(vals, a._sdt)


@reg('isin', 'in1d')
def f_isin(a, t, **k):
    a, t = asarr(a), asarr(t)
    return wrap(np.frompyfunc(lambda v: _anyf([s_cmp('eq', v, w) if isinstance(v, Sym) or isinstance(w, Sym) else v == w for w in plain(t).flat]) if t.size else False, 1, 1)(plain(a)), B1)


@reg('meshgrid')
def f_meshgrid(*a, **k):
    raise PathLimit('meshgrid')


@reg('nan_to_num')
def f_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarr(a)

    def g(v):
        return v if isinstance(v, Sym) else float(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    return _sc(wrap(np.frompyfunc(g, 1, 1)(plain(a)), a._sdt))


@reg('isscalar')
def f_isscalar(x):
    return True if isinstance(x, Sym) else np.isscalar(x)


@reg('ndim')
def f_ndim(x):
    return 0 if isinstance(x, Sym) else x.ndim if isinstance(x, np.ndarray) else np.ndim(x) if not has_symtype(x) else asarr(x).ndim


@reg('shape')
def f_shape(x):
    return asarr(x).shape


@reg('size')
def f_size(x, axis=None):
    a = asarr(x)
    return a.size if axis is None else a.shape[axis]


@reg('apply_along_axis')
def f_aaa(fn, axis, a, *args, **k):
    a = asarr(a)
    m = np.moveaxis(plain(a), axis, -1)
    res = [fn(wrap(m[i], a._sdt), *args, **k) for i in np.ndindex(m.shape[:-1])]
    r = asarr(res)
    return r


@reg('vectorize')
def f_vectorize(fn, **k):
    def g(*a):
        arrs = [asarr(x) for x in a]
        return asarr(np.frompyfunc(fn, len(a), 1)(*[plain(x) for x in arrs]).tolist())
    return g


@reg('fill_diagonal')
def f_fill_diagonal(a, v, **k):
    for i in range(min(a.shape)):
        a[i, i] = v


@reg('trace')
def f_trace(a, **k):
    return TABLE['sum'](TABLE['diagonal'](a))


@reg('may_share_memory', 'shares_memory')
def f_msm(a, b, **k):
    return np.may_share_memory(np.asarray(plain(a)), np.asarray(plain(b)))


@reg('result_type')
def f_result_type(*a):
    return np.result_type(*[_probe(x) if isinstance(x, (Sym, np.ndarray)) else todtype(x) for x in a])


@reg('copyto')
def f_copyto(dst, src, **k):
    dst[...] = src


@reg('put')
def f_put(a, ix, v, **k):
    a.reshape(-1)[fixindex1(asarr(ix))] = v


@reg('interp')
def f_interp(x, xp, fp, **k):
    return generic(np.interp, (x, xp, fp), k)


@reg('triu_indices')
def f_triu_indices(n, k=0, m=None):
    return np.triu_indices(operator.index(n), k, m)


@reg('trim_zeros')
def f_tz(*a, **k):
    raise PathLimit('trim_zeros')


# ------------------------------------------------------------------ generic fallback
def real_arg(x, force=False):
    """convert to real numpy data; symbolic values are concretised when force"""
    if isinstance(x, SymArray):
        c = conc(x)
        if c is not None:
            return c
        if force:
            return np.array([pyscalar(_cv(v), x._sdt) for v in plain(x).reshape(-1)], dtype=x._sdt).reshape(x.shape)
        return x
    if isinstance(x, Sym):
        return _cv(x) if force else x
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(real_arg(y, force) for y in x)
    if isinstance(x, dict):
        return {k: real_arg(v, force) for k, v in x.items()}
    if hasattr(x, '_real'):
        return x._real
    return x


def _cv(v):
    if isinstance(v, SReal):
        return float(v)
    if isinstance(v, SInt):
        return v.__index__()
    if isinstance(v, SBool):
        return bool(v)
    return v


def sym_result(r):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if any(isinstance(v, Sym) for v in r.flat):
                return asarr(r.tolist())
            return r
        return fromreal(r)
    if isinstance(r, tuple) and not hasattr(r, '_fields'):
        return tuple(sym_result(x) for x in r)
    if isinstance(r, list):
        return [sym_result(x) for x in r]
    return r


def generic(func, args, kwargs):
    args, kwargs = tuple(args), dict(kwargs)
    if has_sym(args) or has_sym(kwargs):
        core.eng().stats.limit_why.setdefault('concretised call %s' % getattr(func, '__name__', func), 0)
        core.eng().stats.limit_why['concretised call %s' % getattr(func, '__name__', func)] += 1
        return sym_result(func(*real_arg(args, True), **real_arg(kwargs, True)))
    return sym_result(func(*real_arg(args), **real_arg(kwargs)))


# ------------------------------------------------------------------ module objects
class TypeShimMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            kind = cls._kinds
            if type(o).__name__ == 'SReal':
                return 'f' in kind and (o.np or not cls._nponly)
            if type(o).__name__ == 'SNarrow':
                return 'i' in kind and cls._real in (o.dt.type, np.integer, np.number, np.generic)
            if type(o).__name__ == 'SInt':
                return 'i' in kind and (o.np or not cls._nponly)
            return 'b' in kind and (o.np or not cls._nponly)
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, c):
        r = getattr(c, '_real', c)
        return issubclass(r, cls._real)

    def __eq__(cls, o):
        if o is cls:
            return True
        r = getattr(o, '_real', o)
        return r is cls._real or (isinstance(o, np.dtype) and o == cls._real)

    def __hash__(cls):
        return hash(cls._real)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __repr__(cls):
        return repr(cls._real)

    def __or__(cls, o):
        return cls._real

    def __ror__(cls, o):
        return cls._real


def np_type(real):
    real_ = real
    dt = np.dtype(real) if real not in (np.floating, np.integer, np.number, np.generic, np.bool_) else None
    if real is np.bool_:
        dt = B1

    def conv(v=0, *a):
        if isinstance(v, Sym):
            return elem(coerce_scalar(v, dt), dt) if dt is not None else v
        if isinstance(v, SymArray):
            return _sc(coerce_arr(v, dt))
        if isinstance(v, (list, tuple)):
            return asarr(v, dt)
        return real_(v, *a)
    kinds = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(dt.kind, '') if dt is not None else \
        {np.floating: 'f', np.integer: 'i', np.number: 'fi', np.generic: 'fib'}[real]
    return TypeShimMeta('npshim_' + real.__name__, (), {'_real': real, '_conv': staticmethod(conv), '_kinds': kinds, '_nponly': True,
                                                        'dtype': dt})


TYPES = {}
for _t in ('float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint32', 'uint64', 'intp', 'floating',
           'integer', 'number', 'generic', 'bool_', 'double', 'single'):
    TYPES[_t] = np_type(getattr(np, _t))
TYPES['bool'] = TYPES['bool_']


class UfuncShim:
    def __deepcopy__(self, memo):
        return self

    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__
        self.nin = u.nin
        self.identity = u.identity

    def __call__(self, *a, **k):
        if len(a) > self._u.nin:
            k['out'] = a[self._u.nin]
            a = a[:self._u.nin]
        a = tuple(asarr(x) if isinstance(x, (list, tuple, np.ndarray)) and not isinstance(x, SymArray) else x for x in a)
        if not any(isinstance(x, (Sym, SymArray)) for x in a):
            if not k.get('out') is not None:
                kk = {q: (todtype(v) if q == 'dtype' else v) for q, v in k.items()}
                with np.errstate(all='ignore'):
                    r = self._u(*a, **kk)
                return sym_result(r)
        return apply_ufunc(self._u, a, '__call__', k)

    def reduce(self, a, axis=0, **k):
        return apply_ufunc(self._u, (asarr(a),), 'reduce', dict(axis=axis, **k))

    def accumulate(self, a, axis=0, **k):
        return apply_ufunc(self._u, (asarr(a),), 'accumulate', dict(axis=axis))

    def outer(self, a, b, **k):
        return apply_ufunc(self._u, (a, b), 'outer')

    def at(self, *a):
        return apply_ufunc(self._u, a, 'at')


class Mod(types.ModuleType):
    """module shim with attribute table + fallback"""

    def __init__(self, name, table, fallback=None):
        super().__init__(name)
        self.__dict__['_table'] = table
        self.__dict__['_fallback'] = fallback
        self.__dict__['_cache'] = {}

    def __getattr__(self, n):
        t = self.__dict__['_table']
        if n in t:
            return t[n]
        fb = self.__dict__['_fallback']
        if fb is None:
            raise AttributeError(n)
        c = self.__dict__['_cache']
        if n not in c:
            c[n] = shim_attr(getattr(fb, n), fb.__name__ + '.' + n)
        return c[n]


def shim_attr(v, name):
    if isinstance(v, np.ufunc):
        return UfuncShim(v)
    if isinstance(v, types.ModuleType):
        return v
    if isinstance(v, type):
        return v
    if callable(v):
        def g(*a, **k):
            return generic(v, a, k)
        g.__name__ = getattr(v, '__name__', name)
        return g
    return v


def make_numpy(random_mod):
    t = dict(TABLE)
    t.pop('_accumulate', None)
    t.update(TYPES)
    lin = Mod('numpy.linalg', dict(LINALG), np.linalg)
    linlin = Mod('numpy.linalg.linalg', dict(LINALG), np.linalg)
    lin.__dict__['_table']['linalg'] = linlin
    t['linalg'] = lin
    t['random'] = random_mod
    t['ndarray'] = np.ndarray
    t['dtype'] = np.dtype
    t['errstate'] = np.errstate
    return Mod('numpy', t, np)
