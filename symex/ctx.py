"""Harness contexts: the same harness runs symbolically (SymCtx) and on the real code (ConcCtx)."""
import copy
import importlib
import io
import math
import pickle
import random as pyrandom
import sys
import time
import types
from fractions import Fraction
import numpy as np
from . import core, symnp, symdict, stubs, loader
from .core import Sym, SReal, SInt, SBool, z3, PathAbort, PathLimit, ite, smax2, smin2, as_bool_expr

TOL = 1e-6


class AssumeFail(BaseException):
    pass


class CheckFail(Exception):
    pass


class _Pickler(pickle._Pickler):
    """refuses what pickle refuses; the classes of stand-ins (and, in symbolic runs, of the loaded source) go by reference"""

    def persistent_id(self, obj):
        if isinstance(obj, (type, types.FunctionType, types.BuiltinFunctionType)):
            m = getattr(obj, '__module__', None) or ''
            if m == 'pysad' or m.startswith('pysad.'):
                if self.concrete:
                    return None
                if '<' in obj.__qualname__:
                    raise pickle.PicklingError("Can't pickle local object %r" % obj.__qualname__)
            elif self.concrete and not (m.startswith('harness') or m.startswith('symex')):
                return None
            self.kept[id(obj)] = obj
            return id(obj)
        if not self.concrete and isinstance(obj, symnp.UfuncShim):
            self.kept[id(obj)] = obj
            return id(obj)
        return None

    def reducer_override(self, obj):
        if isinstance(obj, (Sym, symnp.SymArray)):
            return int, (0,)
        if self.concrete:
            return NotImplemented
        if symdict.SymDict in type(obj).__mro__:
            return list, ([(k, v) for k, v in obj.items()],)
        if symdict.SymSet in type(obj).__mro__:
            return list, (list(obj),)
        return NotImplemented


class _Unpickler(pickle._Unpickler):
    def persistent_load(self, i):
        return self.kept[i]


class Base:
    concrete = False

    def __init__(self, params):
        self.params = params
        self.hooks = {}
        self.provider = None
        self.nchecks = 0

    # ---- common API
    def hook(self, key, obj):
        stubs.CUR['hooks'][key] = obj

    def vec(self, name, n, lo=None, hi=None):
        return self.array([self.real('%s_%d' % (name, i), lo, hi) for i in range(n)], float)

    def mat(self, name, r, c, lo=None, hi=None):
        return self.array([[self.real('%s_%d_%d' % (name, i, j), lo, hi) for j in range(c)] for i in range(r)], float)

    def draws_const(self, **k):
        self.use_provider(stubs.ConstProvider(self, **k))

    def draws_sym(self, tag='draw'):
        p = stubs.SeqProvider(self, tag)
        self.use_provider(p)
        return p

    def draws_distinct(self, **k):
        p = stubs.DistinctProvider(self, **k)
        self.use_provider(p)
        return p

    def sort_mode(self, m):
        if not self.concrete:
            self.eng.fork_sort = m == 'fork'

    def seed(self, s):
        np.random.seed(s)
        pyrandom.seed(s)

    # polymorphic maths for oracles
    def sum(self, l):
        r = 0
        for x in l:
            r = r + x
        return r

    def mean(self, l):
        l = list(l)
        return self.sum(l) / len(l)

    def pvar(self, l):
        l = list(l)
        m = self.mean(l)
        return self.sum([(x - m) * (x - m) for x in l]) / len(l)

    def median(self, l):
        s = self.sort(l)
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2

    def max(self, l):
        l = list(l)
        r = l[0]
        for x in l[1:]:
            r = smax2(r, x)
        return r

    def min(self, l):
        l = list(l)
        r = l[0]
        for x in l[1:]:
            r = smin2(r, x)
        return r

    def raises(self, fn, exc=Exception):
        """True if fn raises exc"""
        try:
            fn()
        except exc:
            return True
        return False

    def count(self, conds):
        r = 0
        for c in conds:
            r = r + self.ite(c, 1, 0)
        return r

    def duplicate(self, o, how='deep'):
        """copy.deepcopy(o), or o after a pickle round trip"""
        if how == 'deep':
            return copy.deepcopy(o)
        f = io.BytesIO()
        p = _Pickler(f, protocol=4)
        p.concrete, p.kept = self.concrete, {}
        p.dump(o)
        if not self.concrete:
            return copy.deepcopy(o)   # symbolic values do not leave the process; what pickle refuses was found above
        u = _Unpickler(io.BytesIO(f.getvalue()))
        u.kept = p.kept
        return u.load()

    def isfinite(self, v):
        v = self.scalar(v)
        return True if isinstance(v, Sym) else bool(math.isfinite(v))

    def scalar(self, v):
        """array-like of one element / number -> scalar"""
        if isinstance(v, symnp.SymArray):
            if v.size != 1:
                return v
            return symnp.plain(v).reshape(-1)[0]
        if isinstance(v, np.ndarray):
            return v.reshape(-1)[0].item() if v.size == 1 else v
        if isinstance(v, np.generic):
            return v.item()
        if isinstance(v, (list, tuple)) and len(v) == 1:
            return self.scalar(v[0])
        return v


def flat(v):
    """-> (shape, list of leaf values)"""
    if isinstance(v, symnp.SymArray):
        return v.shape, list(symnp.plain(v).reshape(-1))
    if isinstance(v, np.ndarray):
        return v.shape, [x.item() if isinstance(x, np.generic) else x for x in v.reshape(-1)]
    if isinstance(v, (list, tuple)):
        parts = [flat(x) for x in v]
        if not parts:
            return (0,), []
        s0 = parts[0][0]
        if any(p[0] != s0 for p in parts):
            return ('ragged', len(v)), [y for p in parts for y in p[1]]
        return (len(v),) + tuple(s0), [y for p in parts for y in p[1]]
    if isinstance(v, np.generic):
        return (), [v.item()]
    if type(v).__module__.startswith('jax'):
        return flat(np.asarray(v))
    return (), [v]


def isnum(v):
    return isinstance(v, (int, float, bool, Fraction)) or isinstance(v, np.number)


def conc_close(a, b, tol=TOL):
    if isnum(a) and isnum(b):
        if isinstance(a, complex) or isinstance(b, complex):
            return False
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    try:
        return bool(a == b) and (a is None) == (b is None)
    except Exception:
        return a is b


class SymCtx(Base):
    def __init__(self, params, eng):
        super().__init__(params)
        self.eng = eng
        self.U = loader.Universe(stubs.base_env())
        self.pending = []   # (kind, payload, msg)
        self.np = self.U.env['numpy']

    def mod(self, name):
        self.U.load('pysad.core')
        return self.U.load(name)

    def fresh(self):
        """as if in a new process: the library's modules are loaded anew"""
        self.U = loader.Universe(stubs.base_env())
        self.np = self.U.env['numpy']

    def use_provider(self, p):
        stubs.CUR['provider'] = p

    # inputs
    def _reg(self, name, kind, var):
        if name not in self.eng.inputs:
            self.eng.inputs[name] = (kind, var)
            self.eng.input_order.append(name)

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        new = name not in self.eng.inputs
        self._reg(name, 'r', v)
        if new and lo is not None:
            self.assume(SBool(v >= core.rv(lo)))
        if new and hi is not None:
            self.assume(SBool(v <= core.rv(hi)))
        return SReal(v, False)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        new = name not in self.eng.inputs
        self._reg(name, 'i', v)
        if new and lo is not None:
            self.assume(SBool(v >= lo))
        if new and hi is not None:
            self.assume(SBool(v <= hi))
        if lo is not None and hi is not None:
            self.eng.ranges[v.get_id()] = (lo, hi)
            self.eng.keep.append(v)
        return SInt(v, False)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, 'b', v)
        return SBool(v, False)

    def choice(self, name, n):
        """concrete int in range(n), forked"""
        if n == 1:
            return 0
        return self.int(name, 0, n - 1).__index__()

    def flag(self, name):
        return bool(self.bool(name))

    def array(self, x, dtype=None):
        return self.np.array(x, dtype=dtype)

    def assume(self, c):
        if isinstance(c, symnp.SymArray):
            c = self.np.all(c)
        self.eng.assume(c)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def sort(self, l):
        return symnp.sort_list([self.scalar(x) for x in l])

    def sqrt(self, v):
        v = self.scalar(v)
        if isinstance(v, Sym):
            e = z3.simplify(core.R(v))
            if not z3.is_rational_value(e):
                return SReal(self.eng.sqrt(core.R(v)), False)
            return math.sqrt(e.as_fraction())
        return math.sqrt(v)

    def fn(self, name, v):
        """exp, log, log2, erfc ... of a value known to be in the domain"""
        v = self.scalar(v)
        if isinstance(v, Sym):
            return self.eng.uf(name, v, False)
        return math.erfc(v) if name == 'erfc' else getattr(math, name)(v)

    def powf(self, v, p):
        v = self.scalar(v)
        return core.s_pow(v, p) if isinstance(v, Sym) else v ** p

    def floor(self, v):
        v = self.scalar(v)
        return v.__floor__() if isinstance(v, Sym) else math.floor(v)

    def ceil(self, v):
        v = self.scalar(v)
        return v.__ceil__() if isinstance(v, Sym) else math.ceil(v)

    def inv(self, v):
        v = self.scalar(v)
        return 1 / v

    def both(self, *cs):
        return core.mkbool(z3.And([as_bool_expr(c) for c in cs]))

    def either(self, *cs):
        return core.mkbool(z3.Or([as_bool_expr(c) for c in cs]))

    def no(self, c):
        return core.s_not(c)

    # checks
    def check(self, c, msg):
        self.nchecks += 1
        if isinstance(c, symnp.SymArray):
            c = self.np.all(c)
        e = as_bool_expr(c)
        self.pending.append(('b', e, msg))
        if z3.is_false(e):
            raise CheckFail(msg)

    def le(self, a, b, msg):
        self.nchecks += 1
        a, b = self.scalar(a), self.scalar(b)
        self.pending.append(('b', as_bool_expr(a <= b), msg))

    def eq(self, a, b, msg, shape=False, tol=TOL):
        """a equals b (numerically); scalars match one-element arrays unless shape=True"""
        self.nchecks += 1
        sa, la = flat(a)
        sb, lb = flat(b)
        if len(la) != len(lb) or (sa != sb and (shape or len(la) != 1)):
            self.pending.append(('b', z3.BoolVal(False), msg + ' [shape %s vs %s]' % (sa, sb)))
            raise CheckFail(msg)
        for x, y in zip(la, lb):
            if not isinstance(x, Sym) and not isinstance(y, Sym):
                if not conc_close(x, y, tol):
                    self.pending.append(('b', z3.BoolVal(False), msg + ' [%r vs %r]' % (x, y)))
                    raise CheckFail(msg)
                continue
            if core._special(x) or core._special(y):
                self.pending.append(('b', z3.BoolVal(False), msg + ' [non-finite]'))
                raise CheckFail(msg)
            if not (isinstance(x, Sym) or isnum(x)) or not (isinstance(y, Sym) or isnum(y)):
                self.pending.append(('b', z3.BoolVal(False), msg + ' [kind]'))
                raise CheckFail(msg)
            self.pending.append(('e', (core.R(x), core.R(y)), msg))

    def same(self, a, b, msg):
        """identity / unaltered object or equal value"""
        if a is b:
            self.nchecks += 1
            return
        self.eq(a, b, msg)

    def fail(self, msg):
        self.nchecks += 1
        self.pending.append(('b', z3.BoolVal(False), msg))
        raise CheckFail(msg)


class ConcCtx(Base):
    concrete = True

    def __init__(self, params, inputs):
        super().__init__(params)
        self.inputs = inputs
        self.np = np
        self.failures = []
        self.log = []

    def mod(self, name):
        return importlib.import_module(name)

    def fresh(self):
        for k in [k for k in sys.modules if k == 'pysad' or k.startswith('pysad.')]:
            del sys.modules[k]   # the replay runs in a forked child

    def use_provider(self, p):
        for n in stubs.API:
            setattr(np.random, n, getattr(p, n))   # the replay runs in a forked child
        stubs.CUR['provider'] = p

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def real(self, name, lo=None, hi=None):
        d = 0.0
        if lo is not None and d < lo:
            d = float(lo)
        if hi is not None and d > hi:
            d = float(hi)
        v = self._get(name, d)
        return float(Fraction(v)) if isinstance(v, str) else float(v)

    def int(self, name, lo=None, hi=None):
        d = 0
        if lo is not None and d < lo:
            d = lo
        v = int(self._get(name, d))
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def choice(self, name, n):
        return min(int(self._get(name, 0)), n - 1)

    def array(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            raise AssumeFail()

    def ite(self, c, a, b):
        return a if c else b

    def sort(self, l):
        return sorted(self.scalar(x) for x in l)

    def sqrt(self, v):
        return math.sqrt(max(self.scalar(v), 0.0))

    def fn(self, name, v):
        v = self.scalar(v)
        return math.erfc(v) if name == 'erfc' else getattr(math, name)(v)

    def powf(self, v, p):
        return self.scalar(v) ** p

    def floor(self, v):
        return math.floor(self.scalar(v))

    def ceil(self, v):
        return math.ceil(self.scalar(v))

    def inv(self, v):
        return 1 / self.scalar(v)

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def no(self, c):
        return not c

    def check(self, c, msg):
        self.nchecks += 1
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            raise CheckFail(msg)

    def le(self, a, b, msg):
        self.nchecks += 1
        a, b = self.scalar(a), self.scalar(b)
        if not (a <= b + TOL * max(1.0, abs(a), abs(b))):
            raise CheckFail('%s [%r > %r]' % (msg, a, b))

    def eq(self, a, b, msg, shape=False, tol=TOL):
        self.nchecks += 1
        sa, la = flat(a)
        sb, lb = flat(b)
        if len(la) != len(lb) or (sa != sb and (shape or len(la) != 1)):
            raise CheckFail('%s [shape %s vs %s]' % (msg, sa, sb))
        for x, y in zip(la, lb):
            if not conc_close(x, y, tol):
                raise CheckFail('%s [got %r, expected %r]' % (msg, x, y))

    def same(self, a, b, msg):
        if a is b:
            self.nchecks += 1
            return
        self.eq(a, b, msg)

    def fail(self, msg):
        raise CheckFail(msg)
