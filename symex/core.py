"""Symbolic execution core: z3-backed proxy values and a re-execution path explorer.

The real source of pysad runs in CPython on these proxies; a branch on a symbolic condition forks
the path, and every property assertion becomes a query `path condition AND NOT assertion` to z3.
"""
import sys
import time
import math
import random as _pyrandom
from fractions import Fraction

_ZPATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _ZPATH not in sys.path:
    sys.path.append(_ZPATH)
import z3  # noqa: E402
import numpy as np  # noqa: E402

z3.set_param('verbose', 0)

ENG = None  # current engine


def eng():
    return ENG


def set_engine(e):
    global ENG
    ENG = e


class PathAbort(BaseException):
    """Path infeasible / assumption violated."""


class PathLimit(BaseException):
    """Path given up (budget, engine limitation)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


# ---------------------------------------------------------------- constants
_rv_cache = {}


def rv(v):
    """Exact z3 rational of a concrete number."""
    k = (type(v) if not isinstance(v, np.generic) else float, v if not isinstance(v, np.generic) else v.item())
    r = _rv_cache.get(k)
    if r is None:
        f = Fraction(k[1])
        r = z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)
        if len(_rv_cache) < 20000:
            _rv_cache[k] = r
    return r


_iv_cache = {}


def iv(v):
    r = _iv_cache.get(v)
    if r is None:
        r = z3.IntVal(int(v))
        if len(_iv_cache) < 20000:
            _iv_cache[v] = r
    return r


def som(e):
    return z3.simplify(e, som=True, mul_to_power=False, arith_lhs=False, som_blowup=4000)


def is_num(v):
    return isinstance(v, (int, float, bool, np.number, np.bool_, Fraction))


def _special(v):
    """concrete nan/inf"""
    return isinstance(v, (float, np.floating)) and not math.isfinite(v)


def real_value(m, e):
    """Value of real expr under model as Fraction (approximated if algebraic)."""
    v = m.eval(e, model_completion=True)
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        return v.approx(30).as_fraction()
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(30).as_fraction()
    raise PathLimit('no model value')


# ---------------------------------------------------------------- proxies
class Sym:
    __slots__ = ('e', 'np')
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, e, np=False):
        self.e = e
        self.np = np

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return 7

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, str(self.e)[:80])

    def __reduce__(self):
        raise TypeError('symbolic value cannot be pickled')

    # ndarray-scalar like attributes
    @property
    def shape(self):
        if not self.np:
            raise AttributeError('shape')
        return ()

    @property
    def ndim(self):
        if not self.np:
            raise AttributeError('ndim')
        return 0

    @property
    def size(self):
        if not self.np:
            raise AttributeError('size')
        return 1

    @property
    def T(self):
        if not self.np:
            raise AttributeError('T')
        return self

    def _arr(self):
        from . import symnp
        return symnp.asarr(self)

    def conjugate(self):
        return self

    @property
    def dtype(self):
        if not self.np:
            raise AttributeError('dtype')
        return np.dtype({'SReal': 'f8', 'SInt': 'i8', 'SBool': '?'}[type(self).__name__])

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


class _NpOnly:
    """method that exists only on values that stand for numpy scalars"""

    def __init__(self, f):
        self.f = f

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        if not obj.np:
            raise AttributeError(self.name)
        f = self.f
        return lambda *a, **k: f(obj, *a, **k)


def _astype(self, dt, **k):
    from . import symnp
    return symnp.elem(symnp.coerce_scalar(self, symnp.todtype(dt), True), symnp.todtype(dt))


for _n, _f in (('item', lambda s, *a: type(s)(s.e, False)), ('tolist', lambda s: type(s)(s.e, False)),
               ('reshape', lambda s, *a, **k: s._arr().reshape(*a, **k)), ('ravel', lambda s, *a: s._arr().ravel()),
               ('flatten', lambda s, *a: s._arr().ravel()), ('squeeze', lambda s, *a: s), ('copy', lambda s: s), ('astype', _astype),
               ('mean', lambda s, *a, **k: s), ('sum', lambda s, *a, **k: s), ('max', lambda s, *a, **k: s), ('min', lambda s, *a, **k: s)):
    _d = _NpOnly(_f)
    _d.name = _n
    setattr(Sym, _n, _d)


def lift(v):
    """Sym or number -> (kind, z3 expr); kind in 'b','i','r'. None if not liftable."""
    if isinstance(v, SReal):
        return 'r', v.e
    if isinstance(v, SInt):
        return 'i', v.e
    if isinstance(v, SBool):
        return 'b', v.e
    if isinstance(v, (bool, np.bool_)):
        return 'b', z3.BoolVal(bool(v))
    if isinstance(v, (int, np.integer)):
        return 'i', iv(int(v))
    if isinstance(v, (float, np.floating, Fraction)):
        return 'r', rv(v)
    return None


def toreal(k, e):
    if k == 'r':
        return e
    if k == 'i':
        if z3.is_int_value(e):
            return rv(e.as_long())
        return z3.ToReal(e)
    return z3.If(e, rv(1), rv(0))


def toint(k, e):
    if k == 'i':
        return e
    if k == 'b':
        return z3.If(e, iv(1), iv(0))
    raise TypeError


def R(v):
    k, e = lift(v)
    return toreal(k, e)


def isnpv(v):
    return isinstance(v, np.generic) or (isinstance(v, Sym) and v.np)


def _num_out(k, e, npf):
    return SReal(e, npf) if k == 'r' else SInt(e, npf)


def _is_arr(o):
    return isinstance(o, np.ndarray)


def _arrop(name, a, b):
    from . import symnp
    return symnp.apply_ufunc(getattr(np, name), (a, b))


def _binpair(a, b):
    """lift both; returns (kind, ea, eb) with common arithmetic kind"""
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return None
    (ka, ea), (kb, eb) = la, lb
    if ka == 'r' or kb == 'r':
        return 'r', toreal(ka, ea), toreal(kb, eb)
    return 'i', toint(ka, ea), toint(kb, eb)


def s_add(a, b):
    if _special(a):
        return a
    if _special(b):
        return b
    if is_num(a) and a == 0 and isinstance(b, (SReal, SInt)):
        return b if isinstance(b, SReal) or not isinstance(a, (float, np.floating)) else SReal(z3.ToReal(b.e), b.np)
    if is_num(b) and b == 0 and isinstance(a, (SReal, SInt)):
        return a if isinstance(a, SReal) or not isinstance(b, (float, np.floating)) else SReal(z3.ToReal(a.e), a.np)
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)) and isnpv(a) and isnpv(b):
        return SBool(z3.Or(lift(a)[1], lift(b)[1]), True)
    p = _binpair(a, b)
    if p is None:
        return NotImplemented
    k, x, y = p
    return _num_out(k, x + y, isnpv(a) or isnpv(b))


def s_neg(a):
    k, e = lift(a)
    if k == 'b':
        k, e = 'i', toint(k, e)
    return _num_out(k, -e, isnpv(a))


def s_sub(a, b):
    if _special(a):
        return a
    if _special(b):
        return -b
    if is_num(b) and b == 0 and isinstance(a, SReal):
        return a
    p = _binpair(a, b)
    if p is None:
        return NotImplemented
    k, x, y = p
    return _num_out(k, x - y, isnpv(a) or isnpv(b))


def _sign_mul_inf(s, inf):
    """inf * symbolic s"""
    if s > 0:
        return inf
    if s < 0:
        return -inf
    return type(inf)(math.nan)


def s_mul(a, b):
    if _special(a):
        return a if a != a else _sign_mul_inf(b, a)
    if _special(b):
        return b if b != b else _sign_mul_inf(a, b)
    p = _binpair(a, b)
    if p is None:
        return NotImplemented
    k, x, y = p
    return _num_out(k, x * y, isnpv(a) or isnpv(b))


def s_div(a, b):
    npf = isnpv(a) or isnpv(b)
    if _special(b):
        return b if b != b else 0.0 if not npf else np.float64(0.0)
    if _special(a):
        if b == 0:
            if not npf:
                raise ZeroDivisionError('float division by zero')
            return a
        return a if a != a else _sign_mul_inf(b, a)
    lb = lift(b)
    la = lift(a)
    if la is None or lb is None:
        return NotImplemented
    eb = z3.simplify(toreal(*lb))
    ea = toreal(*la)
    if z3.is_rational_value(eb):
        f = eb.as_fraction()
        if f != 0:
            return SReal(ea * rv(1 / f), npf)
        zero = True
    else:
        rad = ENG.sqrt_of.get(eb.get_id())
        zero = False if struct_sign(eb) == 2 else ENG.branch((eb if rad is None else rad) == 0)
    if zero:
        if not npf:
            raise ZeroDivisionError('division by zero')
        if ENG.branch(ea > 0):
            return np.float64(math.inf)
        if ENG.branch(ea < 0):
            return np.float64(-math.inf)
        return np.float64(math.nan)
    return SReal(ea * ENG.inv(eb), npf)


def _int_divmod(a, b):
    k, x, y = _binpair(a, b)
    npf = isnpv(a) or isnpv(b)
    if ENG.branch(y == 0):
        raise ZeroDivisionError('integer modulo by zero')
    # python floor semantics: z3 div/mod are euclidean
    yv = z3.simplify(y)
    if z3.is_int_value(yv) and yv.as_long() > 0:
        return SInt(x / y, npf), SInt(x % y, npf)
    q, r = x / y, x % y
    adj = z3.And(y < 0, r != 0)
    return SInt(z3.If(adj, q - 1, q), npf), SInt(z3.If(adj, r + y, r), npf)


def s_floordiv(a, b):
    p = _binpair(a, b)
    if p is None:
        if _special(a) or _special(b):
            raise PathLimit('floordiv with inf')
        return NotImplemented
    if p[0] == 'i':
        return _int_divmod(a, b)[0]
    q = s_div(a, b)
    return SReal(z3.ToReal(z3.ToInt(R(q))), isnpv(q)) if isinstance(q, Sym) else math.floor(q)


def s_mod(a, b):
    p = _binpair(a, b)
    if p is None:
        return NotImplemented
    if p[0] == 'i':
        return _int_divmod(a, b)[1]
    return s_sub(a, s_mul(b, s_floordiv(a, b)))


def s_sqrt(a, npf=None):
    npf = isnpv(a) if npf is None else npf
    e = z3.simplify(R(a))
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return (np.float64 if npf else float)(math.sqrt(f)) if f >= 0 else np.float64(math.nan)
    if not struct_sign(R(a)) and not struct_sign(e) and quad_sign(e, rv(0)) != 1 and ENG.branch(e < 0):
        if not npf:
            raise ValueError('math domain error')
        return np.float64(math.nan)
    return SReal(ENG.sqrt(e), npf)


def s_pow(a, b):
    npf = isnpv(a) or isnpv(b)
    if isinstance(b, Sym):
        bv = z3.simplify(b.e)
        if z3.is_int_value(bv):
            b = bv.as_long()
        elif z3.is_rational_value(bv):
            b = float(bv.as_fraction())
        elif isinstance(b, SInt):
            b = b.__index__()
        else:
            return ENG.uf2('pow', a, b, npf)
    if isinstance(b, (float, np.floating)) and float(b).is_integer() and abs(b) <= 16:
        r = s_pow(a, int(b))
        return SReal(R(r), npf) if isinstance(r, SInt) else r
    if isinstance(b, (int, np.integer)) and not isinstance(b, bool):
        n = int(b)
        if isinstance(a, Sym):
            if n == 0:
                return 1
            if abs(n) <= 16:
                k, e = lift(a)
                if k == 'b':
                    k, e = 'i', toint(k, e)
                r = e
                for _ in range(abs(n) - 1):
                    r = r * e
                r = _num_out(k, r, npf)
                return r if n > 0 else s_div(1.0, r)
            return ENG.uf2('pow', a, b, npf)
        return a ** n
    if b == 0.5:
        e = z3.simplify(R(a))
        if not z3.is_rational_value(e) and quad_sign(e, rv(0)) != 1 and ENG.branch(e < 0) or (z3.is_rational_value(e) and e.as_fraction() < 0):
            if npf:
                return np.float64(math.nan)
            raise PathLimit('complex result')
        return s_sqrt(a, npf)
    if b == -0.5:
        return s_div(1.0, s_pow(a, 0.5))
    return ENG.uf2('pow', a, b, npf)


def s_abs(a):
    k, e = lift(a)
    if k == 'b':
        return a
    z = rv(0) if k == 'r' else iv(0)
    return _num_out(k, z3.If(e >= z, e, -e), isnpv(a))


def mkbool(e, npf=False):
    e = z3.simplify(e)
    if z3.is_true(e):
        return np.True_ if npf else True
    if z3.is_false(e):
        return np.False_ if npf else False
    return SBool(e, npf)


# ---- exact decision for quadratic polynomials: is p >= 0 for all values of its atoms?
def _quad(e):
    """coefficient dict {(), (i,), (i,j)} of a polynomial of degree <= 2 over atoms, or None"""
    atoms = {}
    co = {}

    def atom(t):
        k = t.get_id()
        if k not in atoms:
            atoms[k] = (len(atoms), t)
        return atoms[k][0]

    def mono(t):
        """-> (coef, sorted tuple of atoms) or None"""
        c, fs = Fraction(1), []
        st = [t]
        while st:
            u = st.pop()
            if z3.is_rational_value(u):
                c *= u.as_fraction()
            elif z3.is_mul(u):
                st.extend(u.children())
            elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UMINUS:
                c = -c
                st.append(u.arg(0))
            elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(u.arg(1)) and u.arg(1).as_fraction() == 2:
                st += [u.arg(0), u.arg(0)]
            elif z3.is_add(u) or z3.is_sub(u):
                return None
            else:
                fs.append(atom(u))
            if len(fs) > 2:
                return None
        return c, tuple(sorted(fs))
    for t in (e.children() if z3.is_add(e) else [e]):
        m = mono(t)
        if m is None:
            return None
        co[m[1]] = co.get(m[1], 0) + m[0]
    return co, len(atoms)


def pkey(e):
    """order-independent key of a sum-of-monomials term"""
    co = {}
    for t in (e.children() if z3.is_add(e) else [e]):
        c, fs, st = Fraction(1), [], [t]
        while st:
            u = st.pop()
            if z3.is_rational_value(u):
                c *= u.as_fraction()
            elif z3.is_mul(u):
                st.extend(u.children())
            elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UMINUS:
                c = -c
                st.append(u.arg(0))
            elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(u.arg(1)) and 0 < u.arg(1).as_long() < 9:
                st.extend([u.arg(0)] * u.arg(1).as_long())
            else:
                fs.append(u.get_id())
        m = tuple(sorted(fs))
        co[m] = co.get(m, 0) + c
    return frozenset((m, c) for m, c in co.items() if c != 0)


class Near(dict):
    """pkey -> value; keys whose coefficients differ only by float rounding are the same key"""

    def __init__(self):
        super().__init__()
        self.ix = {}

    def find(self, kk):
        v = self.get(kk)
        if v is not None:
            return v
        for co, val in self.ix.get(frozenset(m for m, _ in kk), ()):
            if all(abs(co[m] - c) <= abs(c) * NEAR for m, c in kk):
                return val
        return None

    def put(self, kk, v):
        self[kk] = v
        self.ix.setdefault(frozenset(m for m, _ in kk), []).append((dict(kk), v))


NEAR = Fraction(1, 10 ** 13)


def _psd(co, n):
    if n > 24:
        return False
    M = [[Fraction(0)] * (n + 1) for _ in range(n + 1)]
    for k, c in co.items():
        if len(k) == 0:
            M[n][n] += c
        elif len(k) == 1:
            M[k[0]][n] += c / 2
            M[n][k[0]] += c / 2
        elif k[0] == k[1]:
            M[k[0]][k[0]] += c
        else:
            M[k[0]][k[1]] += c / 2
            M[k[1]][k[0]] += c / 2
    idx = list(range(n + 1))
    while idx:                       # exact LDL^T
        p = next((i for i in idx if M[i][i] != 0), None)
        if p is None:
            return all(M[i][j] == 0 for i in idx for j in idx)
        if M[p][p] < 0:
            return False
        idx.remove(p)
        d = M[p][p]
        for i in idx:
            if M[i][p] != 0:
                f = M[i][p] / d
                for j in idx:
                    M[i][j] -= f * M[p][j]
        if any(M[i][i] < 0 for i in idx):
            return False
    return True


def _nonlinear(e, cap=400):
    st, n, seen = [e], 0, set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        n += 1
        if n > cap:
            return False
        k = t.decl().kind() if z3.is_app(t) else None
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            st.extend(t.children())
        elif k == z3.Z3_OP_POWER:
            return True
        elif k == z3.Z3_OP_MUL:
            nn = [c for c in t.children() if not z3.is_rational_value(c)]
            if len(nn) >= 2:
                return True
            st.extend(nn)
        elif k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)):
            st.append(t.arg(0))
    return False


def quad_sign(x, y):
    """1 if x >= y always, -1 if x <= y always, by exact quadratic-form reasoning; else 0"""
    if (x.num_args() == 0 and y.num_args() == 0) or not z3.is_real(x) or not z3.is_real(y):
        return 0
    if not _nonlinear(x) and not _nonlinear(y):
        return 0
    q = _quad(som(x - y))
    if q is None:
        return 0
    if _psd(*q):
        return 1
    co, n = q
    return -1 if _psd({k: -c for k, c in co.items()}, n) else 0


def _factors(t):
    """-> list of non-numeric factors of a monomial, coefficient"""
    c, fs, st = Fraction(1), [], [t]
    while st:
        u = st.pop()
        if z3.is_rational_value(u):
            c *= u.as_fraction()
        elif z3.is_mul(u):
            st.extend(u.children())
        elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UMINUS:
            c = -c
            st.append(u.arg(0))
        else:
            fs.append(u)
    return c, fs


def struct_sign(e, depth=0):
    """2 if e > 0, 1 if e >= 0, by the structure of e alone (sums and products of known signs, squares); else 0"""
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return 2 if f > 0 else 1 if f == 0 else 0
    if not z3.is_app(e) or depth > 40 or ENG is None:
        return 0
    k = e.decl().kind()
    if e.num_args() == 0:
        return 2 if e.get_id() in ENG.posvars else 1 if e.get_id() in ENG.sqrt_of else 0
    if k == z3.Z3_OP_ADD:
        best = 1
        for c in e.children():
            s = struct_sign(c, depth + 1)
            if s == 0:
                return 0
            best = max(best, s)
        return best
    if k == z3.Z3_OP_MUL:
        odd, neg = {}, 0
        for c in e.children():
            if z3.is_rational_value(c):
                f = c.as_fraction()
                if f == 0:
                    return 1
                neg ^= f < 0
            elif c.get_id() in odd:
                odd.pop(c.get_id())
                odd[-c.get_id() - 1] = None
            else:
                odd[c.get_id()] = c
        r = 2
        for c in odd.values():
            s = 1 if c is None else struct_sign(c, depth + 1)
            if s == 0:
                return 0
            r = min(r, s)
        return 0 if neg else r
    if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
        f = e.arg(1).as_fraction()
        if f.denominator == 1 and f > 0:
            s = struct_sign(e.arg(0), depth + 1)
            return s if s else (1 if f % 2 == 0 else 0)
        return 0
    if k == z3.Z3_OP_ITE:
        return min(struct_sign(e.arg(1), depth + 1), struct_sign(e.arg(2), depth + 1))
    if k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() > 0:
        return struct_sign(e.arg(0), depth + 1)
    return 0


def cancel_pos(x, y):
    """x ? y with a common positive factor of all monomials of x - y (inverse of a square root) removed"""
    if x.num_args() == 0 and y.num_args() == 0:
        return x, y
    d = som(x - y)
    ms = [_factors(t) for t in (d.children() if z3.is_add(d) else [d])]
    if len(ms) > 200:
        return x, y
    common = None
    for c, fs in ms:
        ids = {f.get_id() for f in fs} & ENG.posvars
        common = ids if common is None else common & ids
        if not common:
            return x, y
    k = min(common)
    out = []
    for c, fs in ms:
        done = False
        r = rv(c)
        for f in fs:
            if not done and f.get_id() == k:
                done = True
                continue
            r = r * f
        out.append(r)
    n = out[0]
    for r in out[1:]:
        n = n + r
    return z3.simplify(n), rv(0)


def s_cmp(op, a, b):
    npf = isnpv(a) or isnpv(b)
    if _special(a) or _special(b):
        # symbolic side is finite
        x = a if _special(a) else 0.0
        y = b if _special(b) else 0.0
        r = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op]
        return bool(r)
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return NotImplemented
    if la[0] == 'b' and lb[0] == 'b' and op in ('eq', 'ne'):
        e = la[1] == lb[1]
        return mkbool(e if op == 'eq' else z3.Not(e), npf)
    k, x, y = _binpair(a, b)
    if k == 'r' and ENG is not None and ENG.posvars:
        x, y = cancel_pos(x, y)
    if op in ('lt', 'le', 'gt', 'ge'):
        q = quad_sign(x, y)
        if q:
            hit = {(1, 'ge'): True, (1, 'lt'): False, (-1, 'le'): True, (-1, 'gt'): False}.get((q, op))
            if hit is not None:
                return np.bool_(hit) if npf else hit
    if op == 'lt':
        e = x < y
    elif op == 'le':
        e = x <= y
    elif op == 'gt':
        e = x > y
    elif op == 'ge':
        e = x >= y
    elif op == 'eq':
        e = x == y
    else:
        e = x != y
    return mkbool(e, npf)


def s_floor(a, npf=None):
    npf = isnpv(a) if npf is None else npf
    if isinstance(a, (SInt, SBool)):
        return SReal(toreal(*lift(a)), npf) if npf else a
    return SReal(z3.ToReal(z3.ToInt(a.e)), npf)


def s_ceil(a, npf=None):
    npf = isnpv(a) if npf is None else npf
    if isinstance(a, (SInt, SBool)):
        return SReal(toreal(*lift(a)), npf) if npf else a
    return SReal(-z3.ToReal(z3.ToInt(-a.e)), npf)


def unreal(e):
    """Int expr equal to real expr e known integral, or None"""
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return e.arg(0)
    return None


def s_trunc_int(a, npf=False):
    """int(a)"""
    if isinstance(a, SInt):
        return SInt(a.e, npf)
    if isinstance(a, SBool):
        return SInt(toint('b', a.e), npf)
    e = z3.simplify(a.e)
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return SInt(iv(int(f)), npf)
    u = unreal(a.e)
    if u is not None:
        return SInt(u, npf)
    return SInt(z3.If(a.e >= 0, z3.ToInt(a.e), -z3.ToInt(-a.e)), npf)


def s_round(a, nd=None):
    if isinstance(a, (SInt, SBool)):
        return a
    if nd not in (None, 0):
        s = 10 ** nd
        return s_div(s_round(s_mul(a, s), 0), float(s))
    e = a.e
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    h = rv(0.5)
    r = z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return SInt(r, a.np) if nd is None else SReal(z3.ToReal(r), a.np)


def _mk(op, rev=False):
    def f(self, other):
        if _is_arr(other):
            return _arrop(op[1], other, self) if rev else _arrop(op[1], self, other)
        if not isinstance(other, Sym) and not is_num(other):
            if hasattr(other, '__array__') or isinstance(other, (list, tuple)) and self.np:
                from . import symnp
                o = symnp.asarr(other)
                return _arrop(op[1], o, self) if rev else _arrop(op[1], self, o)
            return NotImplemented
        return op[0](other, self) if rev else op[0](self, other)
    return f


def _mkc(op, un):
    def f(self, other):
        if _is_arr(other):
            return _arrop(un, self, other)
        if not isinstance(other, Sym) and not is_num(other):
            return NotImplemented if op not in ('eq', 'ne') else (op == 'ne')
        return s_cmp(op, self, other)
    return f


class _Arith(Sym):
    __slots__ = ()
    __add__ = _mk((s_add, 'add'))
    __radd__ = _mk((s_add, 'add'), True)
    __sub__ = _mk((s_sub, 'subtract'))
    __rsub__ = _mk((s_sub, 'subtract'), True)
    __mul__ = _mk((s_mul, 'multiply'))
    __rmul__ = _mk((s_mul, 'multiply'), True)
    __truediv__ = _mk((s_div, 'true_divide'))
    __rtruediv__ = _mk((s_div, 'true_divide'), True)
    __floordiv__ = _mk((s_floordiv, 'floor_divide'))
    __rfloordiv__ = _mk((s_floordiv, 'floor_divide'), True)
    __mod__ = _mk((s_mod, 'remainder'))
    __rmod__ = _mk((s_mod, 'remainder'), True)
    __pow__ = _mk((s_pow, 'power'))
    __rpow__ = _mk((s_pow, 'power'), True)
    __lt__ = _mkc('lt', 'less')
    __le__ = _mkc('le', 'less_equal')
    __gt__ = _mkc('gt', 'greater')
    __ge__ = _mkc('ge', 'greater_equal')
    __eq__ = _mkc('eq', 'equal')
    __ne__ = _mkc('ne', 'not_equal')
    __hash__ = Sym.__hash__

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __floor__(self):
        return s_trunc_int(s_floor(self))

    def __ceil__(self):
        return s_trunc_int(s_ceil(self))

    def __trunc__(self):
        return s_trunc_int(self)

    def __round__(self, nd=None):
        return s_round(self, nd)

    def __bool__(self):
        k, e = lift(self)
        return ENG.branch(e != 0)

    def __float__(self):
        return ENG.concretize_real(R(self))

    def __int__(self):
        r = s_trunc_int(self)
        return ENG.concretize_int(r.e)

    def __str__(self):
        return '<sym>'

    def __format__(self, spec):
        return '<sym>'

    def is_integer(self):
        k, e = lift(self)
        return True if k == 'i' else mkbool(z3.IsInt(e))

    # object-dtype ufunc hooks used by real numpy
    def sqrt(self):
        return s_sqrt(self, True)


class SReal(_Arith):
    __slots__ = ()


class SInt(_Arith):
    __slots__ = ()

    def __index__(self):
        return ENG.concretize_int(self.e)

    def __lshift__(self, o):
        return self * 2 ** o

    def __rshift__(self, o):
        return self // 2 ** o

    def __and__(self, o):
        if type(o) is int and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)       # low-bits mask
        if isinstance(o, (int, SInt)):
            return self.__index__() & (o.__index__())
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (int, SInt)):
            return self.__index__() | (o.__index__())
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (int, SInt)):
            return self.__index__() ^ (o.__index__())
        return NotImplemented


I8T = np.dtype('i8')


def narrow_dt(dt):
    """integer types whose arithmetic wraps around within reach"""
    return dt is not None and dt.kind in 'iu' and dt.itemsize < 8


def wrap_int(e, dt):
    """the value of an integer type nearest modulo 2**bits"""
    m = 1 << (8 * dt.itemsize)
    lo = 0 if dt.kind == 'u' else -(m >> 1)
    if isinstance(e, int):
        return (e - lo) % m + lo
    if z3.is_int_value(e):
        return iv((e.as_long() - lo) % m + lo)
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return iv((s.as_long() - lo) % m + lo)
    r = ENG.ranges.get(s.get_id())
    if r is not None and lo <= r[0] and r[1] < lo + m:
        return s
    return (s - lo) % iv(m) + lo


class SNarrow(SInt):
    """numpy scalar of a narrow integer type"""
    __slots__ = ('dt',)

    def __new__(cls, e, np=True, dt=None):
        if dt is None:
            return SInt(e, np)
        return object.__new__(cls)

    def __init__(self, e, np=True, dt=None):
        self.e, self.np, self.dt = e, True, dt

    @property
    def dtype(self):
        return self.dt


def narrow(r, dt):
    """integer result of the given type"""
    if isinstance(r, SInt) and narrow_dt(dt):
        return SNarrow(wrap_int(r.e, dt), True, dt)
    if isinstance(r, SNarrow):
        return SInt(r.e, True)
    return r


def _other_dt(a, o):
    if isinstance(o, SNarrow):
        return np.result_type(a.dt, o.dt)
    if isinstance(o, SInt):
        return np.result_type(a.dt, I8T) if o.np else a.dt
    if isinstance(o, np.integer):
        return np.result_type(a.dt, o.dtype)
    if isinstance(o, int) and not isinstance(o, bool):
        if not np.iinfo(a.dt).min <= o <= np.iinfo(a.dt).max:
            raise OverflowError('Python integer %d out of bounds for %s' % (o, a.dt))
    return a.dt


def _mkn(name):
    base = getattr(SInt, name)

    def f(self, other):
        if _is_arr(other) or not isinstance(other, (Sym, int, np.integer, np.bool_)):
            return base(self, other)
        if isinstance(other, SReal):
            return base(self, other)
        dt = _other_dt(self, other)
        a = SInt(self.e, True)
        b = SInt(other.e, True) if isinstance(other, SNarrow) else other
        return narrow(getattr(a, name)(b), dt)
    return f


for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'pow'):
    for _r in ('', 'r'):
        setattr(SNarrow, '__%s%s__' % (_r, _n), _mkn('__%s%s__' % (_r, _n)))
SNarrow.__neg__ = lambda s: narrow(s_neg(SInt(s.e, True)), s.dt)
SNarrow.__abs__ = lambda s: narrow(s_abs(SInt(s.e, True)), s.dt)
SNarrow.__hash__ = Sym.__hash__


class SBool(_Arith):
    __slots__ = ()

    def __bool__(self):
        return ENG.branch(self.e)

    def __index__(self):
        return 1 if ENG.branch(self.e) else 0

    def __and__(self, o):
        if _is_arr(o):
            return _arrop('bitwise_and', self, o)
        l = lift(o)
        if l is None or l[0] != 'b':
            return NotImplemented
        return mkbool(z3.And(self.e, l[1]), self.np)

    __rand__ = __and__

    def __or__(self, o):
        if _is_arr(o):
            return _arrop('bitwise_or', self, o)
        l = lift(o)
        if l is None or l[0] != 'b':
            return NotImplemented
        return mkbool(z3.Or(self.e, l[1]), self.np)

    __ror__ = __or__

    def __xor__(self, o):
        l = lift(o)
        if l is None or l[0] != 'b':
            return NotImplemented
        return mkbool(z3.Xor(self.e, l[1]), self.np)

    __rxor__ = __xor__

    def __invert__(self):
        if not self.np:
            return ~s_trunc_int(self).__index__()
        return mkbool(z3.Not(self.e), True)

    def any(self, *a, **k):
        return self

    all = any


def s_not(a):
    if isinstance(a, SBool):
        return mkbool(z3.Not(a.e), a.np)
    if isinstance(a, Sym):
        return s_cmp('eq', a, 0)
    return not a


def as_bool_expr(a):
    if isinstance(a, SBool):
        return a.e
    if isinstance(a, Sym):
        k, e = lift(a)
        return e != 0
    return z3.BoolVal(bool(a))


def ite(c, a, b):
    """If-then-else without forking where possible"""
    if not isinstance(c, Sym):
        return a if c else b
    ce = as_bool_expr(c)
    if a is b:
        return a
    if _special(a) or _special(b) or lift(a) is None or lift(b) is None:
        return a if ENG.branch(ce) else b
    (ka, ea), (kb, eb) = lift(a), lift(b)
    npf = isnpv(a) or isnpv(b)
    if ka == 'b' and kb == 'b':
        return mkbool(z3.If(ce, ea, eb), npf)
    k, x, y = _binpair(a, b)
    if isinstance(a, SNarrow) and isinstance(b, SNarrow) and a.dt == b.dt:
        return SNarrow(z3.If(ce, x, y), True, a.dt)
    return _num_out(k, z3.If(ce, x, y), npf)


def smax2(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a if a >= b or a != a else b
    if a is b:
        return a
    return ite(s_cmp('ge', a, b), a, b)


def smin2(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a if a <= b or a != a else b
    if a is b:
        return a
    return ite(s_cmp('le', a, b), a, b)


# ---------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.limited = 0
        self.limit_why = {}
        self.forks = 0
        self.queries = 0
        self.feas_checks = 0
        self.discharged = 0
        self.sat = 0
        self.unknown = 0
        self.unknown_msgs = {}
        self.margin = 0
        self.solver_s = 0.0
        self.concretized = 0
        self.unexplored = 0
        self.steps = 0

    def merge(self, o):
        for k, v in o.items():
            cur = getattr(self, k)
            if isinstance(v, dict):
                for a, b in v.items():
                    cur[a] = cur.get(a, 0) + b
            else:
                setattr(self, k, cur + v)

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    """Explores all paths of fn(); one instance per harness job."""

    def __init__(self, deadline=None, max_paths=100000, qtimeout=8000, ftimeout=1500, seed=1):
        self.stats = Stats()
        self.deadline = deadline
        self.max_paths = max_paths
        self.qtimeout = qtimeout
        self.ftimeout = ftimeout
        self.rng = _pyrandom.Random(seed)
        self.work = [([], None)]
        self.uf_cache = {}
        self.crosscheck = False

    # ---- per path
    def begin(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.ftimeout)
        self.pc = []
        self.model = model
        self.hint_model = model
        self.inputs = {}      # name -> (kind, z3 var)
        self.input_order = []
        self.nfresh = 0
        self.ranges = {}      # id of an integer input -> its bounds
        self.sqrt_cache = Near()
        self.sqrt_of = {}
        self.posvars = set()
        self.inv_cache = Near()
        self.ufs = {}
        self.defs = {}        # id of a defined variable -> (variable, constraints, kind); activated on first use
        self.scanned = set()
        self.keep = []
        self.active_ufs = {}
        self.path_concretized = 0
        self.fork_sort = True

    def use(self, e):
        """definitions (sqrt, inverse, uninterpreted functions) enter the path condition when first mentioned"""
        if not self.defs:
            return
        st = [e]
        new = False
        self.keep.append(e)
        while st:
            t = st.pop()
            k = t.get_id()
            if k in self.scanned:
                continue
            self.scanned.add(k)
            if t.num_args() == 0:
                d = self.defs.pop(k, None)
                if d is not None:
                    new = True
                    for c in d():
                        self.keep.append(c)
                        self.pc.append(c)
                        self.solver.add(c)
                        st.append(c)
            else:
                st.extend(t.children())
        if new:
            self.model = None

    def define(self, v, mk):
        self.defs[v.get_id()] = mk
        self.keep.append(v)

    def add(self, c, keep_model=False):
        self.use(c)
        self.pc.append(c)
        self.solver.add(c)
        if not keep_model:
            self.model = None

    def fresh(self, base, sort='r'):
        self.nfresh += 1
        n = '%s!%d' % (base, self.nfresh)
        return z3.Real(n) if sort == 'r' else z3.Int(n) if sort == 'i' else z3.Bool(n)

    def _timed_check(self, solver):
        t = time.monotonic()
        r = solver.check()
        self.stats.solver_s += time.monotonic() - t
        return r

    def tick(self):
        if self.deadline and time.monotonic() > self.deadline:
            raise PathLimit('time budget')

    def ensure_model(self):
        """model of current pc; None if solver cannot tell"""
        if self.model is not None:
            return self.model
        self.tick()
        self.stats.feas_checks += 1
        r = self._timed_check(self.solver)
        if r == z3.sat:
            self.model = self.solver.model()
        elif r == z3.unsat:
            raise PathAbort()
        else:
            m = self._second_try(self.pc)
            if m == 'unsat':
                raise PathAbort()
            self.model = m
        return self.model

    def _second_try(self, cs, timeout=None):
        """nlsat / fresh solver; returns model, 'unsat' or None"""
        t = time.monotonic()
        try:
            for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(), z3.Solver):
                s = mk()
                s.set('timeout', timeout or self.ftimeout * 2)
                try:
                    s.add(*cs)
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r == z3.sat:
                    return s.model()
                if r == z3.unsat:
                    return 'unsat'
            return None
        finally:
            self.stats.solver_s += time.monotonic() - t

    def feasible(self, c):
        """sat model / None(unsat) / 'unknown'"""
        self.tick()
        self.stats.feas_checks += 1
        self.use(c)
        self.solver.push()
        try:
            self.solver.add(c)
            r = self._timed_check(self.solver)
            if r == z3.sat:
                return self.solver.model()
            if r == z3.unsat:
                return None
        finally:
            self.solver.pop()
        m = self._second_try(self.pc + [c])
        if m == 'unsat':
            return None
        return m if m is not None else 'unknown'

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.stats.steps += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            last = self.pos == len(self.prefix)
            self.add(c if d else z3.Not(c))
            if last:
                self.model = self.hint_model
            return d
        self.stats.forks += 1
        self.pos += 1
        self.use(c)
        m = self.ensure_model()
        v = None
        if m is not None:
            v = m.eval(c, model_completion=True)
            v = True if z3.is_true(v) else False if z3.is_false(v) else None
        if v is None:
            mt = self.feasible(c)
            mf = self.feasible(z3.Not(c))
            if mt is None and mf is None:
                raise PathAbort()
            if mt is None:
                take, tm, alt = False, mf, None
            elif mf is None:
                take, tm, alt = True, mt, None
            else:
                take, tm, alt = True, mt, mf
            tm = None if tm == 'unknown' else tm
        else:
            take, tm = v, m
            alt = self.feasible(z3.Not(c) if v else c)
        if alt is not None:
            self.work.append((self.trace + [not take], None if alt == 'unknown' else alt))
        self.trace.append(take)
        self.add(c if take else z3.Not(c))
        self.model = tm
        return take

    def concretize_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        excl = []
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] == 'i':
                self.pos += 1
                self.trace.append(d)
                self.add(e == d[1])
                if self.pos == len(self.prefix):
                    self.model = self.hint_model
                return d[1]
            excl = d[1]
            for v in excl:
                self.add(e != v)
            self.model = self.hint_model
        self.pos += 1
        self.stats.steps += 1
        self.use(e)
        m = self.ensure_model()
        if m is None:
            raise PathLimit('unknown at index concretisation')
        val = m.eval(e, model_completion=True)
        if not z3.is_int_value(val):
            raise PathLimit('no int value')
        v = val.as_long()
        if len(excl) < 64:
            alt = self.feasible(e != v)
            if alt is not None:
                self.stats.forks += 1
                self.work.append((self.trace + [('x', excl + [v])], None if alt == 'unknown' else alt))
        else:
            self.stats.unexplored += 1
        self.trace.append(('i', v))
        self.add(e == v)
        self.model = m
        return v

    def enum_real(self, v):
        """fork over the feasible values of a real expression known to have finitely many"""
        e = z3.simplify(R(v))
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        excl = []
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] == 'i':
                self.pos += 1
                self.trace.append(d)
                self.add(e == rv(d[1]))
                if self.pos == len(self.prefix):
                    self.model = self.hint_model
                return float(d[1])
            excl = d[1]
            for w in excl:
                self.add(e != rv(w))
            self.model = self.hint_model
        self.pos += 1
        self.stats.steps += 1
        self.use(e)
        m = self.ensure_model()
        if m is None:
            raise PathLimit('unknown at value enumeration')
        w = real_value(m, e)
        if len(excl) < 32:
            alt = self.feasible(e != rv(w))
            if alt is not None:
                self.stats.forks += 1
                self.work.append((self.trace + [('x', excl + [w])], None if alt == 'unknown' else alt))
        else:
            self.stats.unexplored += 1
        self.trace.append(('i', w))
        self.add(e == rv(w))
        self.model = m
        return float(w)

    def concretize_real(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        self.use(e)
        m = self.ensure_model()
        if m is None:
            raise PathLimit('unknown at concretisation')
        v = real_value(m, e)
        f = float(v)
        self.stats.concretized += 1
        self.path_concretized += 1
        c = e == rv(f)
        mm = self.feasible(c)
        if mm is None or mm == 'unknown':
            c = z3.And(e >= rv(f) - rv(1e-9), e <= rv(f) + rv(1e-9))
            self.add(c)
        else:
            self.add(c)
            self.model = mm
        return f

    def assume(self, c):
        c = z3.simplify(as_bool_expr(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self.use(c)
        m = self.model
        if m is not None and z3.is_true(m.eval(c, model_completion=True)):
            self.add(c, True)
            return
        self.add(c)
        if self.pos >= len(self.prefix):
            self.ensure_model()

    # ---- definitional extensions
    def sqrt(self, e):
        k = som(e)
        kk = pkey(k)
        v = self.sqrt_cache.find(kk)
        if v is None:
            s = self.fresh('sqrt')
            self.sqrt_cache.put(kk, (s, k))
            self.sqrt_of[s.get_id()] = k
            self.define(s, lambda: [s >= 0, s * s == k])
            return s
        return v[0]

    def inv(self, e):
        """1/e for e known to be nonzero; canonical up to constant factors and products"""
        k = som(e)
        if z3.is_rational_value(k):
            return rv(1 / k.as_fraction())
        if z3.is_mul(k) or (z3.is_app(k) and k.decl().kind() in (z3.Z3_OP_POWER, z3.Z3_OP_UMINUS)):
            c, fs, st, ok = Fraction(1), [], [k], True
            while st:
                u = st.pop()
                if z3.is_rational_value(u):
                    c *= u.as_fraction()
                elif z3.is_mul(u):
                    st.extend(u.children())
                elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UMINUS:
                    c = -c
                    st.append(u.arg(0))
                elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(u.arg(1)) and u.arg(1).as_fraction() in (2, 3):
                    st.extend([u.arg(0)] * int(u.arg(1).as_fraction()))
                else:
                    fs.append(u)
            if c != 0 and fs and not (len(fs) == 1 and c == 1):
                r = rv(1 / c)
                for f in fs:
                    r = r * self.inv(f)
                return r
        elif z3.is_add(k):
            t = k.arg(0)
            c = None
            if z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
                c = t.arg(0).as_fraction()
            elif z3.is_rational_value(t) and k.num_args() > 1:
                t = k.arg(1)
                c = t.arg(0).as_fraction() if z3.is_mul(t) and z3.is_rational_value(t.arg(0)) else None
            if c is not None and c not in (0, 1):
                return rv(1 / c) * self.inv(k * rv(1 / c))
        kk = pkey(k)
        v = self.inv_cache.find(kk)
        if v is None:
            s = self.fresh('inv')
            if k.get_id() in self.sqrt_of or struct_sign(k) == 2:
                self.posvars.add(s.get_id())
            self.inv_cache.put(kk, (s, k))
            self.define(s, lambda: [s * k == 1])
            return s
        return v[0]

    # monotone increasing / decreasing unary functions with optional range and fixed points
    UFS = {
        'exp': dict(mono=1, lo=0, strict=True, pts=[(0, 1)]),
        'log': dict(mono=1, pts=[(1, 0)]),
        'log2': dict(mono=1, pts=[(1, 0), (2, 1)]),
        'log10': dict(mono=1, pts=[(1, 0), (10, 1)]),
        'log1p': dict(mono=1, pts=[(0, 0)]),
        'expm1': dict(mono=1, lo=-1, strict=True, pts=[(0, 0)]),
        'erfc': dict(mono=-1, lo=0, hi=2, pts=[(0, 1)]),
        'tanh': dict(mono=1, lo=-1, hi=1, pts=[(0, 0)]),
        'arctan': dict(mono=1, lo=-1.6, hi=1.6, pts=[(0, 0)]),
        'cos': dict(lo=-1, hi=1, pts=[(0, 1)]),
        'sin': dict(lo=-1, hi=1, pts=[(0, 0)]),
    }

    def uf(self, name, a, npf=True):
        e = som(R(a))
        if z3.is_rational_value(e):
            f = float(e.as_fraction())
            if name == 'erfc':
                return np.float64(math.erfc(f))
            return getattr(np, name)(np.float64(f))
        spec = self.UFS.get(name, {})
        if name in ('log', 'log2', 'log10', 'log1p'):
            arg = e + 1 if name == 'log1p' else e
            if not self.branch(arg > 0):
                if not npf:
                    raise ValueError('math domain error')
                return np.float64(-math.inf) if self.branch(arg == 0) else np.float64(math.nan)
        apps = self.ufs.get(name)
        if apps is None:
            apps = self.ufs[name] = Near()
        ke = pkey(e)
        f = apps.find(ke)
        if f is not None:
            return SReal(f[0], npf)
        if name in ('erfc', 'tanh', 'sin', 'cos', 'arctan') and apps:
            f = apps.find(frozenset((m, -c) for m, c in ke))
            if f is not None:
                f = f[0]
                return SReal(rv(2) - f if name == 'erfc' else f if name == 'cos' else -f, npf)
        f = self.fresh('uf_' + name)
        if name == 'exp':
            self.posvars.add(f.get_id())
        self.define(f, lambda: self._uf_axioms(name, spec, e, f))
        apps.put(ke, (f, e))
        return SReal(f, npf)

    def _uf_axioms(self, name, spec, e, f):
        out = []
        if spec.get('lo') is not None:
            out.append(f > rv(spec['lo']) if spec.get('strict') else f >= rv(spec['lo']))
        if spec.get('hi') is not None:
            out.append(f <= rv(spec['hi']))
        mono = spec.get('mono')
        act = self.active_ufs.setdefault(name, [])
        if mono:
            for x, g in [(rv(p), rv(q)) for p, q in spec.get('pts', [])] + act:
                a_, b_ = (g, f) if mono > 0 else (f, g)
                out.append(z3.And(z3.Implies(x <= e, a_ <= b_), z3.Implies(e <= x, b_ <= a_)))
                if name != 'erfc' and name != 'tanh':
                    out.append(z3.Implies(x != e, f != g))
        else:
            for x, g in [(rv(p), rv(q)) for p, q in spec.get('pts', [])] + act:
                out.append(z3.Implies(e == x, f == g))
        act.append((e, f))
        return out

    def uf2(self, name, a, b, npf=True):
        F = z3.Function('uf2_' + name, z3.RealSort(), z3.RealSort(), z3.RealSort())
        ea, eb = som(R(a)), som(R(b))
        f = F(ea, eb)
        if name == 'pow':
            if z3.is_rational_value(ea) and z3.is_rational_value(eb):
                return float(ea.as_fraction()) ** float(eb.as_fraction())
            if not z3.is_rational_value(ea) and self.branch(ea < 0):
                return np.float64(math.nan)
            self.add(f >= 0)
            # (x^p)^(1/p) == x for a UF application as the base
            if z3.is_app(ea) and ea.num_args() == 2 and ea.decl().name() == 'uf2_pow':
                inner, p = ea.arg(0), ea.arg(1)
                pr = z3.simplify(p * eb)
                if z3.is_rational_value(pr) and abs(pr.as_fraction() - 1) < Fraction(1, 10 ** 12):
                    return SReal(inner, npf)
        return SReal(f, npf)

    # ---- exploration
    def pick(self):
        if len(self.work) > 8 and self.rng.random() < 0.3:
            i = self.rng.randrange(len(self.work))
            self.work[i], self.work[-1] = self.work[-1], self.work[i]
        return self.work.pop()

    def out_of_budget(self):
        return (self.deadline and time.monotonic() > self.deadline) or self.stats.paths >= self.max_paths

    # ---- queries
    def query(self, cs, timeout=None):
        """sat model / 'unsat' / None for conjunction cs (list)"""
        timeout = timeout or self.qtimeout
        self.stats.queries += 1
        n0 = len(self.pc)
        for c in cs:
            self.use(c)
        cs = list(cs) + self.pc[n0:]
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*cs)
        r = self._timed_check(s)
        if r == z3.unsat:
            if self.crosscheck:
                self._cross(s)
            return 'unsat'
        if r == z3.sat:
            return s.model()
        return self._second_try(cs, timeout)

    def valid_alone(self, neg, timeout=400):
        """True if neg is unsatisfiable without any path condition or definition"""
        self.stats.queries += 1
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(som(neg))
        return self._timed_check(s) == z3.unsat

    def _cross(self, s):
        import subprocess
        import tempfile
        import os
        if self.cross_budget <= 0:
            return
        self.cross_budget -= 1
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
            p = f.name
        try:
            out = subprocess.run(['cvc5', '--tlimit=10000', p], capture_output=True, text=True, timeout=20).stdout.strip()
        except Exception:
            out = 'error'
        finally:
            os.unlink(p)
        self.cross[out.split('\n')[0] if out else 'timeout'] = self.cross.get(out.split('\n')[0] if out else 'timeout', 0) + 1

    cross_budget = 0
    fork_sort = True
