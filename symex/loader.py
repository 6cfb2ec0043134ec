"""Mini importer: executes the current source of pysad (and the small pure-python parts of its
dependencies it delegates to) with symbolic-aware builtins, numpy, math, scipy ... shims."""
import builtins
import importlib
import math
import os
import sys
import types
import heapq as _heapq
import numpy as np
from . import core, symnp, symdict
from .core import Sym, SReal, SInt, SBool, s_cmp, ite, smax2, smin2, s_sqrt, PathLimit

REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
EXTRA_SRC = {
    'pyod.models.combination': SITE + '/pyod/models/combination.py',
    'combo.models.score_comb': SITE + '/combo/models/score_comb.py',
}
_code = {}


def get_code(path):
    c = _code.get(path)
    if c is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        c = _code[path] = symdict.compile_src(src, path)
    return c


# ------------------------------------------------------------------ builtins
def _conv_float(v=0.0):
    if isinstance(v, SReal):
        return SReal(v.e, False)
    if isinstance(v, Sym):
        return SReal(core.R(v), False)
    if isinstance(v, symnp.SymArray):
        if v.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return _conv_float(symnp.plain(v).reshape(-1)[0])
    return float(v)


def _conv_int(v=0, *a):
    if isinstance(v, Sym):
        return core.s_trunc_int(v)
    if isinstance(v, symnp.SymArray):
        if v.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return _conv_int(symnp.plain(v).reshape(-1)[0])
    return int(v, *a)


FloatShim = symnp.TypeShimMeta('float', (), {'_real': float, '_conv': staticmethod(_conv_float), '_kinds': 'f', '_nponly': False})
IntShim = symnp.TypeShimMeta('int', (), {'_real': int, '_conv': staticmethod(_conv_int), '_kinds': 'i', '_nponly': False})


def _ext(name, f2, real):
    def g(*a, **k):
        if len(a) == 1:
            it = list(a[0])
        else:
            it = list(a)
        key = k.get('key')
        if any(isinstance(x, Sym) for x in it) and key is None:
            if not it:
                return real(*a, **k)
            r = it[0]
            for x in it[1:]:
                r = f2(r, x)
            return r
        if len(a) == 1:
            return real(it, **k)
        return real(*a, **k)
    g.__name__ = name
    return g


def _bmax(a, b):
    # python: first maximal element is kept
    if isinstance(a, Sym) or isinstance(b, Sym):
        return smax2(a, b)
    return b if b > a else a


def _bmin(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return smin2(a, b)
    return b if b < a else a


def _sorted(it, *, key=None, reverse=False):
    l = list(it)
    if not core.eng().fork_sort and key is None and any(isinstance(x, Sym) for x in l) and all(isinstance(x, Sym) or core.is_num(x) for x in l) and len(l) <= 9:
        s = symnp.sort_list(l)
        return s[::-1] if reverse else s
    if not core.eng().fork_sort and key is None and l and all(isinstance(x, symnp.SymArray) and x.size == 1 for x in l) and len(l) <= 9:
        # one-element arrays (univariate models store them): sort elementwise, keep the shape
        s = symnp.sort_list([symnp.plain(x).reshape(-1)[0] for x in l])
        r = [symnp.wrap(_box(v, l[0].shape), l[0]._sdt) for v in s]
        return r[::-1] if reverse else r
    return sorted(l, key=key, reverse=reverse)


def _box(v, shape):
    o = np.empty(shape, dtype=object)
    o[...] = v
    return o


def _print(*a, **k):
    pass


def _round(v, nd=None):
    return round(v, nd) if nd is not None else round(v)


def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _isinstance(o, c):
    return isinstance(o, c)


_tmap = {SReal: float, SInt: int, SBool: bool, core.SNarrow: int}


class _TypeMeta(type):
    pass


def make_builtins(imp):
    b = dict(builtins.__dict__)
    b['__import__'] = imp
    b['float'] = FloatShim
    b['int'] = IntShim
    b['max'] = _ext('max', _bmax, max)
    b['min'] = _ext('min', _bmin, min)
    b['sorted'] = _sorted
    b['print'] = _print
    b['sum'] = _sum
    b['dict'] = b['__symdict__'] = symdict.SymDict
    b['set'] = b['__symset__'] = symdict.SymSet
    return b


# ------------------------------------------------------------------ math / heapq
def _mwrap(name, symf):
    real = getattr(math, name)

    def g(x, *a):
        if isinstance(x, symnp.SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = symnp.plain(x).reshape(-1)[0]
        if isinstance(x, Sym) or any(isinstance(y, Sym) for y in a):
            if isinstance(x, Sym) and x.np:
                x = type(x)(x.e, False)
            return symf(x, *a)
        return real(x, *a)
    g.__name__ = name
    return g


def _muf(name):
    return lambda x: core.eng().uf(name, x, False)


def _fin(x):
    return x


def make_math():
    t = {
        'sqrt': _mwrap('sqrt', lambda x: s_sqrt(x, False)),
        'floor': _mwrap('floor', lambda x: core.s_trunc_int(core.s_floor(x))),
        'ceil': _mwrap('ceil', lambda x: core.s_trunc_int(core.s_ceil(x))),
        'trunc': _mwrap('trunc', lambda x: core.s_trunc_int(x)),
        'fabs': _mwrap('fabs', lambda x: core.s_abs(x)),
        'exp': _mwrap('exp', _muf('exp')),
        'log': _mwrap('log', lambda x, *b: core.eng().uf('log', x, False) if not b else (
            core.eng().uf('log2', x, False) if b[0] == 2 else core.eng().uf('log', x, False) / math.log(b[0]))),
        'log2': _mwrap('log2', _muf('log2')),
        'log10': _mwrap('log10', _muf('log10')),
        'log1p': _mwrap('log1p', _muf('log1p')),
        'erfc': _mwrap('erfc', _muf('erfc')),
        'erf': _mwrap('erf', lambda x: 1.0 - core.eng().uf('erfc', x, False)),
        'cos': _mwrap('cos', _muf('cos')),
        'sin': _mwrap('sin', _muf('sin')),
        'tanh': _mwrap('tanh', _muf('tanh')),
        'isnan': _mwrap('isnan', lambda x: False),
        'isinf': _mwrap('isinf', lambda x: False),
        'isfinite': _mwrap('isfinite', lambda x: True),
        'pow': _mwrap('pow', lambda x, y: core.s_pow(x, y)),
        'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
            math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol) if not isinstance(a, Sym) and not isinstance(b, Sym)
            else abs(a - b) <= smax2(rel_tol * smax2(abs(a), abs(b)), abs_tol)),
        'fsum': lambda it: _sum(it, 0.0),
        'hypot': lambda *a: s_sqrt(_sum([x * x for x in a]), False) if any(isinstance(x, Sym) for x in a) else math.hypot(*a),
        'dist': lambda p, q: (lambda s: s_sqrt(s, False) if isinstance(s, Sym) else math.sqrt(s))(_sum([(x - y) * (x - y) for x, y in zip(p, q)])),
        'prod': lambda it, start=1: symnp._prod([start] + list(it)),
    }
    return symnp.Mod('math', t, math)


def _v(x):
    return symnp.plain(x).reshape(-1)[0] if isinstance(x, symnp.SymArray) and x.size == 1 else x


def _heappush(h, x):
    """same result as heapq.heappush, swaps expressed as ite (no forking)"""
    if not core.eng().fork_sort and type(h) is list and (isinstance(_v(x), Sym) or any(isinstance(_v(y), Sym) for y in h)) and \
            all(isinstance(_v(y), Sym) or core.is_num(_v(y)) for y in h + [x]) and len(h) < 12:
        arr = isinstance(x, symnp.SymArray)
        shape, sdt = (x.shape, x._sdt) if arr else (None, None)
        l = [_v(y) for y in h] + [_v(x)]
        pos = len(l) - 1
        h.append(x)
        changed = []
        while pos > 0:
            par = (pos - 1) >> 1
            a, b = l[par], l[pos]
            c = (s_cmp('lt', b, a) if isinstance(a, Sym) or isinstance(b, Sym) else b < a)
            if not isinstance(c, Sym):
                if not c:
                    break
            l[par], l[pos] = ite(c, b, a), ite(c, a, b)
            changed += [par, pos]
            # once not swapped, values above stay since parent <= l[par] holds by the heap invariant
            pos = par
        for i in set(changed):
            h[i] = symnp.wrap(_box(l[i], shape), sdt) if arr else l[i]
        return
    return _heapq.heappush(h, x)


def _pure_heapq():
    """the pure-python heapq (comparisons fork through __lt__)"""
    def imp(name, *a):
        if name == '_heapq':
            raise ImportError(name)
        return __import__(name, *a)
    d = {'__name__': 'heapq', '__builtins__': dict(builtins.__dict__, __import__=imp)}
    with open(_heapq.__file__, encoding='utf-8') as f:
        exec(compile(f.read(), _heapq.__file__, 'exec', dont_inherit=True), d)
    return {k: d[k] for k in ('heappop', 'heapify', 'heapreplace', 'heappushpop', 'merge', 'nlargest', 'nsmallest')}


def make_heapq():
    return symnp.Mod('heapq', dict(_pure_heapq(), heappush=_heappush), _heapq)


# ------------------------------------------------------------------ generic external module proxy
class ExtMod(symnp.Mod):
    pass


def extmod(name, table=None, real=None):
    """proxy of a real third-party module: calls convert symbolic arrays; symbolic args are concretised"""
    class Lazy:
        def __init__(self):
            self.__name__ = name

        def __getattr__(self, n):
            m = sys.modules.get(name) or importlib.import_module(name)
            return getattr(m, n)
    return symnp.Mod(name, dict(table or {}), Lazy())


REAL_OK = {'abc', 'collections', 'collections.abc', 'copy', 'functools', 'itertools', 'json', 'os', 'os.path', 'sys', 'types', 'typing',
           'warnings', 'operator', 'dataclasses', 'enum', 'contextlib', 're', 'numbers', 'bisect', 'string', 'time', 'logging',
           'inspect', '__future__', 'io', 'pathlib', 'fractions', 'decimal', 'weakref', 'threading', 'queue', 'pickle', 'textwrap'}


class Universe:
    def __init__(self, env):
        """env: dict name -> module shim (numpy, math, scipy...)"""
        self.env = env
        self.mods = {}
        self.builtins = make_builtins(self.imp)
        pk = types.ModuleType('pysad')
        pk.__path__ = [REPO + '/pysad']
        pk.__package__ = 'pysad'
        pk.__version__ = '0'
        self.mods['pysad'] = pk

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in EXTRA_SRC:
            path, pkg = EXTRA_SRC[name], False
            parent = None
        else:
            parent = name.rpartition('.')[0]
            if parent:
                self.load(parent)
                if name in self.mods:
                    return self.mods[name]
            base = REPO + '/' + name.replace('.', '/')
            if os.path.isdir(base) and os.path.exists(base + '/__init__.py'):
                path, pkg = base + '/__init__.py', True
            elif os.path.exists(base + '.py'):
                path, pkg = base + '.py', False
            else:
                raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        try:
            exec(get_code(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def is_src(self, name):
        return name == 'pysad' or name.startswith('pysad.') or name in EXTRA_SRC

    def ext(self, name):
        m = self.env.get(name)
        if m is None and name == 'collections':
            m = self.env[name] = symdict.collections_mod()
        if m is not None:
            if isinstance(m, BaseException):
                raise m
            return m
        parent = name.rpartition('.')[0]
        if parent and parent in self.env:
            p = self.env[parent]
            try:
                sub = getattr(p, name.rpartition('.')[2])
                if isinstance(sub, types.ModuleType) and isinstance(sub, symnp.Mod):
                    return sub
            except AttributeError:
                pass
        if name.split('.')[0] in REAL_OK or name in sys.stdlib_module_names or name.split('.')[0] in sys.stdlib_module_names:
            return importlib.import_module(name)
        m = self.env[name] = extmod(name)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            name = base + '.' + name if name else base
        if self.is_src(name) or any(e.startswith(name + '.') for e in EXTRA_SRC) and not fromlist:
            if not self.is_src(name):
                return types.ModuleType(name.split('.')[0])
            m = self.load(name)
            if not fromlist:
                return self.load(name.split('.')[0]) if name not in EXTRA_SRC else m
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                    try:
                        self.load(m.__name__ + '.' + f)
                    except ModuleNotFoundError as e:
                        if e.name != m.__name__ + '.' + f:
                            raise
            return m
        m = self.ext(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        sub = self.ext(name + '.' + f)
                        setattr(m, f, sub)
                    except Exception:
                        pass
            return m
        if '.' in name:
            top = self.ext(name.split('.')[0])
            # make sub-module reachable as an attribute
            cur = top
            parts = name.split('.')
            for i in range(1, len(parts)):
                sub = self.ext('.'.join(parts[:i + 1]))
                try:
                    if getattr(cur, parts[i], None) is not sub and isinstance(cur, symnp.Mod):
                        cur.__dict__[parts[i]] = sub
                except Exception:
                    pass
                cur = sub
            return top
        return m
