"""Models of third-party functions pysad calls (symbolic side) and hook dispatchers (both sides)."""
import importlib
import math
import random as pyrandom
import types
import numpy as np
from . import core, symnp
from .core import Sym, SReal, SInt, SBool, s_cmp, ite, mkbool, as_bool_expr, PathLimit
from .symnp import asarr, plain, wrap, Mod, conc, has_sym, TABLE, F8

CUR = {'hooks': {}, 'provider': None, 'ctx': None}


# ------------------------------------------------------------------ hooks
HOOKABLE = {
    'sklearn.random_projection': ['GaussianRandomProjection', 'SparseRandomProjection'],
    'pyod.models.iforest': ['IForest'],
    'statsmodels.tsa.seasonal': ['STL'],
    'rrcf.rrcf': ['RCTree'],
    'rrcf': ['RCTree'],
    'PyNomaly.loop': ['LocalOutlierProbability'],
    'mmh3': ['hash'],
    'scipy.io': ['loadmat'],
    'scipy.cluster.hierarchy': ['linkage', 'to_tree'],
    'numpy': ['loadtxt', 'genfromtxt'],
    'combo.models.score_comb': ['shuffle'],
}


def key_of(mod, attr):
    return 'rrcf:RCTree' if mod.startswith('rrcf') else mod + ':' + attr


def dispatcher(mod, attr, real):
    key = key_of(mod, attr)

    def d(*a, **k):
        h = CUR['hooks'].get(key)
        if h is not None:
            return h(*a, **k)
        r = real()
        return r(*a, **k)
    d.__name__ = attr
    d._dispatch = True
    return d


def install_concrete():
    """replace hookable attributes of the real modules by dispatchers (before pysad is imported)"""
    for mod, attrs in HOOKABLE.items():
        try:
            m = importlib.import_module(mod)
        except Exception:
            continue
        for a in attrs:
            r = getattr(m, a, None)
            if r is None or getattr(r, '_dispatch', False):
                continue
            setattr(m, a, dispatcher(mod, a, (lambda r=r: r)))


def _lazyreal(mod, attr):
    def f():
        m = importlib.import_module(mod)
        r = getattr(m, attr)

        def call(*a, **k):
            return symnp.generic(r, a, k)
        return call
    return f


# ------------------------------------------------------------------ random
class Provider:
    """np.random / random API in terms of primitive draws; polymorphic (symbolic and concrete)"""

    def __init__(self, ctx):
        self.ctx = ctx

    # primitives, overridden
    def u(self):
        raise NotImplementedError

    def gauss(self):
        raise NotImplementedError

    def i(self, lo, hi):
        raise NotImplementedError

    def perm(self, n):
        return list(range(n))

    # api
    def _fill(self, size, f):
        if size is None:
            return f()
        if isinstance(size, (int, np.integer, SInt)):
            size = (size,)
        size = tuple(int(s.__index__()) for s in size)
        n = 1
        for s in size:
            n *= s
        return self.ctx.array([f() for _ in range(n)], float).reshape(size) if n else self.ctx.array([], float).reshape(size)

    def rand(self, *d):
        return self._fill(d if d else None, self.u)

    def random(self, size=None):
        return self._fill(size, self.u)

    random_sample = ranf = sample = random

    def randn(self, *d):
        return self._fill(d if d else None, self.gauss)

    def standard_normal(self, size=None):
        return self._fill(size, self.gauss)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda: loc + scale * self.gauss())

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (isinstance(low, np.ndarray) or isinstance(high, np.ndarray)):
            size = low.shape if isinstance(low, np.ndarray) else high.shape
        if size is not None and (isinstance(low, np.ndarray) or isinstance(high, np.ndarray)):
            return low + (high - low) * self._fill(size, self.u)
        return self._fill(size, lambda: low + (high - low) * self.u())

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if isinstance(low, (Sym, np.floating, float)):
            low = math.floor(float(low)) if not isinstance(low, Sym) else low.__trunc__().__index__()
        if isinstance(high, (Sym, np.floating, float)):
            high = int(float(high)) if not isinstance(high, Sym) else high.__trunc__().__index__()
        low, high = int(low), int(high)
        if high <= low:
            raise ValueError('low >= high')
        if size is None:
            return self.i(low, high)
        r = self._fill(size, lambda: self.i(low, high))
        return r.astype(np.int64)

    integers = randint

    def permutation(self, x):
        if isinstance(x, (int, np.integer, SInt)):
            return self.ctx.array(self.perm(int(x.__index__())), int)
        x = self.ctx.array(x)
        return x[self.perm(len(x))]

    def shuffle(self, x):
        p = self.perm(len(x))
        y = [x[j] for j in p]
        if isinstance(x, np.ndarray):
            y = [v.copy() if isinstance(v, np.ndarray) else v for v in y]
        for k, v in enumerate(y):
            x[k] = v

    def choice(self, a, size=None, replace=True, p=None):
        pool = list(range(int(a.__index__()))) if isinstance(a, (int, np.integer, SInt)) else list(a)
        if size is None:
            return pool[self.i(0, len(pool))]
        if isinstance(size, tuple):
            raise PathLimit('choice shape')
        size = int(size)
        if not replace:
            if size > len(pool):
                raise ValueError('Cannot take a larger sample than population when replace is False')
            pm = self.perm(len(pool))
            return self.ctx.array([pool[j] for j in pm[:size]])
        return self.ctx.array([pool[self.i(0, len(pool))] for _ in range(size)])

    def seed(self, *a):
        pass


API = ['rand', 'random', 'random_sample', 'ranf', 'sample', 'randn', 'standard_normal', 'normal', 'uniform', 'randint',
       'permutation', 'shuffle', 'choice', 'seed']


class ConstProvider(Provider):
    """every draw is the same constant: independent of the number and the order of draws"""

    def __init__(self, ctx, u=0.5, g=1.0, i=0, perm=None):
        super().__init__(ctx)
        self._u, self._g, self._i, self._perm = u, g, i, perm

    def u(self):
        return self._u

    def gauss(self):
        return self._g

    def i(self, lo, hi):
        v = self._i(lo, hi) if callable(self._i) else lo + self._i
        return min(v, hi - 1)

    def perm(self, n):
        return self._perm(n) if self._perm else list(range(n))


class SeqProvider(Provider):
    """every draw is a fresh input (symbolic) named by its position"""

    def __init__(self, ctx, tag='draw', imode='fork'):
        super().__init__(ctx)
        self.n = 0
        self.tag = tag
        self.log = []

    def _name(self, k):
        self.n += 1
        return '%s_%s%d' % (self.tag, k, self.n)

    def u(self):
        v = self.ctx.real(self._name('u'), 0, 1)
        self.ctx.assume(v < 1)
        self.log.append(('u', v))
        return v

    def gauss(self):
        v = self.ctx.real(self._name('g'), -6, 6)
        self.log.append(('g', v))
        return v

    def i(self, lo, hi):
        v = lo + self.ctx.choice(self._name('i'), hi - lo)
        self.log.append(('i', v))
        return v

    def perm(self, n):
        pool = list(range(n))
        out = []
        while pool:
            out.append(pool.pop(self.ctx.choice(self._name('p'), len(pool))))
        self.log.append(('p', out))
        return out


class DistinctProvider(Provider):
    """every draw is a different known constant; the draws made are logged, so that an oracle can be quantified over
    which draw went where, independent of their order"""

    def __init__(self, ctx, us=None, gs=None, ints=None, perms=None):
        super().__init__(ctx)
        self._us, self._gs, self._ints, self._perms = us, gs, ints, perms
        self.us, self.gs = [], []
        self.ni = self.np = 0

    def u(self):
        k = len(self.us)
        v = self._us[k] if self._us and k < len(self._us) else ((k + 1) * 0.38196601125) % 1.0
        self.us.append(v)
        return v

    def gauss(self):
        k = len(self.gs)
        v = self._gs[k] if self._gs and k < len(self._gs) else ((k + 1) * 1.2360679775) % 2.0 - 1.0137
        self.gs.append(v)
        return v

    def i(self, lo, hi):
        self.ni += 1
        return lo + (self._ints[self.ni - 1] if self._ints and self.ni <= len(self._ints) else self.ni) % (hi - lo)

    def perm(self, n):
        self.np += 1
        r = self._perms[self.np - 1] if self._perms and self.np <= len(self._perms) else self.np
        return [(j + r) % n for j in range(n)]


def _rand_dispatch(name, real):
    def f(*a, **k):
        p = CUR['provider']
        if p is not None:
            return getattr(p, name)(*a, **k)
        if name == 'seed':
            s = a[0] if a else k.get('seed')
            CUR['seed_np'] = s
            if isinstance(s, Sym):
                return None
        else:
            CUR['seed_np'] = None
        return symnp.generic(real, a, k)
    f.__name__ = name
    return f


def _shuffle(x):
    p = CUR['provider']
    if p is not None:
        return p.shuffle(x)
    if isinstance(x, symnp.SymArray):
        ix = np.random.permutation(len(x))
        idx = list(range(len(x)))
        np.random.shuffle(idx)
        y = x.copy()
        for k, j in enumerate(idx):
            x[k] = y[j]
        return None
    np.random.shuffle(x)


def make_random():
    t = {n: _rand_dispatch(n, getattr(np.random, n)) for n in API}
    t['shuffle'] = lambda x: _shuffle_fix(x)
    t['RandomState'] = _RS
    t['default_rng'] = _default_rng
    t['get_state'] = np.random.get_state
    t['set_state'] = np.random.set_state
    return Mod('numpy.random', t, np.random)


def _shuffle_fix(x):
    p = CUR['provider']
    if p is not None:
        return p.shuffle(x)
    if isinstance(x, symnp.SymArray):
        idx = list(range(len(x)))
        np.random.shuffle(idx)
        y = x.copy()
        for k, j in enumerate(idx):
            x[k] = y[j]
        return None
    return np.random.shuffle(x)


class _RSProxy:
    def __init__(self, real):
        self._r = real

    def __getattr__(self, n):
        if n.startswith('__') or n == '_r':
            raise AttributeError(n)
        f = getattr(self._r, n)
        if callable(f):
            return lambda *a, **k: symnp.generic(f, a, k)
        return f


def _RS(seed=None):
    if isinstance(seed, SInt):
        seed = seed.__index__()
    return _RSProxy(np.random.RandomState(seed))


def _default_rng(seed=None):
    return _RSProxy(np.random.default_rng(seed))


def make_pyrandom():
    def w(name):
        real = getattr(pyrandom, name)

        def f(*a, **k):
            if name == 'seed':
                s = a[0] if a else k.get('a')
                CUR['seed_py'] = s
                if isinstance(s, Sym):
                    return None
            else:
                CUR['seed_py'] = None
            return symnp.generic(real, a, k)
        return f
    t = {n: w(n) for n in ('random', 'uniform', 'randint', 'randrange', 'gauss', 'seed', 'choice', 'sample', 'getrandbits')}
    return Mod('random', t, pyrandom)


class patched_random:
    """concrete mode: route np.random.* through a provider"""

    def __init__(self, prov):
        self.p = prov

    def __enter__(self):
        self.saved = {n: getattr(np.random, n) for n in API}
        for n in API:
            setattr(np.random, n, getattr(self.p, n))

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(np.random, n, v)


# ------------------------------------------------------------------ scipy
def _dist(a, b, metric='euclidean'):
    d = [x - y for x, y in zip(plain(a), plain(b))]
    if metric in ('euclidean', 'sqeuclidean'):
        if metric == 'euclidean' and len(d) == 1:
            return abs(d[0])
        s = symnp._csum([x * x for x in d])
        if metric == 'sqeuclidean':
            return s
        if isinstance(s, Sym):
            e = core.z3.simplify(s.e)
            if core.z3.is_rational_value(e):
                return math.sqrt(e.as_fraction())
            return SReal(core.eng().sqrt(s.e), True)
        return math.sqrt(s)
    if metric in ('cityblock', 'manhattan'):
        return symnp._csum([abs(x) for x in d])
    if metric == 'chebyshev':
        return symnp._fold(core.smax2)([abs(x) for x in d])
    raise PathLimit('metric ' + str(metric))


def cdist(XA, XB, metric='euclidean', **k):
    XA, XB = asarr(XA, F8), asarr(XB, F8)
    if XA.ndim != 2:
        raise ValueError('XA must be a 2-dimensional array.')
    if XB.ndim != 2:
        raise ValueError('XB must be a 2-dimensional array.')
    if XA.shape[1] != XB.shape[1]:
        raise ValueError('XA and XB must have the same number of columns')
    o = np.empty((XA.shape[0], XB.shape[0]), dtype=object)
    for i in range(o.shape[0]):
        for j in range(o.shape[1]):
            o[i, j] = _dist(XA[i], XB[j], metric)
    return wrap(o, F8)


def _two(metric):
    return lambda u, v, w=None: symnp.elem(_dist(asarr(u, F8), asarr(v, F8), metric), F8)


def entropy(pk, qk=None, base=None, axis=0, **k):
    pk = asarr(pk, F8)
    if conc(pk) is not None and (qk is None or conc(asarr(qk)) is not None):
        from scipy import stats
        with np.errstate(all='ignore'):
            return stats.entropy(conc(pk), None if qk is None else conc(asarr(qk)), base=base, axis=axis)
    p = [core.eng().enum_real(x) if isinstance(x, Sym) else x for x in plain(pk)]
    q = [core.eng().enum_real(x) if isinstance(x, Sym) else x for x in plain(asarr(qk))] if qk is not None else None
    from scipy import stats
    with np.errstate(all='ignore'):
        return stats.entropy(np.array(p), None if q is None else np.array(q), base=base)


class NormModel:
    @staticmethod
    def _z(x, loc, scale):
        return (x - loc) / scale if not (loc == 0 and scale == 1) else x

    def cdf(self, x, loc=0, scale=1):
        z = self._z(x, loc, scale)
        return self._map(z, lambda v: 0.5 * core.eng().uf('erfc', -v / math.sqrt(2), True) if isinstance(v, Sym) else 0.5 * math.erfc(-v / math.sqrt(2)))

    def sf(self, x, loc=0, scale=1):
        z = self._z(x, loc, scale)
        return self._map(z, lambda v: 0.5 * core.eng().uf('erfc', v / math.sqrt(2), True) if isinstance(v, Sym) else 0.5 * math.erfc(v / math.sqrt(2)))

    def _map(self, z, f):
        if isinstance(z, np.ndarray):
            return symnp._sc(wrap(np.frompyfunc(f, 1, 1)(plain(asarr(z))), F8))
        return f(z)

    def __getattr__(self, n):
        from scipy.stats import norm
        return lambda *a, **k: symnp.generic(getattr(norm, n), a, k)


def _spec(f):
    def g(x, *a, **k):
        if isinstance(x, np.ndarray):
            return symnp._sc(wrap(np.frompyfunc(lambda v: f(v), 1, 1)(plain(asarr(x))), F8))
        return f(x)
    return g


def _erfc(v):
    return core.eng().uf('erfc', v, True) if isinstance(v, Sym) else math.erfc(v)


def make_scipy():
    env = {}
    dist = Mod('scipy.spatial.distance', {'cdist': cdist, 'euclidean': _two('euclidean'), 'sqeuclidean': _two('sqeuclidean'),
                                          'cityblock': _two('cityblock'), 'chebyshev': _two('chebyshev')}, _lazymod('scipy.spatial.distance'))
    spatial = Mod('scipy.spatial', {'distance': dist}, _lazymod('scipy.spatial'))
    stats = Mod('scipy.stats', {'entropy': entropy, 'norm': NormModel(), 't': _Lazyobj('scipy.stats', 't'), 'chi2': _Lazyobj('scipy.stats', 'chi2')},
                _lazymod('scipy.stats'))
    special = Mod('scipy.special', {'erfc': _spec(_erfc), 'erf': _spec(lambda v: 1.0 - _erfc(v)),
                                    'ndtr': _spec(lambda v: 0.5 * _erfc(-v / math.sqrt(2)))}, _lazymod('scipy.special'))
    hier = Mod('scipy.cluster.hierarchy', {a: dispatcher('scipy.cluster.hierarchy', a, _lazyreal('scipy.cluster.hierarchy', a))
                                           for a in ('linkage', 'to_tree')}, _lazymod('scipy.cluster.hierarchy'))
    cluster = Mod('scipy.cluster', {'hierarchy': hier}, None)
    sio = Mod('scipy.io', {'loadmat': dispatcher('scipy.io', 'loadmat', _lazyreal('scipy.io', 'loadmat'))}, _lazymod('scipy.io'))
    linalg = Mod('scipy.linalg', {'norm': symnp._lnorm}, _lazymod('scipy.linalg'))
    sp = Mod('scipy', {'spatial': spatial, 'stats': stats, 'special': special, 'cluster': cluster, 'io': sio, 'linalg': linalg}, _lazymod('scipy'))
    for m in (sp, spatial, dist, stats, special, hier, cluster, sio, linalg):
        env[m.__name__] = m
    return env


class _Lazyobj:
    """distribution object: arguments concretised"""

    def __init__(self, mod, attr):
        self._m, self._a = mod, attr

    def __getattr__(self, n):
        o = getattr(importlib.import_module(self._m), self._a)
        f = getattr(o, n)
        return lambda *a, **k: symnp.generic(f, a, k)


class _lazymod:
    def __init__(self, name):
        self.__name__ = name

    def __getattr__(self, n):
        return getattr(importlib.import_module(self.__name__), n)


# ------------------------------------------------------------------ sklearn metrics (semantic models)
def _labels(y):
    y = asarr(y)
    return [as_bool_expr(s_cmp('eq', v, 1)) if isinstance(v, Sym) else core.z3.BoolVal(v == 1) for v in plain(y).ravel()]


def _cnt(bs):
    """count of booleans, concretised by forking over its feasible values"""
    e = core.z3.simplify(core.z3.Sum([core.z3.If(b, core.iv(1), core.iv(0)) for b in bs])) if bs else core.iv(0)
    return core.eng().concretize_int(e)


def _chk(yt, yp):
    a, b = asarr(yt), asarr(yp)
    if a.shape[0] != b.shape[0]:
        raise ValueError('Found input variables with inconsistent numbers of samples')
    if a.shape[0] == 0:
        raise ValueError('Found empty input array')


def _chkbin(y):
    for v in plain(asarr(y)).ravel():
        if isinstance(v, Sym):
            if not bool(mkbool(core.z3.Or(core.R(v) == 0, core.R(v) == 1))):
                raise ValueError('Classification metrics cannot handle a mix of binary and continuous targets')
        elif v not in (0, 1):
            raise ValueError('Classification metrics cannot handle a mix of binary and continuous targets')


def precision_score(y_true, y_pred, **k):
    _chk(y_true, y_pred)
    _chkbin(y_true)
    _chkbin(y_pred)
    t, p = _labels(y_true), _labels(y_pred)
    pp = _cnt(p)
    if pp == 0:
        return float(k.get('zero_division', 0.0) if k.get('zero_division') not in (None, 'warn') else 0.0)
    return np.float64(_cnt([core.z3.And(a, b) for a, b in zip(t, p)]) / pp)


def recall_score(y_true, y_pred, **k):
    _chk(y_true, y_pred)
    _chkbin(y_true)
    _chkbin(y_pred)
    t, p = _labels(y_true), _labels(y_pred)
    n = _cnt(t)
    if n == 0:
        return float(k.get('zero_division', 0.0) if k.get('zero_division') not in (None, 'warn') else 0.0)
    return np.float64(_cnt([core.z3.And(a, b) for a, b in zip(t, p)]) / n)


def roc_auc_score(y_true, y_score, **k):
    _chk(y_true, y_score)
    z = core.z3
    t = _labels(y_true)
    s = [core.R(v) for v in plain(asarr(y_score)).ravel()]
    n = len(t)
    P = _cnt(t)
    if P == 0 or P == n:
        raise ValueError('Only one class present in y_true. ROC AUC score is not defined in that case.')
    acc = []
    for i in range(n):
        for j in range(n):
            if i != j:
                acc.append(z.If(z.And(t[i], z.Not(t[j])), z.If(s[i] > s[j], core.rv(1), z.If(s[i] == s[j], core.rv(0.5), core.rv(0))), core.rv(0)))
    return SReal(z.Sum(acc) * core.rv(core.Fraction(1, P * (n - P))), True)


def average_precision_score(y_true, y_score, **k):
    _chk(y_true, y_score)
    z = core.z3
    t = _labels(y_true)
    s = [core.R(v) for v in plain(asarr(y_score)).ravel()]
    n = len(t)
    P = _cnt(t)
    if P == 0:
        return 0.0
    acc = []
    for i in range(n):
        ge = [z.BoolVal(True) if i == j else s[j] >= s[i] for j in range(n)]
        num = z.Sum([z.If(z.And(g, t[j]), core.rv(1), core.rv(0)) for j, g in enumerate(ge)])
        den = z.Sum([z.If(g, core.iv(1), core.iv(0)) for g in ge])
        val = num * core.rv(core.Fraction(1, n))
        for kk in range(n - 1, 0, -1):
            val = z.If(den == kk, num * core.rv(core.Fraction(1, kk)), val)
        acc.append(z.If(t[i], val, core.rv(0)))
    return SReal(z.Sum(acc) * core.rv(core.Fraction(1, P)), True)


def check_array(a, *x, **k):
    return asarr(a, k.get('dtype') if k.get('dtype') not in ('numeric', None) else None)


def make_sklearn():
    env = {}
    metrics = Mod('sklearn.metrics', {'precision_score': precision_score, 'recall_score': recall_score, 'roc_auc_score': roc_auc_score,
                                      'average_precision_score': average_precision_score}, _lazymod('sklearn.metrics'))
    rp = Mod('sklearn.random_projection', {a: dispatcher('sklearn.random_projection', a, _lazyreal('sklearn.random_projection', a))
                                           for a in HOOKABLE['sklearn.random_projection']}, None)
    utils = Mod('sklearn.utils', {'check_array': check_array, 'column_or_1d': lambda y, **k: asarr(y).ravel(),
                                  'shuffle': _sk_shuffle}, _lazymod('sklearn.utils'))
    env['sklearn.utils.random'] = Mod('sklearn.utils.random', {'sample_without_replacement': _swr}, _lazymod('sklearn.utils.random'))
    env['sklearn.utils.extmath'] = Mod('sklearn.utils.extmath', {'weighted_mode': None}, None)
    env['sklearn.utils.multiclass'] = Mod('sklearn.utils.multiclass', {'check_classification_targets': lambda *a: None}, None)
    env['sklearn.kernel_approximation'] = Mod('sklearn.kernel_approximation', {'RBFSampler': _RBF}, None)
    env['sklearn'] = Mod('sklearn', {'metrics': metrics, 'utils': utils, 'random_projection': rp}, _lazymod('sklearn'))
    for m in (metrics, rp, utils):
        env[m.__name__] = m
    return env


def _sk_shuffle(l, random_state=None, **k):
    n = len(l)
    p = CUR['provider']
    idx = np.arange(n)
    if p is not None:
        idx = p.perm(n)
    else:
        (np.random.mtrand._rand if random_state is None else np.random.RandomState(random_state)).shuffle(idx)
    return [l[int(i)] for i in idx]


def _swr(n, k, random_state=None, **kw):
    from sklearn.utils.random import sample_without_replacement as f
    return symnp.sym_result(f(n, k, random_state=random_state))


def check_parameter(param, low=-2147483647, high=2147483647, param_name='', include_left=False, include_right=False):
    import numbers
    if not isinstance(param, (numbers.Integral, np.integer, float)):
        raise TypeError('{0} is set to {1} Not numerical'.format(param_name, param))
    bad = (param <= low if not include_left else param < low) or (param >= high if not include_right else param > high)
    if bad:
        raise ValueError('%s out of range' % param_name)
    return True


# ------------------------------------------------------------------ jax
def _sig(x):
    if isinstance(x, (symnp.SymArray, np.ndarray)):
        return ('a',) + tuple(x.shape)
    if isinstance(x, (tuple, list)):
        return (type(x).__name__,) + tuple(_sig(y) for y in x)
    if x is None:
        return ('none',)
    return ('v',)


class _Static:
    def __init__(self, x):
        self.x = x
        try:
            self.h = hash(x)
        except TypeError:
            raise ValueError('Non-hashable static arguments are not supported')

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.x is o.x or bool(self.x == o.x)


def _snap(x):
    """what a trace sees of an object: its attributes as they are now"""
    import copy
    if hasattr(x, '__dict__') and not isinstance(x, (types.FunctionType, types.MethodType, types.ModuleType, type)):
        return copy.copy(x)
    return x


def jax_jit(fun=None, static_argnums=(), static_argnames=(), **kw):
    """compiled functions see non-array state as it was when first traced for that signature"""
    if fun is None:
        return lambda f: jax_jit(f, static_argnums=static_argnums, static_argnames=static_argnames)
    nums = (static_argnums,) if isinstance(static_argnums, int) else tuple(static_argnums or ())
    names = (static_argnames,) if isinstance(static_argnames, str) else tuple(static_argnames or ())
    cache = {}

    def f(*a, **k):
        key = tuple(_Static(x) if i in nums else _sig(x) for i, x in enumerate(a)) + tuple(
            (n, _Static(v) if n in names else _sig(v)) for n, v in sorted(k.items()))
        if key not in cache:
            cache[key] = ({i: _snap(a[i]) for i in nums if i < len(a)}, {n: _snap(k[n]) for n in names if n in k},
                          _snap(fun.__self__) if isinstance(fun, types.MethodType) else None)
        sa, sk, me = cache[key]
        a2 = [sa.get(i, x) for i, x in enumerate(a)]
        k2 = {n: sk.get(n, v) for n, v in k.items()}
        if me is not None:
            return fun.__func__(me, *a2, **k2)
        return fun(*a2, **k2)
    f.__name__ = getattr(fun, '__name__', 'jitted')
    f.__wrapped__ = fun
    return f


def jax_vmap(fun, in_axes=0, out_axes=0, **kw):
    if out_axes != 0:
        raise PathLimit('vmap out_axes')

    def f(*a, **k):
        ax = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(a)
        if any(x not in (0, None) for x in ax) or len(ax) != len(a):
            raise PathLimit('vmap in_axes')
        n = [len(x) for x, m in zip(a, ax) if m == 0]
        if not n or any(m != n[0] for m in n):
            raise ValueError('vmap got inconsistent sizes for array axes to be mapped')
        rs = [fun(*[x[i] if m == 0 else x for x, m in zip(a, ax)], **k) for i in range(n[0])]
        return TABLE['stack'](rs) if isinstance(rs[0], symnp.SymArray) else TABLE['array'](rs)
    return f


class _RBF:
    def __init__(self, **k):
        from sklearn.kernel_approximation import RBFSampler
        self.r = RBFSampler(**k)

    def fit(self, X, y=None):
        self.r.fit(np.zeros(asarr(X).shape))
        self.random_weights_ = symnp.fromreal(self.r.random_weights_)
        self.random_offset_ = symnp.fromreal(self.r.random_offset_)
        return self

    def get_params(self, deep=True):
        return self.r.get_params()


def make_jax(npm):
    j = Mod('jax', {'jit': jax_jit, 'vmap': jax_vmap, 'numpy': npm}, None)
    return {'jax': j, 'jax.numpy': npm}


def hookmod(name, extra=None):
    t = {a: dispatcher(name, a, _lazyreal(name, a)) for a in HOOKABLE[name]}
    t.update(extra or {})
    return Mod(name, t, _lazymod(name))


_BASE = None


def base_env():
    global _BASE
    if _BASE is not None:
        return dict(_BASE)
    from . import loader
    env = {}
    rnd = make_random()
    npm = symnp.make_numpy(rnd)
    npm.__dict__['_table']['loadtxt'] = dispatcher('numpy', 'loadtxt', lambda: (lambda *a, **k: symnp.generic(np.loadtxt, a, k)))
    npm.__dict__['_table']['genfromtxt'] = dispatcher('numpy', 'genfromtxt', lambda: (lambda *a, **k: symnp.generic(np.genfromtxt, a, k)))
    env['numpy'] = npm
    env['numpy.random'] = rnd
    env['numpy.linalg'] = npm.linalg
    env['numpy.testing'] = Mod('numpy.testing', {'assert_equal': lambda *a: None}, None)
    env['math'] = loader.make_math()
    env['heapq'] = loader.make_heapq()
    env['random'] = make_pyrandom()
    env.update(make_scipy())
    env.update(make_sklearn())
    env['pyod.utils.utility'] = Mod('pyod.utils.utility', {'check_parameter': check_parameter}, None)
    env['pyod.models.iforest'] = hookmod('pyod.models.iforest')
    env['statsmodels.tsa.seasonal'] = hookmod('statsmodels.tsa.seasonal')
    r2 = hookmod('rrcf.rrcf')
    env['rrcf.rrcf'] = r2
    env['rrcf'] = hookmod('rrcf', {'rrcf': r2})
    pl = hookmod('PyNomaly.loop')
    env['PyNomaly.loop'] = pl
    env['PyNomaly'] = Mod('PyNomaly', {'loop': pl}, None)
    env['mmh3'] = hookmod('mmh3')
    env.update(make_jax(npm))
    _BASE = env
    return dict(env)
