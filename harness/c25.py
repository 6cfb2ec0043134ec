"""C25 projectors apply one fixed linear map to every instance of the stream."""
import math
from harness.util import mine, series
FILES = ['pysad/transform/projection', 'pysad/core/base_transformer.py']
NOTE = 'mmh3 is a stand-in returning an arbitrary symbolic 32-bit value per (key, seed), and also the real mmh3; the sklearn projections are stand-ins with a fresh symbolic matrix per fit'


def classify(ctx, h, den, c):
    """coefficient for hash value h in [0, 2^32)"""
    r = h / (2.0 ** 32 - 1)
    for t in (den / 2.0, den):
        if not (t >= 1):
            ctx.assume(ctx.either(r - t > 1e-8, r - t < -1e-8))
    return ctx.ite(r <= den / 2.0, -c, ctx.ite(r <= den, c, 0.0))


def streamhash(ctx, comps, d, n, den, real, symx=None, batch=False):
    k = {} if den is None else dict(density=den)
    den = 1 / 3.0 if den is None else den
    if real:
        import mmh3

        def H(j, i):
            return mmh3.hash(str(j), seed=i, signed=False)
    else:
        def H(j, i):
            return ctx.int('h%s_%s' % (j, i), 0, 2 ** 32 - 1)

        def fake(key, seed=0, signed=True):
            if isinstance(key, bytes):
                key = key.decode()
            v = H(key, int(seed))
            return ctx.ite(v >= 2 ** 31, v - 2 ** 32, v) if signed else v
        ctx.hook('mmh3:hash', fake)
    c = math.sqrt(1.0 / den) / math.sqrt(comps)
    P = ctx.mod('pysad.transform.projection.streamhash_projector').StreamhashProjector
    p = P(comps, **k)
    con = series(n * d + d, 4)
    rows = []
    for i in range(n):
        v = con[i * d:(i + 1) * d]
        if symx is None or i in symx:
            v = [ctx.real('x%d_%d' % (i, j), -50, 50) for j in range(d)]
        rows.append(v)
    R = [[classify(ctx, H(j, i), den, c) for j in range(d)] for i in range(comps)]

    def exp(v):
        return [ctx.sum([R[i][j] * v[j] for j in range(d)]) for i in range(comps)]
    if batch:
        X = ctx.array(rows, float)
        ctx.eq(p.fit_transform(X), [exp(v) for v in rows], 'the fixed linear map, row by row', shape=True)
        return
    for i, v in enumerate(rows):
        X = ctx.array(v, float)
        if i in (0, n - 1) and ctx.flag('fit%d' % i):
            ctx.check(p.fit_partial(X) is p, 'fit returns the projector')
        ctx.eq(p.transform_partial(X), exp(v), 'the fixed linear map', shape=True)
        ctx.eq(X, v, 'the instance is left unmodified')
    if n > 1:
        ctx.eq(p.fit_transform_partial(ctx.array(rows[0], float)), exp(rows[0]), 'the same map for every instance', shape=True)


class Proj:
    def __init__(self, ctx):
        self.ctx, self.mats = ctx, []
        self.opts = []

    def cls(self, kind):
        log = self

        class Sk:
            def __init__(self, n_components='auto', *, density='auto', eps=0.1, dense_output=False, compute_inverse_components=False, random_state=None):
                if kind == 'g' and density != 'auto':
                    raise TypeError('density')
                self.k, self.o = n_components, dict(eps=eps, density=density)
                self.m = None

            def fit(self, X, y=None):
                d = X.shape[1]
                no = len(log.mats)
                self.m = [[(log.ctx.real('r%d_%d_%d' % (no, i, j)) if no < 3 else no + i + 0.5 * j) for j in range(d)] for i in range(self.k)]
                log.mats.append(self.m)
                log.opts.append(dict(self.o, n=self.k, kind=kind))
                return self

            def transform(self, X):
                if self.m is None:
                    raise ValueError('not fitted')
                return log.ctx.array([[log.ctx.sum([a * b for a, b in zip(r, v)]) for r in self.m] for v in X], float)

            def fit_transform(self, X, y=None):
                return self.fit(X).transform(X)
        return Sk


def random(ctx, kind, comps, d, n, batch=False):
    log = Proj(ctx)
    ctx.hook('sklearn.random_projection:GaussianRandomProjection', log.cls('g'))
    ctx.hook('sklearn.random_projection:SparseRandomProjection', log.cls('s'))
    mod = ctx.mod('pysad.transform.projection.random_projector')
    k = {}
    opt = ctx.flag('opts')
    if opt:
        k['eps'] = 0.25
        if kind == 's':
            k['density'] = 0.5
    p = (mod.GaussianRandomProjector if kind == 'g' else mod.SparseRandomProjector)(num_components=comps, **k)
    con = series(n * d, 4)
    rows = [con[i * d:(i + 1) * d] for i in range(n)]
    for i in (0, n - 1):
        rows[i][i % d] = ctx.real('x%d' % i)

    def exp(v):
        return [ctx.sum([a * b for a, b in zip(r, v)]) for r in log.mats[0]]
    if batch:
        how = ctx.choice('how', 3)
        X = ctx.array(rows, float)
        if how == 0:
            r = p.fit_transform(X)
        elif how == 1:
            r = p.fit(X).transform(X)
        else:
            r = p.transform(X)
        ctx.eq(r, [exp(v) for v in rows], 'one matrix for every row', shape=True)
    else:
        for i, v in enumerate(rows):
            X = ctx.array(v, float)
            op = ctx.choice('op%d' % i, 3) if (i < 4 and n < 8) or i == n - 1 or i == 0 else i % 3
            if op == 0:
                r = p.fit_transform_partial(X)
            elif op == 1:
                r = p.transform_partial(X)
            else:
                ctx.check(p.fit_partial(X) is p, 'fit returns the projector')
                r = None
            if r is not None:
                ctx.eq(r, exp(v), 'projected by the one matrix of the stream', shape=True)
            ctx.eq(X, v, 'the instance is left unmodified')
        X = ctx.array(rows[0], float)
        ctx.eq(p.transform_partial(X), exp(rows[0]), 'projected by the one matrix of the stream', shape=True)
    o = log.opts[0]
    ctx.check(o['kind'] == kind and o['n'] == comps and o['eps'] == (0.25 if opt else 0.1), 'the configured projection is used')
    ctx.check(o['density'] == (0.5 if opt and kind == 's' else 'auto'), 'the configured projection is used')


def two(ctx, kind, d):
    """separate projectors draw separate matrices; each stays fixed"""
    log = Proj(ctx)
    ctx.hook('sklearn.random_projection:GaussianRandomProjection', log.cls('g'))
    ctx.hook('sklearn.random_projection:SparseRandomProjection', log.cls('s'))
    mod = ctx.mod('pysad.transform.projection.random_projector')
    C = mod.GaussianRandomProjector if kind == 'g' else mod.SparseRandomProjector
    a, b = C(num_components=2), C(num_components=3)
    X = ctx.vec('x', d)
    ra, rb, ra2 = a.fit_transform_partial(X), b.fit_transform_partial(X), a.fit_transform_partial(X)
    v = [X[j] for j in range(d)]
    for r, m in ((ra, 0), (rb, 1), (ra2, 0)):
        ctx.eq(r, [ctx.sum([p * q for p, q in zip(w, v)]) for w in log.mats[m]], 'each projector keeps its matrix', shape=True)


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append((streamhash, dict(comps=1, d=2, n=1, den=None, real=False)))
    J.append((streamhash, dict(comps=2, d=2, n=1, den=None, real=False)))
    J.append((streamhash, dict(comps=2, d=1, n=2, den=0.5, real=False)))
    J.append((streamhash, dict(comps=2, d=1, n=1, den=1.0, real=False)))
    J.append((streamhash, dict(comps=1, d=3, n=1, den=0.1, real=False)))
    for comps, d in ((1, 1), (1, 5), (4, 3), (6, 13), (3, 12)):
        J.append((streamhash, dict(comps=comps, d=d, n=3, den=None, real=True)))
    J.append((streamhash, dict(comps=15, d=4, n=2, den=0.9, real=True)))
    J.append((streamhash, dict(comps=3, d=3, n=3, den=1.0, real=True, batch=True)))
    J.append((streamhash, dict(comps=1, d=3, n=3, den=None, real=True, batch=True)))
    for kind in 'gs':
        J.append((random, dict(kind=kind, comps=2, d=3, n=3)))
        J.append((random, dict(kind=kind, comps=1, d=2, n=2)))
        J.append((random, dict(kind=kind, comps=3, d=2, n=4, batch=True)))
        J.append((two, dict(kind=kind, d=2)))
    if not q:
        J.append((streamhash, dict(comps=2, d=3, n=2, den=None, real=False)))
        J.append((streamhash, dict(comps=40, d=20, n=2, den=None, real=True)))
        J.append((random, dict(kind='g', comps=2, d=3, n=5)))
    for c in sorted(set([40, 260] + mine(FILES, 5, 1100))):
        J.append((streamhash, dict(comps=c + 3, d=2, n=1, den=None, real=True)))
    for c in sorted(set([40] + mine(FILES, 5, 260))):
        J.append((streamhash, dict(comps=2, d=c + 3, n=2, den=None, real=True, symx=(1,))))
    for c in sorted(set([12] + mine(FILES, 3, 1100))):
        J.append((random, dict(kind='g', comps=2, d=2, n=c + 2, batch=True)))
        J.append((random, dict(kind='s', comps=2, d=2, n=c + 2)))
        J.append((streamhash, dict(comps=2, d=2, n=c + 2, den=None, real=True, symx=(c + 1,))))
    return J
