"""C05 transformer and postprocessor batch methods equal per-instance streaming."""
from harness.util import mine
FILES = ['pysad/core/base_transformer.py', 'pysad/core/base_postprocessor.py', 'pysad/utils/__init__.py', 'pysad/utils/array_streamer.py']


def tprobe(ctx, log, results, dims):
    B = ctx.mod('pysad.core.base_transformer').BaseTransformer

    class Probe(B):
        def fit_partial(self, X):
            log.append(('fit', X))
            return self

        def transform_partial(self, X):
            log.append(('transform', X))
            return results[sum(1 for e in log if e[0] == 'transform') - 1]
    return Probe(dims)


def pprobe(ctx, log, results):
    B = ctx.mod('pysad.core.base_postprocessor').BasePostprocessor

    class Probe(B):
        def fit_partial(self, X):
            log.append(('fit', X))
            return self

        def transform_partial(self, X):
            log.append(('transform', X))
            return results[sum(1 for e in log if e[0] == 'transform') - 1]
    return Probe()


def expect(ctx, log, exp, msg):
    ctx.check(len(log) == len(exp), msg + ': number of per-instance calls')
    for (k, x), (ek, ex) in zip(log, exp):
        ctx.check(k == ek, msg + ': order of per-instance calls')
        ctx.check(not isinstance(x, tuple), msg + ': the row itself is passed')
        ctx.eq(x, ex, msg + ': row handed over', shape=True)


def calls(op, rows):
    if op == 'fit':
        return [('fit', r) for r in rows]
    if op == 'transform':
        return [('transform', r) for r in rows]
    return [e for r in rows for e in (('fit', r), ('transform', r))]


def transformer(ctx, op, n, d, dims, scalar=False, nsym=99):
    """dims -1: width of the input"""
    X = ctx.array([[ctx.real('x%d_%d' % (i, j)) if i < nsym or i == n - 1 else float(i + j) for j in range(d)] for i in range(n)], float).reshape((n, d))
    X0 = X.copy()
    k = dims if dims > 0 else d
    res = [ctx.vec('r%d' % i, k) if i < nsym or i == n - 1 else ctx.array([float(i)] * k, float) for i in range(n)]
    out = [r[0] for r in res] if scalar else res
    log = []
    m = tprobe(ctx, log, out, dims)
    r = getattr(m, op)(X)
    expect(ctx, log, calls(op, [X0[i] for i in range(n)]), op)
    if op == 'fit':
        ctx.check(r is m, 'fit returns the transformer')
    else:
        ctx.check(tuple(r.shape) == (n, k), 'one output row per input row, of the declared width')
        ctx.check(r.dtype == ctx.np.float64, 'output is a float array')
        for i in range(n):
            ctx.eq(r[i], [res[i][0]] * k if scalar else res[i], 'rows are the unaltered per-instance transforms', shape=True)
    ctx.eq(X, X0, 'the batch is left unmodified')


def typed(ctx, op, n, dt, post):
    """input of another number type: results are still handed through unaltered, as double precision"""
    X = ctx.array([[ctx.int('x%d' % i, -9, 9) if i == n - 1 else i + j for j in range(2)] for i in range(n)], int).astype(dt)
    if post:
        X = X[:, 0]
    X0 = X.copy()
    res = [[ctx.real('r%d' % i) if i == 1 else 0.1 * (i + 1), 0.7] for i in range(n)]
    log = []
    m = pprobe(ctx, log, [r[0] for r in res]) if post else tprobe(ctx, log, [ctx.array(r, float) for r in res], -1)
    r = getattr(m, op)(X)
    expect(ctx, log, calls(op, [X0[i] for i in range(n)]), op)
    ctx.check(r.dtype == ctx.np.float64, 'output is a float array')
    for i in range(n):
        ctx.eq(r[i], res[i][0] if post else res[i], 'outputs are the unaltered per-instance transforms', tol=1e-12)
    ctx.eq(X, X0, 'the batch is left unmodified')


def transformer_partial(ctx, d):
    x = ctx.vec('x', d)
    x0 = x.copy()
    res = ctx.vec('r', 2)
    log = []
    m = tprobe(ctx, log, [res], 2)
    r = m.fit_transform_partial(x)
    expect(ctx, log, calls('fit_transform', [x0]), 'fit_transform_partial')
    ctx.eq(r, res, 'fit_transform_partial returns the transform')
    ctx.eq(x, x0, 'the instance is left unmodified')


def postprocessor(ctx, op, n, kind, d=0, nsym=99):
    """scores: vector (d = 0) or matrix for ensemblers"""
    sy = lambda i: i < nsym or i == n - 1
    if d:
        S = ctx.array([[ctx.real('x%d_%d' % (i, j)) if sy(i) else float(i) for j in range(d)] for i in range(n)], float).reshape((n, d))
    else:
        S = ctx.array([ctx.real('x%d' % i) if sy(i) else float(i) for i in range(n)], float)
    S0 = S.copy()
    vals = [ctx.real('r%d' % i) if sy(i) else float(2 * i) for i in range(n)]
    out = vals if kind == 'scalar' else [ctx.array([v], float) for v in vals]
    log = []
    m = pprobe(ctx, log, out)
    r = getattr(m, op)(S)
    expect(ctx, log, calls(op, [S0[i] for i in range(n)]), op)
    if op == 'fit':
        ctx.check(r is m, 'fit returns the postprocessor')
    else:
        ctx.check(tuple(r.shape) == (n,), 'one output per score')
        ctx.check(r.dtype == ctx.np.float64, 'output is a float array')
        ctx.eq(list(r), vals, 'outputs are the unaltered per-instance transforms')
    ctx.eq(S, S0, 'the scores are left unmodified')


def post_partial(ctx):
    s, v = ctx.real('s'), ctx.real('v')
    log = []
    m = pprobe(ctx, log, [v])
    r = m.fit_transform_partial(s)
    expect(ctx, log, calls('fit_transform', [s]), 'fit_transform_partial')
    ctx.eq(r, v, 'fit_transform_partial returns the transform')


def library(ctx, which, n, d):
    """library classes: batch equals per-instance on a second instance"""
    P = {'unit': lambda: ctx.mod('pysad.transform.preprocessing').InstanceUnitNormScaler(1),
         'identity': lambda: ctx.mod('pysad.transform.preprocessing').IdentityScaler(),
         'std': lambda: ctx.mod('pysad.transform.preprocessing').SeasonalTrendDecomposer(2),
         'runavg': lambda: ctx.mod('pysad.transform.postprocessing').RunningAveragePostprocessor(2),
         'avg': lambda: ctx.mod('pysad.transform.postprocessing').AveragePostprocessor(),
         'conf': lambda: ctx.mod('pysad.transform.probability_calibration').ConformalProbabilityCalibrator(window_size=2),
         'avgens': lambda: ctx.mod('pysad.transform.ensemble').AverageScoreEnsembler()}[which]
    post = which in ('runavg', 'avg', 'conf')
    X = ctx.array([ctx.real('x%d' % i, 1, 50) for i in range(n)], float) if post else ctx.mat('x', n, d, 1, 50)
    a, b, c, e = P(), P(), P(), P()
    ra = a.fit_transform(X)
    rb = [b.fit_transform_partial(X[i]) for i in range(n)]
    for i in range(n):
        ctx.eq(ra[i], rb[i], 'fit_transform equals per-instance fit_transform')
    c.fit(X)
    for i in range(n):
        e.fit_partial(X[i])
    rc = c.transform(X)
    for i in range(n):
        ctx.eq(rc[i], e.transform_partial(X[i]), 'fit then transform equals per-instance calls')
        ctx.eq(c.transform_partial(X[i]), e.transform_partial(X[i]), 'state after batch fit equals state after per-instance fits')


def jobs(tier):
    q = tier == 'quick'
    J = []
    N = (0, 1, 3) if q else (0, 1, 2, 4, 6)
    big = sorted(set([20] + [c + 1 for c in mine(FILES, 3, 2000)]))
    for op in ('fit', 'transform', 'fit_transform'):
        for n in N:
            for dims in (-1, 1, 3):
                J.append((transformer, dict(op=op, n=n, d=2, dims=dims)))
        J.append((transformer, dict(op=op, n=2, d=1, dims=-1, scalar=True)))
        J.append((transformer, dict(op=op, n=2, d=3, dims=1, scalar=True)))
        for n in N:
            for kind in ('scalar', 'array'):
                J.append((postprocessor, dict(op=op, n=n, kind=kind)))
        J.append((postprocessor, dict(op=op, n=3, kind='array', d=3)))
        for b in big:
            J.append((transformer, dict(op=op, n=b, d=2, dims=-1, nsym=2)))
            J.append((postprocessor, dict(op=op, n=b, kind='scalar', nsym=2)))
    for dt in ('int64', 'float32', 'int8', 'bool', 'uint8'):
        for op in ('transform', 'fit_transform'):
            for post in (False, True):
                J.append((typed, dict(op=op, n=3, dt=dt, post=post)))
    J.append((transformer_partial, dict(d=2)))
    J.append((post_partial, {}))
    for w in ('unit', 'identity', 'std', 'runavg', 'avg', 'conf', 'avgens'):
        J.append((library, dict(which=w, n=3, d=2)))
    from harness import feeding
    J += feeding.jobs(("trans", "post", "ens"))
    return J
