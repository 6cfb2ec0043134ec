"""C04 model batch methods equal instance-by-instance streaming."""


def probe(ctx, log, scores, kind, base='pysad.core.base_model'):
    B = ctx.mod(base).BaseModel

    class Probe(B):
        def fit_partial(self, X, y=None):
            log.append(('fit', X, y))
            return self

        def score_partial(self, X):
            log.append(('score', X, None))
            i = sum(1 for e in log if e[0] == 'score') - 1
            s = scores[i]
            return s if kind == 'scalar' else ctx.array([s], float) if kind == 'array' else ctx.array(s, float)
    return Probe()


def expect(ctx, log, exp, msg):
    ctx.check(len(log) == len(exp), msg + ': number of per-instance calls')
    for (k, x, y), (ek, ex, ey) in zip(log, exp):
        ctx.check(k == ek, msg + ': order of fit and score')
        ctx.eq(x, ex, msg + ': instance handed over', shape=True)
        if ek == 'fit':
            if ey is None:
                ctx.check(y is None, msg + ': label is None without labels')
            else:
                ctx.check(y is not None, msg + ': label is handed over')
                ctx.eq(y, ey, msg + ': label of the same row')


def batch(ctx, op, nmax, d, labels, kind, npl=True):
    n = ctx.choice('n', nmax + 1)
    X = ctx.mat('X', n, d) if n else ctx.array([], float).reshape((0, d))
    X0 = X.copy()
    y = ctx.array([ctx.real('y%d' % i) for i in range(n)], float) if labels else None
    if labels and not npl:
        y = list(y)
    ylist = list(y) if labels else [None] * n
    scores = [ctx.real('s%d' % i) for i in range(n)]
    log = []
    m = probe(ctx, log, scores, kind)
    rows = [X0[i] for i in range(n)]
    if op == 'fit':
        r = m.fit(X, y) if labels else m.fit(X)
        ctx.check(r is m, 'fit returns the model')
        expect(ctx, log, [('fit', rows[i], ylist[i]) for i in range(n)], 'fit')
    elif op == 'score':
        r = m.score(X)
        expect(ctx, log, [('score', rows[i], None) for i in range(n)], 'score')
    elif op == 'fit_score':
        r = m.fit_score(X, y) if labels else m.fit_score(X)
        expect(ctx, log, [e for i in range(n) for e in (('fit', rows[i], ylist[i]), ('score', rows[i], None))], 'fit_score')
    if op != 'fit':
        ctx.check(r.shape == (n,), 'one score per row')
        ctx.check(r.dtype == ctx.np.float64, 'scores are a float array')
        ctx.eq(list(r), scores, 'scores are the unaltered per-instance scores')
    ctx.eq(X, X0, 'the batch is left unmodified')


def partial(ctx, d, labels, kind):
    x = ctx.vec('x', d)
    x0 = x.copy()
    y = ctx.real('y') if labels else None
    s = ctx.real('s')
    log = []
    m = probe(ctx, log, [s], kind)
    r = m.fit_score_partial(x, y) if labels else m.fit_score_partial(x)
    expect(ctx, log, [('fit', x0, y), ('score', x0, None)], 'fit_score_partial')
    ctx.eq(r, s, 'fit_score_partial returns the score')
    ctx.eq(x, x0, 'the instance is left unmodified')


def mixed(ctx, n1, n2, d):
    """several batch calls after each other on one model; repeated rows and negative/zero scores included"""
    X1, X2 = ctx.mat('A', n1, d), ctx.mat('B', n2, d)
    ya = ctx.array([ctx.int('ya%d' % i, 0, 1) for i in range(n1)], int)
    scores = [ctx.real('s%d' % i) for i in range(n1 + n2 + n2)]
    log = []
    m = probe(ctx, log, scores, 'scalar')
    r1 = m.fit_score(X1, ya)
    r2 = m.score(X2)
    m.fit(X2)
    r3 = m.fit_score(X2)
    exp = [e for i in range(n1) for e in (('fit', X1[i], ya[i]), ('score', X1[i], None))]
    exp += [('score', X2[i], None) for i in range(n2)] + [('fit', X2[i], None) for i in range(n2)]
    exp += [e for i in range(n2) for e in (('fit', X2[i], None), ('score', X2[i], None))]
    expect(ctx, log, exp, 'batch calls in sequence')
    ctx.eq(list(r1) + list(r2) + list(r3), scores, 'scores are the unaltered per-instance scores')


def large(ctx, n, op, labels):
    """larger batch; symbolic entries spread over it"""
    pos = {0, n // 2, n - 1}
    X = ctx.array([[ctx.real('x%d' % i) if i in pos else float(i % 5)] for i in range(n)], float)
    y = ctx.array([ctx.real('y%d' % i) if i in pos else float(i % 2) for i in range(n)], float) if labels else None
    scores = [ctx.real('s%d' % i) if i in pos else float(i) for i in range(n)]
    log = []
    m = probe(ctx, log, scores, 'scalar')
    if op == 'fit':
        m.fit(X, y)
        expect(ctx, log, [('fit', X[i], y[i] if labels else None) for i in range(n)], 'fit')
        return
    if op == 'score':
        r = m.score(X)
        expect(ctx, log, [('score', X[i], None) for i in range(n)], 'score')
    else:
        r = m.fit_score(X, y)
        expect(ctx, log, [e for i in range(n) for e in (('fit', X[i], y[i] if labels else None), ('score', X[i], None))], 'fit_score')
    ctx.eq(list(r), scores, 'scores are the unaltered per-instance scores')


def typed(ctx, op, n, dt, labels):
    """rows of another number type: the scores are still handed through unaltered, as double precision"""
    X = ctx.array([[ctx.int('x%d' % i, -9, 9) if i == n - 1 else i + j for j in range(2)] for i in range(n)], int).astype(dt)
    X0 = X.copy()
    y = ctx.array([i % 2 for i in range(n)], int) if labels else None
    scores = [ctx.real('s%d' % i) if i in (1, n - 1) else 0.1 * (i + 1) for i in range(n)]
    log = []
    m = probe(ctx, log, scores, 'scalar')
    if op == 'score':
        r = m.score(X)
        expect(ctx, log, [('score', X0[i], None) for i in range(n)], 'score')
    else:
        r = m.fit_score(X, y)
        expect(ctx, log, [e for i in range(n) for e in (('fit', X0[i], y[i] if labels else None), ('score', X0[i], None))], 'fit_score')
    ctx.check(r.dtype == ctx.np.float64, 'scores are a float array')
    ctx.eq(list(r), scores, 'scores are the unaltered per-instance scores', tol=1e-12)
    ctx.eq(X, X0, 'the batch is left unmodified')


def concrete_models(ctx, model, n):
    """library models: the batch results equal the per-instance results of a second instance"""
    M = ctx.mod('pysad.models.' + model[0])
    X = ctx.mat('X', n, 1)
    y = ctx.array([ctx.int('y%d' % i, 0, 1) for i in range(n)], int)
    mk = lambda: getattr(M, model[1])(**model[2])
    a, b, c = mk(), mk(), mk()
    ra = a.fit_score(X, y)
    rb = [b.fit_score_partial(X[i], y[i]) for i in range(n)]
    rc = []
    for i in range(n):
        c.fit_partial(X[i], y[i])
        rc.append(c.score_partial(X[i]))
    for i in range(n):
        ctx.eq(ra[i], rb[i], 'batch equals per-instance fit_score')
        ctx.eq(rb[i], rc[i], 'fit_score_partial equals fit_partial then score_partial')
    if model[0] not in ('perfect_model',):
        r2 = a.score(X)
        for i in range(n):
            ctx.eq(r2[i], b.score_partial(X[i]), 'batch score equals per-instance score')


MODELS = [('standard_absolute_deviation', 'StandardAbsoluteDeviation', {}), ('exact_storm', 'ExactStorm', dict(window_size=2, max_radius=0.5)),
          ('perfect_model', 'PerfectModel', {}), ('null_model', 'NullModel', {}), ('median_absolute_deviation', 'MedianAbsoluteDeviation', {})]


def jobs(tier):
    q = tier == 'quick'
    from harness.util import mine
    N = 3 if q else 5
    J = []
    for op in ('fit', 'score', 'fit_score'):
        for labels in ((False, True) if op != 'score' else (False,)):
            for kind in (('scalar', 'array', '0d') if op != 'fit' else ('scalar',)):
                J.append((batch, dict(op=op, nmax=N, d=2, labels=labels, kind=kind)))
            if labels:
                J.append((batch, dict(op=op, nmax=N, d=1, labels=labels, kind='scalar', npl=False)))
            for n in sorted(set([20] + [c + 1 for c in mine(['pysad/core/base_model.py', 'pysad/utils/__init__.py', 'pysad/utils/array_streamer.py'], 3, 2000)])):
                J.append((large, dict(n=n, op=op, labels=labels)))
    for labels in (False, True):
        for kind in ('scalar', 'array'):
            J.append((partial, dict(d=3, labels=labels, kind=kind)))
    for dt in ('int64', 'float32', 'int8', 'bool', 'uint8'):
        for op in ('score', 'fit_score'):
            J.append((typed, dict(op=op, n=3, dt=dt, labels=False)))
    J.append((typed, dict(op='fit_score', n=3, dt='int64', labels=True)))
    J.append((mixed, dict(n1=3, n2=2, d=2)))
    for m in MODELS:
        J.append((concrete_models, dict(model=m, n=2 if q else 3)))
    from harness import feeding
    J += feeding.jobs(("model",))
    return J
