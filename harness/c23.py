"""C23 one-fit, perfect, null and random baseline models keep their contract."""
from harness.util import mine, series
from harness.c22 import Log
FILES = ['pysad/models/integrations/one_fit_model.py', 'pysad/models/perfect_model.py', 'pysad/models/null_model.py', 'pysad/models/random_model.py', 'pysad/core/base_model.py']
NOTE = 'the wrapped detector of the one-fit model is a recording stand-in with a symbolic decision function'


def onefit(ctx, d, n0, n, symx, perturb=False):
    log = Log(ctx)
    labels = ctx.flag('labels')
    kw = dict(contamination=0.125, n_neighbors=7) if ctx.flag('kw') else {}
    con = series((n0 + n) * d, 1)
    rows = [con[i * d:(i + 1) * d] for i in range(n0 + n)]
    for i in symx:
        rows[i][i % d] = ctx.real('x%d' % i)
    lab = [ctx.int('y%d' % i, 0, 1) if i in symx else i % 2 for i in range(n0)] if labels else None
    M = ctx.mod('pysad.models.integrations.one_fit_model').OneFitModel
    X0 = ctx.array(rows[:n0], float)
    a = (ctx.array(lab, int),) if labels else ()
    m = M(log.cls(), X0, *a, **kw)
    for i in range(n0, n0 + n):
        X = ctx.array(rows[i], float)
        yk = ctx.choice('yk%d' % i, 2) if i < n0 + 2 else 0
        r = m.fit_partial(X, 1) if yk else m.fit_partial(X)
        ctx.check(r is m, 'fit returns the model')
        if i >= n0 + n - 3 or i == n0:
            r = ctx.scalar(m.score_partial(X))
            u = log.used
            ctx.check(len(log.fits) == 1 and u.n == 1, 'trained exactly once')
            ctx.eq(u.train[0], rows[:n0], 'trained on the initial data')
            if labels:
                ctx.check(u.train[1] is not None, 'labels are used')
                ctx.eq(u.train[1], lab, 'labels are used')
            else:
                ctx.check(u.train[1] is None, 'no labels invented')
            ctx.check(u.kw == kw, 'keyword arguments')
            ctx.eq(u.asked, [rows[i]], 'the instance itself is scored')
            ctx.eq(r, log.score(0, rows[i]), 'decision function of the trained model')
        ctx.eq(X, rows[i], 'the instance is left unmodified')
    ctx.eq(X0, rows[:n0], 'the initial data is left unmodified')


def perfect(ctx, ops, symall=True):
    """symbolic interleaving of fits, rejected fits and scores"""
    m = ctx.mod('pysad.models.perfect_model').PerfectModel()
    q = []
    for i in range(ops):
        k = ctx.choice('op%d' % i, 3 if q else 2)
        X = ctx.array([ctx.real('x%d' % i), 1.0], float)
        if k == 0:
            y = ctx.real('y%d' % i)
            ctx.check(m.fit_partial(X, y) is m, 'fit returns the model')
            q.append(y)
        elif k == 1:
            ctx.check(ctx.raises(lambda: m.fit_partial(X, None), ValueError), 'a missing label is rejected')
        else:
            ctx.eq(m.score_partial(X), q.pop(0), 'labels first-in first-out')
    while q:
        ctx.eq(m.score_partial(None), q.pop(0), 'labels first-in first-out')


def perfect_long(ctx, n, lag):
    m = ctx.mod('pysad.models.perfect_model').PerfectModel()
    ys = [ctx.int('y%d' % i, 0, 1) if i in (0, lag, n - 1) else i % 2 for i in range(n)]
    out = []
    for i, y in enumerate(ys):
        m.fit_partial(ctx.array([1.0 * i], float), y)
        if i >= lag:
            out.append(m.score_partial(ctx.array([0.0], float)))
    for i in range(lag):
        out.append(m.score_partial(ctx.array([0.0], float)))
    for a, b in zip(out, ys):
        ctx.eq(a, b, 'labels first-in first-out')


def perfect_batch(ctx, n, d):
    m = ctx.mod('pysad.models.perfect_model').PerfectModel()
    X = ctx.mat('x', n, d)
    y = [ctx.int('y%d' % i, -1, 2) for i in range(n)]
    ctx.eq(m.fit_score(X, ctx.array(y, float)), y, 'the perfect model returns the labels', shape=True)
    ctx.check(ctx.raises(lambda: m.fit(X), Exception), 'a missing label is rejected')


def null(ctx, ops, d):
    m = ctx.mod('pysad.models.null_model').NullModel()
    for i in range(ops):
        k = ctx.choice('op%d' % i, 3)
        X = ctx.array([ctx.real('x%d_%d' % (i, j)) for j in range(d)], float)
        if k == 0:
            r = m.fit_partial(X)
            ctx.check(r is m, 'fit returns the model')
        elif k == 1:
            r = m.fit_partial(X, ctx.int('y%d' % i, 0, 1))
            ctx.check(r is m, 'fit returns the model')
        else:
            ctx.eq(m.score_partial(X), 0.5, 'always 0.5')
    ctx.eq(m.score_partial(ctx.array([ctx.real('z')], float)), 0.5, 'always 0.5')


def rand(ctx, ops):
    p = ctx.draws_sym()
    m = ctx.mod('pysad.models.random_model').RandomModel()
    used = 0
    got = []
    for i in range(ops):
        X = ctx.array([ctx.real('x%d' % i)], float)
        if ctx.flag('fit%d' % i):
            y = ctx.int('y%d' % i, 0, 1) if ctx.flag('lab%d' % i) else None
            ctx.check(m.fit_partial(X, y) is m, 'fit returns the model')
        else:
            before = p.n
            r = ctx.scalar(m.score_partial(X))
            got.append((before, r))
            used += 1
            ctx.check(ctx.both(r >= 0, r < 1), 'scores lie in [0, 1)')
            ctx.check(p.n == before + 1, 'one draw per score')
            ctx.eq(r, p.log[-1][1], 'the next uniform draw')
        ctx.check(p.n == used, 'fitting draws nothing')


def rand_seed(ctx, s, n):
    """after seeding, the scores are the uniform stream of the numpy generator whatever the features are"""
    import numpy as np
    m = ctx.mod('pysad.models.random_model').RandomModel()
    rs = np.random.RandomState(s)
    e = rs.uniform(size=n)
    ctx.seed(s)
    for i in range(n):
        X = ctx.array([ctx.real('x%d' % i)], float)
        m.fit_partial(X)
        ctx.eq(m.score_partial(X), float(e[i]), 'the seedable numpy stream', tol=0.0)


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append((onefit, dict(d=2, n0=3, n=3, symx=(1, 4))))
    J.append((onefit, dict(d=1, n0=1, n=2, symx=(0, 2))))
    J.append((onefit, dict(d=2, n0=2, n=60, symx=(0, 61))))
    J.append((perfect, dict(ops=5 if q else 7)))
    J.append((perfect_batch, dict(n=3, d=2)))
    J.append((null, dict(ops=4 if q else 6, d=2)))
    J.append((rand, dict(ops=4 if q else 5)))
    J.append((rand_seed, dict(s=61, n=4)))
    J.append((rand_seed, dict(s=0, n=4)))
    for c in sorted(set([12] + mine(FILES, 3, 1100))):
        J.append((perfect_long, dict(n=2 * c + 3, lag=c)))
        J.append((perfect_long, dict(n=c + 1, lag=0)))
        J.append((onefit, dict(d=1, n0=2, n=c + 2, symx=(0, c + 3))))
    return J
