"""C17 deviation models score the standardised distance from the running centre."""
from harness.util import mine, series, absv
FILES = ['pysad/models/standard_absolute_deviation.py', 'pysad/models/median_absolute_deviation.py', 'pysad/statistics']
TINY = 1e-10


def make(ctx, kind, absolute, b=None):
    k = {} if absolute is None else dict(absolute=absolute)
    if kind == 'mad':
        if b is not None:
            k['b'] = b
        return ctx.mod('pysad.models.median_absolute_deviation').MedianAbsoluteDeviation(**k)
    if kind != 'default':
        k['substracted_statistic'] = kind
    return ctx.mod('pysad.models.standard_absolute_deviation').StandardAbsoluteDeviation(**k)


def expect(ctx, kind, absolute, b, vals, devs, x):
    """-> numerator, denominator"""
    if kind == 'mad':
        c = ctx.median(vals)
        den = (1.4826 if b is None else b) * ctx.median(devs) + TINY
    else:
        c = ctx.median(vals) if kind == 'median' else ctx.mean(vals)
        v = ctx.pvar(vals)
        if ctx.concrete:
            ctx.assume(v > 1e-6 or all(w == vals[0] for w in vals))
            if all(w == vals[0] for w in vals):
                v = 0.0
        den = ctx.sqrt(v) + TINY
    return c, den


def check(ctx, m, kind, absolute, b, vals, devs, x):
    X = ctx.array([x], float)
    r = ctx.scalar(m.score_partial(X))
    ctx.check(ctx.isfinite(r), 'scores are finite')
    c, den = expect(ctx, kind, absolute, b, vals, devs, x)
    if kind != 'mad' and len(set(map(id, vals))) > 1 and ctx.concrete and all(w == vals[0] for w in vals):
        pass                       # constant history: the deviation is rounding noise
    elif not ctx.concrete or den > 1e-6 or x == c:
        e = (x - c) / den
        if absolute in (True, None):
            e = absv(ctx, e)
        ctx.eq(r, e, 'standardised distance from the centre', tol=1e-5)
    ctx.eq(X, [x], 'the instance is left unmodified')


def history(ctx, kind, absolute, b, n, every):
    if b == 'sym':
        b = ctx.real('b', 0.25, 4)
    m = make(ctx, kind, absolute, b)
    vals, devs = [], []
    for i in range(n):
        x = ctx.real('x%d' % i)
        ctx.check(m.fit_partial(ctx.array([x], float)) is m, 'fit returns the model')
        vals.append(x)
        if kind == 'mad':
            devs.append(absv(ctx, x - ctx.median(vals)))
        if every and i < n - 1:
            check(ctx, m, kind, absolute, b, vals, devs, ctx.real('q%d' % i))
    check(ctx, m, kind, absolute, b, vals, devs, ctx.real('q'))
    check(ctx, m, kind, absolute, b, vals, devs, vals[-1])


def long(ctx, kind, absolute, n):
    m = make(ctx, kind, absolute)
    con = series(n)
    vals, devs = [], []
    for i in range(n):
        x = ctx.real('x%d' % i) if i == n - 1 or (i == n - 2 and kind != 'mad') else con[i]
        m.fit_partial(ctx.array([x], float))
        vals.append(x)
        if kind == 'mad':
            devs.append(absv(ctx, x - ctx.median(vals)))
    check(ctx, m, kind, absolute, None, vals, devs, ctx.real('q'))


AWK = [0.1, 0.7, 1 / 3, 1e8 + 0.1, 123456.789, -2.3e-5, 0.0, 1e-160, 3.3e11]


def rounding(ctx, kind, n):
    """constant histories of numbers with rounding error: floating-point execution, one path per value"""
    c = AWK[ctx.choice('c', len(AWK))]
    m = make(ctx, kind, None)
    for i in range(n):
        m.fit_partial(ctx.array([c], float))
        r = ctx.scalar(m.score_partial(ctx.array([c], float)))
        ctx.check(ctx.isfinite(r), 'scores are finite')
        r = ctx.scalar(m.score_partial(ctx.array([c + 1.0], float)))
        ctx.check(ctx.isfinite(r), 'scores are finite')


def rejects(ctx):
    M = ctx.mod('pysad.models.standard_absolute_deviation').StandardAbsoluteDeviation
    for s in ('mode', 'Mean', ''):
        ctx.check(ctx.raises(lambda: M(substracted_statistic=s), ValueError), 'unknown centre is rejected')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for kind in ('default', 'mean', 'median', 'mad'):
        for ab in (None, True, False):
            med = kind in ('median', 'mad')
            b = None if kind != 'mad' or ab is None else 'sym' if ab else 2.5
            J.append((history, dict(kind=kind, absolute=ab, b=b, n=(2 if kind == 'mad' else 3) if med and q else 3 if q else 4, every=not med or not q)))
            if ab is None or not q:
                J.append((history, dict(kind=kind, absolute=ab, b=b, n=3 if med else 5, every=False)))
            for c in sorted(set([6] + mine(FILES, 4, 1100 if q else 4000))):
                J.append((long, dict(kind=kind, absolute=ab, n=c + 2)))
        J.append((rounding, dict(kind=kind, n=12)))
    J.append((rejects, {}))
    return J
