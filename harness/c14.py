"""C14 seasonal-trend decomposition subtracts trailing trend and seasonal mean."""
from harness.util import mine, series
FILES = ['pysad/transform/preprocessing/seasonal_trend_decomposer.py']


class Oracle:
    def __init__(self, ctx, season, trend, d):
        self.c, self.L, self.W, self.d = ctx, season, trend, d
        self.xs = []

    def tr(self, xs, j):
        w = xs[-self.W:]
        return self.c.mean([x[j] for x in w]) if w else 0

    def seas(self, xs, phase, j):
        rec = []
        for i in range(len(xs)):
            if i + 1 >= self.W and i % self.L == phase:
                rec.append(xs[i][j] - self.tr(xs[:i + 1], j))
        return self.c.mean(rec) if rec else 0

    def fit_transform(self, x):
        ph = len(self.xs) % self.L
        self.xs.append(x)
        return [x[j] - self.tr(self.xs, j) - self.seas(self.xs, ph, j) for j in range(self.d)]

    def transform(self, x):
        ph = len(self.xs) % self.L
        return [x[j] - self.tr(self.xs, j) - self.seas(self.xs, ph, j) for j in range(self.d)]

    def fit(self, x):
        self.xs.append(x)


def stream(ctx, n, d, lmax, wmax, ops, default=False, sym=None):
    L = ctx.choice('season', lmax) + 1
    W = L if default else ctx.choice('trend', wmax) + 1
    P = ctx.mod('pysad.transform.preprocessing')
    m = P.SeasonalTrendDecomposer(L) if default else P.SeasonalTrendDecomposer(L, trend_window=W)
    o = Oracle(ctx, L, W, d)
    con = series(n * d)
    for i in range(n):
        x = ctx.vec('x%d' % i, d) if sym is None or i in sym else ctx.array(con[i * d:(i + 1) * d], float)
        x0 = list(x)
        op = ops if isinstance(ops, str) else ops[ctx.choice('op%d' % i, len(ops))]
        if op == 'b':
            ctx.eq(m.fit_transform_partial(x), o.fit_transform(x0), 'value minus trend minus seasonal mean', shape=True)
        elif op == 'f':
            ctx.check(m.fit_partial(x) is m, 'fit returns the transformer')
            o.fit(x0)
        else:
            z = ctx.vec('z%d' % i, d)
            ctx.eq(m.transform_partial(z), o.transform(list(z)), 'transform uses the fitted instances only', shape=True)
            m.fit_partial(x)
            o.fit(x0)
        ctx.eq(x, x0, 'the input is left unmodified')
    z = ctx.vec('q', d)
    ctx.eq(m.transform_partial(z), o.transform(list(z)), 'transform uses the fitted instances only', shape=True)
    ctx.eq(m.fit_transform_partial(z), o.fit_transform(list(z)), 'value minus trend minus seasonal mean', shape=True)


def long(ctx, n, L, W):
    P = ctx.mod('pysad.transform.preprocessing')
    m = P.SeasonalTrendDecomposer(L, trend_window=W)
    o = Oracle(ctx, L, W, 1)
    con = series(n)
    for i in range(n):
        x = ctx.vec('x%d' % i, 1) if i in (0, W, n - 2, n - 1) else ctx.array([con[i]], float)
        r = m.fit_transform_partial(x)
        if i >= n - 2:
            ctx.eq(r, o.fit_transform(list(x)), 'value minus trend minus seasonal mean', shape=True)
        else:
            o.fit(list(x))


def rejects(ctx):
    P = ctx.mod('pysad.transform.preprocessing')
    k = ctx.int('k', -3, 0).__index__()
    ctx.check(ctx.raises(lambda: P.SeasonalTrendDecomposer(k), ValueError), 'season length below 1 is rejected')
    ctx.check(ctx.raises(lambda: P.SeasonalTrendDecomposer(2, trend_window=k), ValueError), 'trend window below 1 is rejected')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for ops in ('b', 'f', 't'):
        J.append((stream, dict(n=7 if q else 10, d=1, lmax=3, wmax=4, ops=ops)))
        J.append((stream, dict(n=5 if q else 8, d=2, lmax=2, wmax=3, ops=ops)))
        J.append((stream, dict(n=6, d=1, lmax=4, wmax=1, ops=ops, default=True)))
    J.append((stream, dict(n=3 if q else 4, d=1, lmax=2, wmax=2 if q else 3, ops=['b', 'f', 't'])))
    J.append((stream, dict(n=5, d=1, lmax=2, wmax=2, ops=['b', 'f'])))
    J.append((stream, dict(n=6, d=9, lmax=2, wmax=2, ops='b', sym=(5,))))
    J.append((rejects, {}))
    for c in sorted(set([5] + mine(FILES, 3, 1100 if q else 4000))):
        for L, W in ((c, 3), (3, c), (c, c)):
            if c <= 64:
                J.append((long, dict(n=2 * max(L, W) + L + 3, L=L, W=W)))
        # enough instances that one phase of the season holds more than c values
        J.append((long, dict(n=c + 4, L=1, W=2)))
        J.append((long, dict(n=2 * c + 6, L=2, W=1)))
    return J
