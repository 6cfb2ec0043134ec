"""C34 local outlier probabilities delegate to the LoOP model calibrated on the initial data."""
from harness.util import mine, series
FILES = ['pysad/models/loop.py']
NOTE = 'PyNomaly is a stand-in whose streaming result depends on the data, extent and neighbour count it was calibrated with and on the instance; the initial data, the parameters and the instances are symbolic'


def factory(ctx, log):
    class Stand:
        def __init__(self, data=None, distance_matrix=None, neighbor_matrix=None, extent=3, n_neighbors=10, cluster_labels=None, use_numba=False, progress_bar=False):
            self.data, self.extent, self.n_neighbors = data, extent, n_neighbors
            self.other = (distance_matrix, neighbor_matrix, cluster_labels)
            self.cal = None
            log.append(self)

        def fit(self):
            self.cal = ([list(r) for r in self.data], self.extent, self.n_neighbors)
            return self

        def stream(self, x):
            if self.cal is None:
                self.fit()
            return value(ctx, self.cal, list(x))
    return Stand


def value(ctx, cal, x):
    rows, ext, nn = cal
    s = ctx.real('base') + 100.0 * nn + 1000.0 * ext + 7.0 * len(rows)
    for i, r in enumerate(rows):
        s = s + (i + 1) * (r[0] + 2.0 * sum(r[1:]))
    return s + 5.0 * x[0] - 3.0 * sum(x[1:])


def run(ctx, r, d, n, how, symx=(0,), ks=3):
    log = []
    ctx.hook('PyNomaly.loop:LocalOutlierProbability', factory(ctx, log))
    con = series((r + n + 1) * d, 5)
    rows = [con[i * d:(i + 1) * d] for i in range(r + n)]
    rows[0][0] = ctx.real('i0')
    rows[r - 1][d - 1] = ctx.real('i1')
    for i in symx:
        rows[r + i][i % d] = ctx.real('x%d' % i)
    nn, ext = (1 + ctx.choice('nn', ks) if how else 10), (1 + ctx.choice('ext', 3) if how > 1 else 3)
    I = ctx.array(rows[:r], float)
    M = ctx.mod('pysad.models.loop').LocalOutlierProbability
    m = M(I) if how == 0 else M(I, nn) if how == 1 else M(initial_X=I, num_neighbors=nn, extent=ext)
    cal = ([list(v) for v in rows[:r]], ext, nn)
    ctx.eq(I, rows[:r], 'the initial data is left unmodified')

    def score(v, msg):
        X = ctx.array(v, float)
        e = value(ctx, cal, v)
        ctx.eq(m.score_partial(X), e, msg)
        ctx.eq(X, v, 'the instance is left unmodified')
    for i in range(n):
        v = rows[r + i]
        X = ctx.array(v, float)
        if ctx.flag('early%d' % i) if i < 2 else False:
            score(v, 'streaming local outlier probability before the instance is fitted')
        y = ctx.choice('y%d' % i, 2) if i < 2 else None
        ctx.check((m.fit_partial(X) if y is None else m.fit_partial(X, y)) is m, 'fit returns the model')
        ctx.eq(X, v, 'the instance is left unmodified')
        if n < 6 or i == n - 1:
            score(v, 'streaming local outlier probability whatever was fitted')
    q = con[-d:]
    q[0] = ctx.real('q')
    score(q, 'streaming local outlier probability of any instance')
    score(q, 'scoring changes nothing')


def near(ctx, r, d, gap):
    """instances that nearly coincide are still told apart"""
    log = []
    ctx.hook('PyNomaly.loop:LocalOutlierProbability', factory(ctx, log))
    con = series((r + 1) * d, 5)
    rows = [con[i * d:(i + 1) * d] for i in range(r)]
    m = ctx.mod('pysad.models.loop').LocalOutlierProbability(ctx.array(rows, float))
    cal = (rows, 3, 10)
    q = con[-d:]
    q[0] = ctx.real('q', -2, 2)
    for k in (0, 1, 0, 2):
        v = [q[0] + k * gap] + q[1:]
        e = value(ctx, cal, v)
        ctx.check(abs(ctx.scalar(m.score_partial(ctx.array(v, float))) - e) < gap, 'streaming local outlier probability of that very instance')


def jobs(tier):
    q = tier == 'quick'
    J = [(run, dict(r=3, d=2, n=3, how=h, symx=(0, 2))) for h in (0, 1, 2)]
    J.append((run, dict(r=1, d=1, n=2, how=2)))
    J.append((run, dict(r=12, d=3, n=30, how=1, symx=(0, 29), ks=30)))
    J += [(near, dict(r=3, d=d, gap=g)) for d in (1, 2) for g in (1e-3, 1e-7)]
    if not q:
        J.append((run, dict(r=40, d=2, n=130, how=2, symx=(0, 100, 129), ks=60)))
    for c in mine(FILES, 4, 1100):
        J.append((run, dict(r=c + 1, d=2, n=2, how=0)))
        J.append((run, dict(r=2, d=2, n=c + 1, how=1, symx=(c,))))
    return J
