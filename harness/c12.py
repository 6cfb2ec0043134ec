"""C12 score ensemblers compute the declared combination of detector scores."""
import itertools
from harness.util import mine
FILES = ['pysad/transform/ensemble/ensemblers.py', 'pysad/core/base_postprocessor.py']
NOTE = 'shuffles of the bucketed ensemblers are symbolic; the real combination functions of combo/pyod are executed from their source'


def ens(ctx, kind, **k):
    E = ctx.mod('pysad.transform.ensemble')
    return getattr(E, {'avg': 'AverageScoreEnsembler', 'max': 'MaximumScoreEnsembler', 'med': 'MedianScoreEnsembler',
                       'aom': 'AverageOfMaximumScoreEnsembler', 'moa': 'MaximumOfAverageScoreEnsembler'}[kind])(**k)


def same_args(ctx, x, x0):
    ctx.eq(x, x0, 'the scores handed in are left unmodified')


def simple(ctx, kind, nmax, weights, prefit):
    n = ctx.choice('n', nmax) + 1
    x = ctx.vec('x', n)
    x0 = x.copy()
    k = {}
    if weights:
        w = [ctx.real('w%d' % i, 0) for i in range(n)]
        ctx.assume(ctx.sum(w) > (1e-3 if ctx.concrete else 0))
        k['estimator_weights'] = ctx.array([w], float)
    m = ens(ctx, kind, **k)
    l = list(x)
    if kind == 'max':
        e = ctx.max(l)
    elif kind == 'med':
        e = ctx.median(l)
    elif weights:
        e = ctx.sum([a * b for a, b in zip(w, l)]) / ctx.sum(w)
    else:
        e = ctx.mean(l)
    for p in range(prefit):
        z = ctx.vec('z%d' % p, n)
        if p % 2:
            m.fit_transform_partial(z)
        else:
            ctx.check(m.fit_partial(z) is m, 'fitting returns the ensembler')
    ctx.eq(m.transform_partial(x), e, 'declared combination of the scores')
    same_args(ctx, x, x0)
    ctx.eq(m.fit_transform_partial(x), e, 'fitting has no effect')
    same_args(ctx, x, x0)


def many(ctx, kind, n, weights, pos):
    """many detectors, one score symbolic"""
    x = [((i * 7 + 3) % 19) * 0.5 - 3.0 for i in range(n)]
    x[pos % n] = ctx.real('x')
    k, w = {}, [1.0] * n
    if weights:
        w = [((i * 5) % 7) * 0.25 + (i % 3 == 0) for i in range(n)]
        k['estimator_weights'] = ctx.array([w], float)
    m = ens(ctx, kind, **k)
    if kind == 'max':
        e = ctx.max(x)
    elif kind == 'med':
        e = ctx.median(x)
    else:
        e = ctx.sum([a * b for a, b in zip(w, x)]) / sum(w)
    X = ctx.array(x, float)
    ctx.eq(m.transform_partial(X), e, 'declared combination of the scores')
    same_args(ctx, X, x)
    ctx.eq(m.fit_transform_partial(X), e, 'fitting has no effect')


def history(ctx, kind, n, k):
    """a long history of fitted rows has no effect"""
    m = ens(ctx, kind)
    for i in range(k):
        m.fit_partial(ctx.array([float((i * 3 + j) % 5) for j in range(n)], float))
        if i % 3 == 0:
            m.fit_transform_partial(ctx.array([float((i + j) % 4) for j in range(n)], float))
    x = ctx.vec('x', n)
    f = {'avg': ctx.mean, 'max': ctx.max, 'med': ctx.median}[kind]
    ctx.eq(m.transform_partial(x), f(list(x)), 'fitting has no effect')


def batch(ctx, kind, n, rows):
    X = ctx.mat('x', rows, n)
    m = ens(ctx, kind)
    f = {'avg': ctx.mean, 'max': ctx.max, 'med': ctx.median}[kind]
    e = [f(list(X[i])) for i in range(rows)]
    ctx.eq(m.transform(X), e, 'batch result is the combination of every row')
    ctx.eq(m.fit_transform(X), e, 'batch fit_transform is the combination of every row')


def partitions(n, b):
    """all partitions of range(n) into b buckets of equal size"""
    size = n // b

    def rec(rest, k):
        if k == 0:
            yield ()
            return
        f = rest[0]
        for c in itertools.combinations(rest[1:], size - 1):
            g = (f,) + c
            for t in rec([r for r in rest if r not in g], k - 1):
                yield (g,) + t
    return list(rec(list(range(n)), b))


def draws(ctx):
    p = ctx.draws_sym()
    if ctx.concrete:
        ctx.hook('combo.models.score_comb:shuffle', lambda l, random_state=None, **k: [l[i] for i in p.perm(len(l))])


def value(ctx, kind, x, parts):
    if kind == 'aom':
        return ctx.mean([ctx.max([x[i] for i in g]) for g in parts])
    return ctx.max([ctx.mean([x[i] for i in g]) for g in parts])


def among(ctx, r, vals, msg):
    r = ctx.scalar(r)
    ctx.check(ctx.either(*[ctx.both(v - r <= 1e-6, r - v <= 1e-6) if ctx.concrete else v == r for v in vals]), msg)


def bucketed(ctx, kind, n, b, default=False, prefit=0):
    draws(ctx)
    x = ctx.vec('x', n)
    x0 = x.copy()
    m = ens(ctx, kind) if default else ens(ctx, kind, n_buckets=b)
    for p in range(prefit):
        m.fit_partial(ctx.vec('z%d' % p, n))
    r = m.transform_partial(x)
    among(ctx, r, [value(ctx, kind, list(x0), p) for p in partitions(n, b)], 'combination over an equal-size partition')
    same_args(ctx, x, x0)


def larger(ctx, kind, n, b, seed):
    """more buckets than two: real shuffles, scores concrete but for one"""
    ctx.seed(seed)
    x = [(3.0 + seed) * (i * i % 7) + 0.5 * i for i in range(n)]
    x[seed % n] = ctx.real('x')
    r = ens(ctx, kind, n_buckets=b).transform_partial(ctx.array(x, float))
    among(ctx, r, [value(ctx, kind, x, p) for p in partitions(n, b)], 'combination over an equal-size partition')


def extremes(ctx, kind, n, b):
    """result lies between the smallest and the largest score, any shuffle"""
    draws(ctx)
    x = ctx.vec('x', n)
    r = ens(ctx, kind, n_buckets=b).transform_partial(x)
    ctx.le(r, ctx.max(list(x)), 'at most the largest score')
    ctx.le(ctx.min(list(x)), r, 'at least the smallest score')
    if b == n and kind == 'aom':
        ctx.eq(r, ctx.mean(list(x)), 'one detector per bucket: average')
    if b == n and kind == 'moa':
        ctx.eq(r, ctx.max(list(x)), 'one detector per bucket: maximum')


def options(ctx, kind, method, boot, seed):
    """bucket sizes of the other documented modes"""
    ctx.seed(seed)
    n, b = 6, 2
    x = ctx.vec('x', n)
    m = ens(ctx, kind, n_buckets=b, method=method, bootstrap_estimators=boot)
    size = 2 if method == 'dynamic' else 3     # dynamic: at least 2 and fewer than n/2
    subs = list(itertools.combinations(range(n), size))
    r = m.transform_partial(x)
    l = list(x)
    among(ctx, r, [value(ctx, kind, l, (g, h)) for i, g in enumerate(subs) for h in subs[i:]], 'combination over buckets of the documented size')


def bootstrap(ctx, kind):
    """with replacement: buckets overlap for some draw"""
    a = ctx.real('a', 1, 9)
    x = ctx.array([a * v for v in (1, 2, 4, 8)], float)
    m = ens(ctx, kind, n_buckets=2, bootstrap_estimators=True)
    vals = [value(ctx, kind, list(x), p) for p in partitions(4, 2)]
    out = []
    for s in range(16):
        ctx.seed(s)
        r = ctx.scalar(m.transform_partial(x))
        out.append(ctx.no(ctx.either(*[ctx.both(v - r <= 1e-6, r - v <= 1e-6) for v in vals])))
    ctx.check(ctx.either(*out), 'estimators are drawn with replacement')


def dynamic(ctx, kind):
    """random bucket sizes: some draw is no equal-size partition"""
    a = ctx.real('a', 1, 9)
    x = ctx.array([a * v for v in (1, 2, 4, 8, 16, 32)], float)
    m = ens(ctx, kind, n_buckets=2, method='dynamic')
    vals = [value(ctx, kind, list(x), p) for p in partitions(6, 2)]
    out = []
    for s in range(16):
        ctx.seed(s)
        r = ctx.scalar(m.transform_partial(x))
        out.append(ctx.no(ctx.either(*[ctx.both(v - r <= 1e-6, r - v <= 1e-6) for v in vals])))
    ctx.check(ctx.either(*out), 'subgroups of the dynamic size are drawn')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for k in ('avg', 'max', 'med'):
        J.append((simple, dict(kind=k, nmax=4 if q else 5, weights=False, prefit=2)))
        J.append((batch, dict(kind=k, n=2, rows=2)))
        for n in sorted(set([7, 10, 33] + [c + 1 for c in mine(FILES, 3, 300)])):
            J.append((many, dict(kind=k, n=n, weights=False, pos=n // 2)))
            J.append((many, dict(kind=k, n=n - 1, weights=k == 'avg', pos=n - 2)))
        for n in sorted(set([12] + [c + 1 for c in mine(FILES, 3, 1100)])):
            J.append((history, dict(kind=k, n=3, k=n)))
    J.append((simple, dict(kind='avg', nmax=4, weights=True, prefit=1)))
    for k in ('aom', 'moa'):
        for n, b in ((2, 2), (3, 3), (4, 2), (4, 4)):
            J.append((bucketed, dict(kind=k, n=n, b=b, prefit=1 if n == 2 else 0)))
            J.append((extremes, dict(kind=k, n=n, b=b)))
        J.append((bucketed, dict(kind=k, n=5, b=5, default=True), dict(max_paths=150)))
        if not q:
            J.append((bucketed, dict(kind=k, n=6, b=2), dict(max_paths=300)))
            J.append((bucketed, dict(kind=k, n=6, b=3), dict(max_paths=300)))
        for s in range(1 if q else 4):
            J.append((options, dict(kind=k, method='static', boot=True, seed=s)))
            J.append((options, dict(kind=k, method='dynamic', boot=False, seed=s)))
        for n, b in ((6, 3), (6, 2), (8, 2), (8, 4)):
            for s in range(2 if q else 6):
                J.append((larger, dict(kind=k, n=n, b=b, seed=s)))
        J.append((bootstrap, dict(kind=k)))
        J.append((dynamic, dict(kind=k)))
    return J
