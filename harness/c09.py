"""C09 score postprocessors report their declared statistic of past scores."""
from harness.util import mine, series
KINDS = {'Average': 'mean', 'Max': 'max', 'Median': 'median', 'ZScore': 'z'}
FILES = ['pysad/transform/postprocessing', 'pysad/statistics']


def expected(ctx, kind, vals, s, seen=None):
    if kind == 'Average':
        return ctx.mean(vals)
    if kind == 'Max':
        return ctx.max(vals)
    if kind == 'Median':
        return ctx.median(vals)
    v = ctx.pvar(vals)
    if ctx.concrete:
        # replays: only well-conditioned spreads, relative to every score seen so far
        ctx.assume(v > max(1e-24, 1e-6 * max(abs(a) for a in (seen or vals)) ** 2))
    else:
        ctx.assume(v > 0)
    return (s - ctx.mean(vals)) / ctx.sqrt(v)


def make(ctx, kind, running, w):
    P = ctx.mod('pysad.transform.postprocessing')
    return getattr(P, 'Running%sPostprocessor' % kind)(w) if running else getattr(P, '%sPostprocessor' % kind)()


def history(ctx, kind, running, n, wmax=0, nsym=99, calls='all'):
    """n fitted scores; after each the results of transform (of a fresh score) and fit_transform"""
    w = None
    if running:
        w = ctx.choice('w', wmax) + 1
    m = make(ctx, kind, running, w)
    con = series(n)
    vals = []
    for i in range(n):
        x = ctx.real('x%d' % i) if i < nsym else con[i]
        ft = calls == 'all' and ctx.flag('ft%d' % i)
        vals.append(x)
        cur = vals[-w:] if running else vals
        if kind == 'ZScore' and len(cur) == 1:
            ft = False      # no spread: the z-score is undefined
        if ft:
            e = expected(ctx, kind, cur, x, vals)
            r = m.fit_transform_partial(x)
        else:
            ctx.check(m.fit_partial(x) is m, 'fit returns the postprocessor')
        if calls == 'end' and i < n - 1:
            continue
        if kind == 'ZScore' and len(cur) == 1:
            continue
        if ft:
            ctx.eq(r, e, 'fit_transform reports the statistic of the fitted scores')
        elif calls == 'end' or i == n - 1 or ctx.flag('t%d' % i):
            s = ctx.real('s%d' % i)
            e = expected(ctx, kind, cur, s, vals)
            ctx.eq(m.transform_partial(s), e, 'transform reports the statistic of the fitted scores')
            ctx.eq(m.transform_partial(s), e, 'transforming changes nothing')


def batch(ctx, kind, running, n):
    w = 2
    X = ctx.vec('x', n)
    a, b = make(ctx, kind, running, w), make(ctx, kind, running, w)
    a.fit(X)
    cur = list(X)[-w:] if running else list(X)
    s = ctx.real('s')
    e = expected(ctx, kind, cur, s, list(X))
    ctx.eq(a.transform(ctx.array([s, s], float)), [e, e], 'batch transform reports the statistic of the fitted scores')


def long(ctx, kind, running, n, w):
    m = make(ctx, kind, running, w)
    con = series(n)
    pos = (n - 1, n - w) if kind != 'Median' else (n - 1,)
    vals = []
    for i in range(n):
        x = ctx.real('x%d' % i) if i in pos else con[i]
        m.fit_partial(x)
        vals.append(x)
    s = ctx.real('s')
    e = expected(ctx, kind, vals[-w:] if running else vals, s, vals)
    ctx.eq(m.transform_partial(s), e, 'transform reports the statistic of the fitted scores')


def spread(ctx, kind, running, scale, base, n):
    """concrete scores lying close together (multiples of a small power of two), symbolic query"""
    m = make(ctx, kind, running, 4)
    vals = [base + scale * ((i * 3) % 5) for i in range(n)]
    for x in vals:
        m.fit_partial(x)
    s = ctx.real('s')
    cur = vals[-4:] if running else vals
    e = expected(ctx, kind, cur, s, vals)
    ctx.eq(m.transform_partial(s), e, 'transform reports the statistic of the fitted scores')
    x = base + 2 * scale
    e = expected(ctx, kind, (vals + [x])[-4:] if running else vals + [x], x, vals)
    ctx.eq(m.fit_transform_partial(x), e, 'fit_transform reports the statistic of the fitted scores')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for k in KINDS:
        o = k in ('Max', 'Median')
        for run in (True, False):
            n = 3 if q else 4
            J.append((history, dict(kind=k, running=run, n=n, wmax=3)))
            J.append((history, dict(kind=k, running=run, n=4 if o else 5, wmax=3, calls='end')))
            J.append((history, dict(kind=k, running=run, n=5 if q else 6, wmax=4, nsym=2, calls='end')))
            if not q:
                J.append((history, dict(kind=k, running=run, n=5, wmax=4, nsym=2)))
            for e in (2, 5, 8, 11, 14, 20):
                J.append((spread, dict(kind=k, running=run, scale=2.0 ** -e, base=0.0, n=7)))
            J.append((spread, dict(kind=k, running=run, scale=2.0 ** -6, base=0.5, n=7)))
            J.append((spread, dict(kind=k, running=run, scale=2.0 ** 40, base=2.0 ** 41, n=7)))
            J.append((batch, dict(kind=k, running=run, n=3)))
            for c in sorted(set([6] + mine(FILES, 3, 1100 if q else 4000))):
                if c <= 150:
                    J.append((long, dict(kind=k, running=run, n=2 * c + 2, w=c)))
                J.append((long, dict(kind=k, running=run, n=c + 4, w=3)))
    return J
