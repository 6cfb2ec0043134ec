"""C18 Exact-STORM scores the fraction of close neighbours in its window."""
from harness.util import mine, series


def dist2(ctx, a, b):
    return ctx.sum([(x - y) * (x - y) for x, y in zip(a, b)])


def near(ctx, a, b, r):
    if len(a) == 1:
        d = a[0] - b[0]
        if ctx.concrete:
            ctx.assume(abs(abs(d) - r) > 1e-9 or abs(d) == r)
        return ctx.both(d < r, -d < r)
    if ctx.concrete:
        ctx.assume(abs(dist2(ctx, a, b) ** 0.5 - r) > 1e-9)
    return ctx.both(dist2(ctx, a, b) < r * r, r > 0)


def expected(ctx, vals, w, q, r):
    win = vals[-w:][:-1]
    if not win:
        return 0.0
    return ctx.count([near(ctx, v, q, r) for v in win]) / len(win)


def make(ctx, w, r):
    M = ctx.mod('pysad.models.exact_storm').ExactStorm
    k = {}
    if w is not None:
        k['window_size'] = w
    if r is not None:
        k['max_radius'] = r
    return M(**k)


def history(ctx, n, d, wmax, rmode, ops):
    w = ctx.choice('w', wmax) + 1 if wmax else None
    r = {'sym': lambda: ctx.real('r', 0.01, 50), 'none': lambda: None}.get(rmode, lambda: rmode)()
    m = make(ctx, w, r)
    if r is None:
        r = 0.1
    ww = w or 10000
    vals = []
    for i in range(n):
        x = ctx.vec('x%d' % i, d)
        op = ops if isinstance(ops, str) else ops[ctx.choice('op%d' % i, len(ops))]
        if op in 'sp':
            z = ctx.vec('z%d' % i, d)
            ctx.eq(m.score_partial(z), expected(ctx, vals, ww, list(z), r), 'fraction of close neighbours')
        if op == 'b':
            s = m.fit_score_partial(x)
            vals.append(list(x))
            ctx.eq(s, expected(ctx, vals, ww, list(x), r), 'fraction of close neighbours')
        else:
            ctx.check(m.fit_partial(x) is m, 'fit returns the model')
            vals.append(list(x))
    z = ctx.vec('q', d)
    z0 = z.copy()
    e = expected(ctx, vals, ww, list(z), r)
    s = m.score_partial(z)
    ctx.eq(s, e, 'fraction of close neighbours')
    ctx.le(0, s, 'score at least 0')
    ctx.le(s, 1, 'score at most 1')
    ctx.eq(m.score_partial(z), e, 'scoring changes nothing')
    ctx.eq(z, z0, 'the instance is left unmodified')


def before(ctx):
    m = make(ctx, 3, 1.0)
    ctx.eq(m.score_partial(ctx.vec('x', 2)), 0.0, '0 without instances')


def wide(ctx, d, w, n):
    """several features, exact boundary at dyadic distances, one symbolic coordinate each"""
    m = make(ctx, w, 2.0)
    con = series(n * d)
    vals = []
    for i in range(n):
        v = con[i * d:(i + 1) * d]
        if i >= n - 2:
            v[i % d] = ctx.real('x%d' % i)
        vals.append(v)
        m.fit_partial(ctx.array(v, float))
    q = list(con[:d])
    q[0] = ctx.real('q')
    ctx.eq(m.score_partial(ctx.array(q, float)), expected(ctx, vals, w, q, 2.0), 'fraction of close neighbours')


def long(ctx, n, w, d):
    m = make(ctx, w, 3.0)
    con = series(n)
    vals = []
    for i in range(n):
        v = [ctx.real('x%d' % i) if i in (n - w - 1, n - w, n - 1, n - 2) else con[i]]
        vals.append(v)
        m.fit_partial(ctx.array(v, float))
    q = [ctx.real('q')]
    ctx.eq(m.score_partial(ctx.array(q, float)), expected(ctx, vals, w, q, 3.0), 'fraction of close neighbours')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for ops in 'fbs':
        J.append((history, dict(n=5 if q else 7, d=1, wmax=4 if q else 5, rmode='sym', ops=ops)))
        J.append((history, dict(n=3 if q else 4, d=2, wmax=3, rmode=1.0, ops=ops)))
    J.append((history, dict(n=3, d=1, wmax=3, rmode=0.5, ops=['f', 'b', 's'])))
    J.append((history, dict(n=4, d=1, wmax=0, rmode='none', ops='f')))
    J.append((history, dict(n=3, d=1, wmax=3, rmode='none', ops='f')))
    J.append((before, {}))
    for d in sorted(set([4, 12] + [c + 1 for c in mine(['pysad/models/exact_storm.py'], 3, 130)])):
        J.append((wide, dict(d=d, w=4, n=6)))
    for c in sorted(set([8] + mine(['pysad/models/exact_storm.py', 'pysad/utils/window.py'], 3, 1100))):
        J.append((long, dict(n=2 * c + 3, w=c, d=1)))
        J.append((long, dict(n=c + 6, w=c + 4, d=1)))
    return J
