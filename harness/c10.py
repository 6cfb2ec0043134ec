"""C10 conformal calibration returns the empirical tail fraction."""
from harness.util import mine, series
FILES = ['pysad/transform/probability_calibration/conformal_prediction.py', 'pysad/utils/window.py']


def make(ctx, windowed, w):
    C = ctx.mod('pysad.transform.probability_calibration').ConformalProbabilityCalibrator
    if windowed == 'default':
        return C(window_size=w)
    return C(windowed=windowed, window_size=w)


def expected(ctx, vals, s):
    return ctx.count([v > s for v in vals]) / (1.0 * len(vals))


def history(ctx, windowed, n, wmax, calls=True):
    w = ctx.choice('w', wmax) + 1
    m = make(ctx, windowed, w)
    vals = []
    for i in range(n):
        x = ctx.real('x%d' % i)
        ft = calls and ctx.flag('ft%d' % i)
        if ft:
            r = m.fit_transform_partial(x)
        else:
            ctx.check(m.fit_partial(x) is m, 'fit returns the calibrator')
        vals.append(x)
        cur = vals[-w:] if windowed else vals
        if ft:
            ctx.eq(r, expected(ctx, cur, x), 'fraction of retained scores strictly greater')
        if i < n - 1 and not (calls and ctx.flag('r%d' % i)):
            continue
        s = ctx.real('s%d' % i)
        a = m.transform_partial(s)
        ctx.eq(a, expected(ctx, cur, s), 'fraction of retained scores strictly greater')
        if i < n - 1:
            continue
        t = ctx.real('t%d' % i)
        b = m.transform_partial(t)
        ctx.eq(b, expected(ctx, cur, t), 'transforming changes nothing')
        a, b = ctx.scalar(a), ctx.scalar(b)
        ctx.le(0, a, 'result at least 0')
        ctx.le(a, 1, 'result at most 1')
        ctx.le(ctx.ite(s <= t, b, a), ctx.ite(s <= t, a, b), 'result never increases with the score')


def boundary(ctx, windowed, n):
    """query equal to a fitted score"""
    m = make(ctx, windowed, n)
    vals = [ctx.real('x%d' % i) for i in range(n)]
    m.fit(ctx.array(vals, float))
    j = ctx.choice('j', n)
    ctx.eq(m.transform_partial(vals[j]), expected(ctx, vals, vals[j]), 'ties are not counted')
    r = m.transform(ctx.array([vals[j], ctx.real('q')], float))
    ctx.eq(r[0], expected(ctx, vals, vals[j]), 'ties are not counted')


def long(ctx, windowed, n, w):
    m = make(ctx, windowed, w)
    con = series(n)
    vals = []
    for i in range(n):
        x = ctx.real('x%d' % i) if i in (n - 1, n - w, n - w - 1, 0) else con[i]
        m.fit_partial(x)
        vals.append(x)
    s = ctx.real('s')
    ctx.eq(m.transform_partial(s), expected(ctx, vals[-w:] if windowed else vals, s), 'fraction of retained scores strictly greater')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for wd in (True, False, 'default'):
        J.append((history, dict(windowed=wd, n=3 if q else 4, wmax=4)))
        J.append((history, dict(windowed=wd, n=5 if q else 7, wmax=5, calls=False)))
        J.append((boundary, dict(windowed=wd, n=3 if q else 5)))
        for c in sorted(set([10] + mine(FILES, 3, 1100))):
            J.append((long, dict(windowed=wd, n=2 * c + 2, w=c)))
            J.append((long, dict(windowed=wd, n=c + 2, w=c // 2 + 1)))
    return J
