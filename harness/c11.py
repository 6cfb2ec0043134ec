"""C11 Gaussian calibration is the normal CDF of the fitted scores."""
import math
from harness.util import mine, series
FILES = ['pysad/transform/probability_calibration/gaussian_tail.py', 'pysad/statistics']


def make(ctx, running, w):
    C = ctx.mod('pysad.transform.probability_calibration').GaussianTailProbabilityCalibrator
    return C(running_statistics=running, window_size=w)


def expected(ctx, vals, s):
    v = ctx.pvar(vals)
    if ctx.concrete and v < 1e-9:
        # rounding decides the branch: only meaningful for exactly equal values
        ctx.assume(all(x == vals[0] for x in vals))
        v = 0
    pos = v > 0
    if not isinstance(v, (int, float)):
        pos = bool(pos)
    std = ctx.sqrt(v) if pos else 1.0
    z = (s - ctx.mean(vals)) / std
    return 1 - 0.5 * ctx.fn('erfc', z / math.sqrt(2))


def history(ctx, running, n, wmax, calls=True):
    w = ctx.choice('w', wmax) + 1
    m = make(ctx, running, w)
    vals = []
    for i in range(n):
        x = ctx.real('x%d' % i)
        ft = calls and ctx.flag('ft%d' % i)
        if ft:
            r = m.fit_transform_partial(x)
        else:
            ctx.check(m.fit_partial(x) is m, 'fit returns the calibrator')
        vals.append(x)
        cur = vals[-w:] if running else vals
        if ft:
            ctx.eq(r, expected(ctx, cur, x), 'normal CDF of the standardised score')
        elif i >= n - 2:
            s = ctx.real('s%d' % i)
            a = m.transform_partial(s)
            ctx.eq(a, expected(ctx, cur, s), 'normal CDF of the standardised score')
            ctx.eq(m.transform_partial(s), a, 'transforming changes nothing')
            ctx.le(0, a, 'result at least 0')
            ctx.le(a, 1, 'result at most 1')


ODD = (0.1, 0.6027633760716439, 437.5872112626925, -36.824153984054796, 0.7)    # sums of these are rounded


def constant(ctx, running, n, w, bump, odd=False):
    """constant history, optionally after one different value left the window"""
    m = make(ctx, running, w)
    c = ODD[ctx.choice('c', len(ODD))] if odd else ctx.real('c', -100, 100)
    vals = []
    if bump:
        y = ctx.real('y', -100, 100)
        m.fit_partial(y)
        vals.append(y)
    for i in range(n):
        m.fit_partial(c)
        vals.append(c)
    s = ctx.real('s', -100, 100)
    cur = vals[-w:] if running else vals
    r = m.transform_partial(s)
    if all(v is c for v in cur):
        ctx.check(ctx.isfinite(r), 'never NaN')
        ctx.le(0, r, 'result at least 0')
        ctx.le(r, 1, 'result at most 1')
        ctx.eq(r, 1 - 0.5 * ctx.fn('erfc', (s - c) / math.sqrt(2)), 'std 1 when the variance is not positive')


def long(ctx, running, n, w):
    m = make(ctx, running, w)
    con = series(n)
    vals = []
    for i in range(n):
        x = ctx.real('x%d' % i) if i in (n - 1, n - w, n - w - 1) else con[i]
        m.fit_partial(x)
        vals.append(x)
    s = ctx.real('s')
    ctx.eq(m.transform_partial(s), expected(ctx, vals[-w:] if running else vals, s), 'normal CDF of the standardised score')


def monotone(ctx, running, n):
    m = make(ctx, running, 2)
    for i in range(n):
        m.fit_partial(ctx.real('x%d' % i))
    s, d = ctx.real('s'), ctx.real('d', 0)
    ctx.le(m.transform_partial(s), m.transform_partial(s + d), 'result never decreases with the score')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for r in (True, False):
        J.append((history, dict(running=r, n=3 if q else 4, wmax=3)))
        J.append((history, dict(running=r, n=4 if q else 5, wmax=3, calls=False)))
        for b in (False, True):
            J.append((constant, dict(running=r, n=3, w=3, bump=b)))
            J.append((constant, dict(running=r, n=1, w=1, bump=b)))
        for n in (3, 8, 25):
            J.append((constant, dict(running=r, n=n, w=7, bump=False, odd=True)))
        J.append((constant, dict(running=r, n=9, w=7, bump=True, odd=True)))
        for c in sorted(set([6] + mine(FILES, 3, 1100))):
            J.append((long, dict(running=r, n=2 * c + 2, w=c)))
        J.append((monotone, dict(running=r, n=3)))
    return J
