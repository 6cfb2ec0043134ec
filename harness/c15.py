"""C15 modified STL residual equals value minus seasonal minus window median."""
import inspect
from harness.util import mine, series
NOTE = 'STL is a stand-in returning an arbitrary symbolic seasonal component that depends on the window; window contents, period and options handed to it are checked'
FILES = ['pysad/transform/preprocessing/modified_stl_residual.py']


class Fake:
    """seasonal[i] = s_i + (window-dependent part); trend and remainder likewise arbitrary"""

    def __init__(self, ctx, symbolic=True):
        self.ctx = ctx
        self.calls = []
        self.symbolic = symbolic

    def install(self):
        def STL(endog, period=None, seasonal=7, trend=None, low_pass=None, seasonal_deg=1, trend_deg=1, low_pass_deg=1, robust=False,
                seasonal_jump=1, trend_jump=1, low_pass_jump=1):
            opts = dict(period=period, seasonal=seasonal, trend=trend, low_pass=low_pass, seasonal_deg=seasonal_deg, trend_deg=trend_deg,
                        low_pass_deg=low_pass_deg, robust=robust, seasonal_jump=seasonal_jump, trend_jump=trend_jump, low_pass_jump=low_pass_jump)
            return Obj(self, endog, opts)
        self.ctx.hook('statsmodels.tsa.seasonal:STL', STL)
        return self

    def seasonal(self, w):
        c = self.ctx
        n = len(w)
        return [(c.real('s%d' % (n - i)) if self.symbolic and i >= n - 2 else 0.125 * i) + 0.5 * w[i] - 0.25 * w[0] for i in range(n)]


class Obj:
    def __init__(self, f, endog, opts):
        f.calls.append((list(endog), opts))
        self.f, self.w = f, list(endog)

    def fit(self, inner_iter=None, outer_iter=None):
        c = self.f.ctx
        s = self.f.seasonal(self.w)
        t = [0.75 * x + 1.5 for x in self.w]
        self.seasonal = c.array(s, float)
        self.trend = c.array(t, float)
        self.resid = c.array([x - a - b for x, a, b in zip(self.w, s, t)], float)
        self.observed = c.array(self.w, float)
        self.weights = c.array([1.0] * len(s), float)
        return self


def resid(ctx, f, w):
    s = f.seasonal(w)
    m = ctx.median(w)
    return [x - a - m for x, a in zip(w, s)]


OPT = dict(seasonal=9, trend=15, low_pass_deg=0)


def checkopts(ctx, f, period, robust, kw, w=None):
    for ww, o in f.calls:
        exp = dict(period=period, seasonal=7, trend=None, low_pass=None, seasonal_deg=1, trend_deg=1, low_pass_deg=1, robust=robust,
                   seasonal_jump=1, trend_jump=1, low_pass_jump=1)
        exp.update(kw)
        ctx.check(o == exp, 'STL is fitted with the configured period and options')
    if w is not None and f.calls:
        ctx.eq(f.calls[-1][0], w, 'STL is fitted on the same window')


def make(ctx, period, w, robust, kw):
    T = ctx.mod('pysad.transform.preprocessing').ModifiedSTLResidualTransformer
    a = dict(kw)
    if w is not None:
        a['window_size'] = w
    if robust is not None:
        a['robust'] = robust
    return T(period, **a)


def window(ctx, period, n, robust, opts, two_d=False, nsym=3):
    ctx.sort_mode('ite')
    f = Fake(ctx).install()
    kw = OPT if opts else {}
    m = make(ctx, period, None, robust, kw)
    con = series(n)
    l = [ctx.real('x%d' % i) if i >= n - nsym else con[i] for i in range(n)]
    X = ctx.array([[v] for v in l] if two_d else l, float)
    X0 = X.copy()
    r = m.transform_window(X)
    ctx.eq(r, resid(ctx, f, l), 'value minus seasonal minus median', shape=True)
    ctx.eq(X, X0, 'the window is left unmodified')
    checkopts(ctx, f, period, True if robust is None else robust, kw, l)


def rejects(ctx, period):
    Fake(ctx).install()
    m = make(ctx, period, None, None, {})
    n = ctx.choice('n', 2 * period)
    ctx.check(ctx.raises(lambda: m.transform_window(ctx.vec('x', n)), ValueError) if n else True, 'shorter windows are rejected')
    ctx.check(ctx.raises(lambda: m.transform_window(ctx.mat('y', 2 * period + 1, 2)), ValueError), 'multivariate windows are rejected')
    ctx.check(ctx.raises(lambda: m.fit_partial(ctx.vec('z', 1)), ValueError), 'streaming without window size is rejected')
    m2 = make(ctx, period, 2 * period, None, {})
    ctx.check(ctx.raises(lambda: m2.fit_partial(ctx.vec('z', 2)), ValueError), 'multivariate instances are rejected')
    ctx.check(ctx.raises(lambda: m2.transform_partial(ctx.vec('z', 2)), ValueError), 'multivariate instances are rejected')
    for p in (0, 1):
        ctx.check(ctx.raises(lambda: make(ctx, p, None, None, {}), ValueError), 'a period below 2 is rejected')
    k = ctx.choice('k', 2 * period - 1) + 1
    ctx.check(ctx.raises(lambda: make(ctx, period, k, None, {}), ValueError), 'a window below two periods is rejected')


def stream(ctx, period, w, n, ops, symfrom, robust=None, opts=False):
    ctx.sort_mode('ite')
    f = Fake(ctx).install()
    kw = OPT if opts else {}
    m = make(ctx, period, w, robust, kw)
    con = series(n)
    vals = []
    for i in range(n):
        x = ctx.real('x%d' % i) if i >= symfrom else con[i]
        X = ctx.array([x], float)
        op = ops if isinstance(ops, str) else ops[ctx.choice('op%d' % i, len(ops))] if i >= symfrom - 1 else 'f'
        f.calls.clear()
        if op == 'b':
            r = m.fit_transform_partial(X)
            vals.append(x)
            expect(ctx, f, period, w, vals, r, robust, kw)
        elif op == 'f':
            ctx.check(m.fit_partial(X) is m, 'fit returns the transformer')
            vals.append(x)
        else:
            z = ctx.real('z%d' % i)
            r = m.transform_partial(ctx.array([z], float))
            expect(ctx, f, period, w, vals + [z], r, robust, kw)
            m.fit_partial(X)
            vals.append(x)
        ctx.eq(X, [x], 'the input is left unmodified')
    f.calls.clear()
    q = ctx.real('q')
    expect(ctx, f, period, w, vals + [q], m.transform_partial(ctx.array([q], float)), robust, kw)
    vals.append(q)
    expect(ctx, f, period, w, vals, m.fit_transform_partial(ctx.array([q], float)), robust, kw)


def expect(ctx, f, period, w, vals, r, robust, kw):
    cur = vals[-w:]
    if len(cur) < 2 * period:
        ctx.eq(r, 0.0, '0 until two periods are available')
        return
    ctx.eq(r, resid(ctx, f, cur)[-1], 'newest residual of the last window')
    checkopts(ctx, f, period, True if robust is None else robust, kw, cur)


def jobs(tier):
    q = tier == 'quick'
    J = []
    for period in (2, 3):
        for n in (2 * period, 2 * period + 1, 2 * period + 3):
            for rb in (None, False, True) if n == 2 * period else (None,):
                J.append((window, dict(period=period, n=n, robust=rb, opts=rb is not None, nsym=2 if q else 3)))
            J.append((window, dict(period=period, n=n, robust=None, opts=False, two_d=True, nsym=2)))
        J.append((rejects, dict(period=period)))
        for w in (2 * period, 2 * period + 1, 2 * period + 2):
            for ops in 'bft':
                J.append((stream, dict(period=period, w=w, n=w + 2, ops=ops, symfrom=w)))
            J.append((stream, dict(period=period, w=w, n=w + 1, ops=['b', 'f', 't'], symfrom=w, robust=False, opts=True)))
    for period, n in ((2, 11), (2, 25), (3, 20)):
        J.append((window, dict(period=period, n=n, robust=None, opts=False, nsym=1)))
        J.append((stream, dict(period=period, w=n, n=n + 1, ops='b', symfrom=n)))
    for period in (7, 12):
        J.append((window, dict(period=period, n=3 * period + 1, robust=None, opts=True, nsym=1)))
        J.append((stream, dict(period=period, w=2 * period + 1, n=3 * period, ops='b', symfrom=3 * period - 1)))
    for c in mine(FILES, 3, 1100):
        J.append((window, dict(period=2, n=c + 1, robust=None, opts=False, nsym=2)))
        J.append((stream, dict(period=2, w=max(4, c), n=max(4, c) + 2, ops='b', symfrom=max(4, c))))
    return J
