"""C16 seasonal ESD scores follow the generalized ESD test on the residual window."""
import math
from harness.util import mine, series
FILES = ['pysad/models/seasonal_esd.py']
NOTE = 'STL is a stand-in that makes the residuals arbitrary (symbolic) values; windows handed to it are checked'


def crit(n, i, alpha):
    from scipy.stats import t
    p = 1.0 - alpha / (2.0 * (n - i + 1))
    tv = float(t.ppf(p, n - i - 1))
    return (n - i) * tv / math.sqrt((n - i - 1 + tv * tv) * (n - i + 1))


class Stl:
    """makes the residual of every window equal to the given residual vector"""

    def __init__(self, ctx, res):
        self.ctx, self.res, self.calls = ctx, res, []
        ctx.hook('statsmodels.tsa.seasonal:STL', self)

    def __call__(self, endog, **k):
        self.calls.append((list(endog), k))
        return self

    def fit(self, *a, **k):
        w = self.calls[-1][0]
        m = self.ctx.median(w)
        self.seasonal = self.ctx.array([x - m - r for x, r in zip(w, self.res)], float)
        self.trend = self.ctx.array([m for _ in w], float)
        self.resid = self.ctx.array(list(self.res), float)
        return self


def esd(ctx, res, kmax, alpha, hybrid):
    """generalized ESD; forks on comparisons; score of the newest value"""
    n = len(res)
    rem = list(range(n))
    cands = []
    for i in range(1, kmax + 1):
        v = [res[j] for j in rem]
        if hybrid:
            c = ctx.median(v)
            s = 1.4826 * ctx.median([ctx.ite(x >= c, x - c, c - x) for x in v])
            if s <= 1e-10:
                break
        else:
            c = ctx.mean(v)
            q = ctx.sum([(x - c) * (x - c) for x in v]) / (len(v) - 1)
            if q <= 1e-20:
                break
            s = ctx.sqrt(q)
        d = [ctx.ite(x >= c, x - c, c - x) for x in v]
        best = 0
        for j in range(1, len(d)):
            if not (isinstance(d[j], float) and isinstance(d[best], float)) or (d[j] != d[best] and abs(d[j] - d[best]) < 1e-9):
                # ties decided by rounding are left out
                ctx.assume(ctx.either(d[j] - d[best] > 1e-9, d[best] - d[j] > 1e-9))
            if d[j] > d[best]:
                best = j
        cands.append((rem[best], d[best] / s, crit(n, i, alpha), d[best], s))
        del rem[best]
    cnt = 0
    for i, (_, st, cv, d, s) in enumerate(cands, 1):
        # the critical value is a floating-point number: leave out a band of relative width 1e-7 around it
        ctx.assume(ctx.either(d > (cv + 1e-7) * s, d < (cv - 1e-7) * s))
        if d > cv * s:
            cnt = i
    for j, st, cv, d, s in cands[:cnt]:
        if j == n - 1:
            return st
    return 0.0


def make(ctx, hybrid, **k):
    M = ctx.mod('pysad.models.seasonal_esd')
    return (M.SeasonalHybridESD if hybrid else M.SeasonalESD)(**k)


def test(ctx, hybrid, w, kmax, alpha, sym, extra, mode, default_alpha=False):
    """full window of residuals, `sym` positions symbolic"""
    base = [0.5, -1.0, 0.25, 1.5, -0.75, 0.0, 2.25, -0.25, 1.0, -1.5, 0.125, 0.875, -2.0, 0.625]
    res = [ctx.real('r%d' % i, -1000, 1000) if i in sym else base[i % len(base)] + 0.046875 * (i // len(base)) for i in range(w)]
    st = Stl(ctx, res)
    k = dict(period=2, window_size=w, max_anomalies=kmax)
    if not default_alpha:
        k['alpha'] = alpha
    m = make(ctx, hybrid, **k)
    xs = series(w + extra)
    for x in xs[:-1]:
        m.fit_partial(ctx.array([x], float))
    X = ctx.array([xs[-1]], float)
    st.calls.clear()
    r = m.score_partial(X) if mode == 's' else m.fit_score_partial(X)
    ctx.eq(st.calls[-1][0] if st.calls else [], xs[-w:], 'the test uses the last window_size values')
    e = esd(ctx, res, kmax, alpha, hybrid)
    ctx.eq(r, e, 'test statistic of the newest value if detected, else 0')
    ctx.eq(X, [xs[-1]], 'the input is left unmodified')


def stream(ctx, hybrid, w, n, ops):
    """window bookkeeping: values symbolic, residuals a fixed outlier pattern"""
    res = [0.0, 0.25, -0.25, 0.5, -0.5, 0.125, 40.0][-w:]
    st = Stl(ctx, res)
    ctx.sort_mode('ite')
    m = make(ctx, hybrid, period=2, window_size=w, max_anomalies=1, alpha=0.4, robust=False, seasonal=9)
    e = esd(ctx, res, 1, 0.4, hybrid)
    vals = []
    for i in range(n):
        x = ctx.real('x%d' % i) if i >= n - 2 else series(n)[i]
        op = ops[ctx.choice('op%d' % i, len(ops))] if i >= n - 3 else 'f'
        X = ctx.array([x], float)
        st.calls.clear()
        if op == 'f':
            ctx.check(m.fit_partial(X) is m, 'fit returns the model')
            vals.append(x)
            continue
        cand = vals + [x]
        r = m.fit_score_partial(X) if op == 'b' else m.score_partial(X)
        if len(cand) < w:
            ctx.eq(r, 0.0, '0 until window_size values are available')
        else:
            ctx.eq(r, e, 'statistic of the newest value')
            ctx.eq(st.calls[-1][0] if st.calls else [], cand[-w:], 'the test uses the last window_size values')
            kk = st.calls[-1][1]
            ctx.check(kk.get('period') == 2 and kk.get('robust') is False and kk.get('seasonal') == 9, 'options reach the decomposition')
        if op == 's':
            m.fit_partial(X)
        vals.append(x)
    q = ctx.real('q')
    if len(vals) + 1 >= w:
        m.score_partial(ctx.array([q], float))
        ctx.eq(st.calls[-1][0] if st.calls else [], (vals + [q])[-w:], 'the test uses the last window_size values')


def several(ctx, w, cfg, sym):
    """models with other parameters in the same process do not matter"""
    base = [0.5, -1.0, 0.25, 1.5, -0.75, 0.0, 2.25, -0.25]
    res = [ctx.real('r%d' % i, -1000, 1000) if i in sym else base[i] for i in range(w)]
    Stl(ctx, res)
    ms = [make(ctx, h, period=2, window_size=w, max_anomalies=k, alpha=a) for h, k, a in cfg]
    xs = series(w)
    X = ctx.array([xs[-1]], float)
    for x in xs[:-1]:
        for m in ms:
            m.fit_partial(ctx.array([x], float))
    for rep in range(2):
        for m, (h, k, a) in zip(ms, cfg):
            ctx.eq(m.score_partial(X), esd(ctx, res, k, a, h), 'test statistic of the newest value if detected, else 0')


def short(ctx, hybrid, w, n):
    """residual test before the window is full: always 0"""
    Stl(ctx, [0.0] * w)
    m = make(ctx, hybrid, period=2, window_size=w, max_anomalies=1)
    for i in range(n):
        X = ctx.vec('x%d' % i, 1)
        ctx.eq(m.score_partial(X), 0.0, '0 until window_size values are available')
        if i % 2:
            m.fit_partial(X)
        else:
            ctx.eq(m.fit_score_partial(X), 0.0, '0 until window_size values are available')


def rejects(ctx, hybrid):
    Stl(ctx, [0.0] * 20)
    w = ctx.choice('w', 11) + 3
    k = ctx.choice('k', 8)
    p = ctx.choice('p', 3) + 1
    bad = k < 1 or w < 2 * p or k > int(w * 0.49) or p < 2
    ctx.check(ctx.raises(lambda: make(ctx, hybrid, period=p, window_size=w, max_anomalies=k), ValueError) == bad, 'exactly the invalid configurations are rejected')


def rejects2(ctx, hybrid):
    Stl(ctx, [0.0] * 20)
    a = ctx.real('a', -3, 4)
    bad = not (0 < a and a < 1)
    ctx.check(ctx.raises(lambda: make(ctx, hybrid, period=2, window_size=5, max_anomalies=1, alpha=a), ValueError) == bad, 'exactly the invalid significance levels are rejected')
    for a in (float('nan'), float('inf')):
        ctx.check(ctx.raises(lambda: make(ctx, hybrid, period=2, window_size=5, max_anomalies=1, alpha=a), ValueError), 'non-finite levels are rejected')
    m = make(ctx, hybrid, period=2, window_size=5, max_anomalies=1)
    x = ctx.vec('x', 2)
    for f in (m.fit_partial, m.score_partial, m.fit_score_partial):
        ctx.check(ctx.raises(lambda: f(x), ValueError), 'multivariate instances are rejected')


def jobs(tier):
    q = tier == 'quick'
    J = [(several, dict(w=5, cfg=[(h, 2, 0.05), (h, 2, 0.4), (h, 1, 0.05)], sym=(4,))) for h in (False, True)]
    J.append((several, dict(w=6, cfg=[(True, 1, 0.1), (False, 1, 0.1), (False, 1, 0.3)], sym=(5,))))
    for hybrid in (False, True):
        for w, kmax, alpha, sym in ((4, 1, 0.05, (3,)), (4, 1, 0.05, (0, 3)), (5, 2, 0.3, (4,)), (5, 2, 0.3, (1, 4)), (5, 2, 0.05, (4,)), (7, 3, 0.2, (6,)),
                                    (7, 3, 0.2, (2, 6)), (6, 1, 0.1, (0, 5))):
            if q and len(sym) > 1 and w > 4:
                continue
            for mode in 'sb':
                J.append((test, dict(hybrid=hybrid, w=w, kmax=kmax, alpha=alpha, sym=sym, extra=2 if mode == 's' else 0, mode=mode)))
        J.append((test, dict(hybrid=hybrid, w=6, kmax=2, alpha=0.05, sym=(5,), extra=1, mode='b', default_alpha=True)))
        for w in sorted(set([13, 20, 41] + [c for c in mine(FILES, 5, 150) if c > 5])):
            J.append((test, dict(hybrid=hybrid, w=w, kmax=min(4, int(w * 0.49)), alpha=0.1, sym=(), extra=w + 3, mode='b')))
            if w <= (20 if hybrid else 13):
                J.append((test, dict(hybrid=hybrid, w=w, kmax=1, alpha=0.1, sym=(w - 1,), extra=1, mode='b')))
        J.append((test, dict(hybrid=hybrid, w=20, kmax=9, alpha=0.3, sym=(), extra=2, mode='s')))
        for c in mine(FILES, 3, 1100):
            J.append((test, dict(hybrid=hybrid, w=5, kmax=2, alpha=0.3, sym=(4,), extra=c + 1, mode='b')))
        if not q:
            J.append((test, dict(hybrid=hybrid, w=5, kmax=2, alpha=0.3, sym=(0, 2, 4), extra=0, mode='b')))
        for w in (4, 5):
            J.append((stream, dict(hybrid=hybrid, w=w, n=w + 2, ops='fbs')))
            J.append((short, dict(hybrid=hybrid, w=w, n=w - 1 - (w - 1) % 2)))
        J.append((rejects, dict(hybrid=hybrid)))
        J.append((rejects2, dict(hybrid=hybrid)))
    return J
