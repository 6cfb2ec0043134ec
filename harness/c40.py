"""C40: documented limits are enforced exactly, and a rejected call leaves no trace."""
import math
from harness.util import series, mine
from harness import comps
NOTE = 'constructor parameters are symbolic integers / reals around the documented limits; rejected calls are inserted into a stream at positions chosen by the solver and the same stream without them is expected; STL is a stand-in'
P = 'pysad.transform.preprocessing'
ESD = 'pysad.models.seasonal_esd'


def verdict(ctx, make, ok, what):
    """make() raises ValueError exactly if not ok"""
    try:
        make()
        r = True
    except ValueError:
        r = False
    ctx.check(r == bool(ok), what)


def stl(ctx, pmax, wmax):
    comps.install(ctx)
    m = ctx.mod(P + '.modified_stl_residual').ModifiedSTLResidualTransformer
    p = ctx.int('period', -2, pmax)
    if ctx.flag('window'):
        w = ctx.int('window_size', -2, wmax)
        verdict(ctx, lambda: m(p, w), ctx.both(p >= 2, w >= 2 * p), 'accepted exactly for 2 <= period and 2 * period <= window_size')
    else:
        verdict(ctx, lambda: m(p), p >= 2, 'without a window: accepted exactly for 2 <= period')


def trend(ctx, smax):
    m = ctx.mod(P + '.seasonal_trend_decomposer').SeasonalTrendDecomposer
    s = ctx.int('season_length', -3, smax)
    if ctx.flag('trend'):
        t = ctx.int('trend_window', -3, smax)
        verdict(ctx, lambda: m(s, t), ctx.both(s >= 1, t >= 1), 'accepted exactly for positive lengths')
    else:
        verdict(ctx, lambda: m(s), s >= 1, 'accepted exactly for positive lengths')


def esd(ctx, cls, period, wmax, amax, sym):
    comps.install(ctx)
    m = getattr(ctx.mod(ESD), cls)
    w = ctx.int('window_size', -2, wmax) if 'w' in sym else wmax
    a = ctx.int('max_anomalies', -2, amax) if 'a' in sym else amax
    p = ctx.int('period', -1, period) if 'p' in sym else period
    al = 0.05
    if 'l' in sym:
        k = ctx.choice('alpha kind', 4)
        al = (ctx.real('alpha', -2, 2), float('nan'), float('inf'), -float('inf'))[k]
    good = ctx.both(a >= 1, w >= 2 * p, p >= 2, 100 * a <= 49 * w)
    if 'l' in sym:
        good = ctx.both(good, al > 0, al < 1) if k == 0 else False
    verdict(ctx, lambda: m(p, w, a, alpha=al), good, 'accepted exactly within the documented limits')


def sad(ctx):
    m = ctx.mod('pysad.models.standard_absolute_deviation').StandardAbsoluteDeviation
    s = ('mean', 'median', 'mode', '', 'Mean', 'medians', None, 'max', 'average')[ctx.choice('statistic', 9)]
    verdict(ctx, lambda: m(s, ctx.flag('absolute')), s in ('mean', 'median'), 'only mean and median')


# ------------------------------------------------------------------ rejected calls in the middle of a stream
def bad_calls(ctx, kind):
    """list of (name, call(o)) that have to be rejected"""
    A = lambda v: ctx.array(v, float)
    if kind in ('mad', 'sad', 'sadm'):
        return [lambda o: o.fit_partial(A([4.0, 5.0])), lambda o: o.fit_partial(A([]))]
    if kind == 'perfect':
        return [lambda o: o.fit_partial(A([1.0, 2.0])), lambda o: o.fit_partial(A([1.0, 2.0]), None)]
    if kind == 'stl':
        return [lambda o: o.fit_partial(A([4.0, 5.0])), lambda o: o.transform_partial(A([4.0, 5.0])), lambda o: o.fit_transform_partial(A([4.0, 5.0])),
                lambda o: o.transform_window(A([1.0, 2.0, 3.0])), lambda o: o.transform_window(A([[1.0, 2.0]] * 6)), lambda o: o.fit_partial(A([]))]
    if kind in ('esd', 'hesd'):
        return [lambda o: o.fit_partial(A([4.0, 5.0])), lambda o: o.score_partial(A([4.0, 5.0])), lambda o: o.fit_score_partial(A([4.0, 5.0])),
                lambda o: o.fit_partial(A([[4.0]])), lambda o: o.fit_partial(A([]))]
    raise KeyError(kind)


MAKE = {
    'mad': lambda c: c.mod('pysad.models.median_absolute_deviation').MedianAbsoluteDeviation(),
    'sad': lambda c: c.mod('pysad.models.standard_absolute_deviation').StandardAbsoluteDeviation(),
    'sadm': lambda c: c.mod('pysad.models.standard_absolute_deviation').StandardAbsoluteDeviation('median'),
    'perfect': lambda c: c.mod('pysad.models.perfect_model').PerfectModel(),
    'stl': lambda c: c.mod(P + '.modified_stl_residual').ModifiedSTLResidualTransformer(2, 5),
    'esd': lambda c: c.mod(ESD).SeasonalESD(2, 5, 1),
    'hesd': lambda c: c.mod(ESD).SeasonalHybridESD(2, 5, 1),
}


def stream(ctx, kind, rows, at, bad):
    o = MAKE[kind](ctx)
    out = []
    for i, v in enumerate(rows):
        if i == at:
            try:
                bad(o)
                ctx.check(False, 'the call is rejected')
            except (ValueError, AssertionError, TypeError):
                pass
        a = ctx.array(v, float)
        if kind == 'stl':
            out.append(ctx.scalar(o.fit_transform_partial(a)))
        elif kind == 'perfect':
            o.fit_partial(a, i % 3)
            if i % 2:
                out += [ctx.scalar(o.score_partial(a)), ctx.scalar(o.score_partial(a))]
        else:
            o.fit_partial(a)
            out.append(ctx.scalar(o.score_partial(a)))
    return out


def trace(ctx, kind, n, bad, symfit):
    comps.install(ctx)
    d = 2 if kind == 'perfect' else 1
    con = series(n * d, 5)
    rows = [con[i * d:(i + 1) * d] for i in range(n)]
    for i in symfit:
        rows[i][0] = ctx.real('x%d' % i, -50, 50)
    call = bad_calls(ctx, kind)[bad]
    at = ctx.choice('at', n)
    e = stream(ctx, kind, rows, None, call)
    g = stream(ctx, kind, rows, at, call)
    ctx.check(len(e) == len(g), 'as many results')
    for x, y in zip(g, e):
        ctx.eq(x, y, 'a rejected call changes no later result', tol=1e-9)


def metric(ctx, n):
    """ROC of one class is rejected; the pairs received stay"""
    m = ctx.mod('pysad.evaluation').AUROCMetric()
    ys = [ctx.choice('y%d' % i, 2) for i in range(n)]
    s = series(n, 4)
    for i in range(n):
        m.update(ys[i], s[i])
        if len(set(ys[:i + 1])) < 2:
            ctx.check(ctx.raises(m.get, ValueError), 'one class only: rejected')
            continue
        pos = [s[j] for j in range(i + 1) if ys[j]]
        neg = [s[j] for j in range(i + 1) if not ys[j]]
        e = sum(1.0 if a > b else 0.5 if a == b else 0.0 for a in pos for b in neg) / (len(pos) * len(neg))
        ctx.eq(m.get(), e, 'a rejected read loses no pair')


def streamer(ctx, cls, nx, ny, shuffle):
    """instances and labels of different length; the same streamer afterwards"""
    mod = ctx.mod('pysad.utils')
    s = getattr(mod, cls)(shuffle=shuffle)
    a, b = ctx.choice('nx', nx + 1), ctx.choice('ny', ny + 1)
    X = ctx.array([[float(3 * i), 1.0] for i in range(a)], float) if a else ctx.array([[0.0, 0.0]], float)[:0]
    y = ctx.array([i for i in range(b)], int)
    try:
        got = list(s.iter(X, y))
        ok = True
    except (AssertionError, ValueError):
        ok = False
    ctx.check(ok == (a == b), 'rejected exactly when the lengths differ')
    if ok:
        ctx.check(len(got) == a, 'every instance once')
    got = [ctx.scalar(r[0][0]) for r in s.iter(ctx.array([[4.0, 1.0], [6.0, 1.0]], float), ctx.array([0, 1], int))]
    ctx.check(sorted(got) == [4.0, 6.0], 'the streamer is as good as new')


def jobs(tier):
    deep = tier != 'quick'
    J = [(stl, dict(pmax=5, wmax=12)), (trend, dict(smax=4)), (sad, {})]
    for c in ('SeasonalESD', 'SeasonalHybridESD'):
        J += [(esd, dict(cls=c, period=2, wmax=14, amax=8, sym='wa')),
              (esd, dict(cls=c, period=4, wmax=9, amax=2, sym='wp')),
              (esd, dict(cls=c, period=2, wmax=6, amax=1, sym='l')),
              (esd, dict(cls=c, period=3, wmax=101, amax=52, sym='a')),
              (esd, dict(cls=c, period=3, wmax=7, amax=4, sym='pa'))]
        if deep:
            J += [(esd, dict(cls=c, period=4, wmax=16, amax=9, sym='wapl'))]
    for k, n, sf in (('mad', 4, (3,)), ('sad', 4, (3,)), ('sadm', 4, (3,)), ('perfect', 6, ()), ('stl', 7, (5,)), ('esd', 8, ()), ('hesd', 8, ())):
        for b in range({'mad': 2, 'sad': 2, 'sadm': 2, 'perfect': 2, 'stl': 6, 'esd': 5, 'hesd': 5}[k]):
            J.append((trace, dict(kind=k, n=n + (2 if deep else 0), bad=b, symfit=sf)))
    J.append((metric, dict(n=5 if not deep else 7)))
    J.append((streamer, dict(cls='ArrayStreamer', nx=3, ny=3, shuffle=False)))
    J.append((streamer, dict(cls='ArrayStreamer', nx=3, ny=3, shuffle=True)))
    return J
