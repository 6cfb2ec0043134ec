"""C02 a running statistic covers exactly the last window_size values."""
from harness.util import mine, series, absv
from harness.c01 import STATS, ORDER, oracle


def stream(ctx, stat, n, wmax, nsym=99, absolute=False, every=True):
    """n insertions, symbolic window size 1..wmax, statistic read after every insertion (or only at the end)"""
    S = ctx.mod('pysad.statistics')
    w = ctx.int('w', 1, wmax)
    cls = getattr(S, stat)
    if absolute:
        base = cls
        class Abs(S.AbsStatistic):
            def __init__(self):
                super().__init__(base)
        cls = Abs
    m = S.RunningStatistic(cls, w)
    other = S.RunningStatistic(cls, 2)
    vals, con = [], series(n)
    for i in range(n):
        x = ctx.real('x%d' % i) if i < nsym else con[i]
        r = m.update(x)
        other.update(con[i])
        ctx.check(r is m, 'update returns the statistic')
        vals.append(x)
        if every or i == n - 1:
            # window size is fixed by the code's own comparison on this path, or enumerated here
            k = w.__index__() if not isinstance(w, int) else w
            exp = oracle(ctx, stat, vals[-k:])
            if absolute:
                exp = absv(ctx, exp)
            ctx.eq(m.get(), exp, 'running %s covers the last window_size values' % stat)
            ctx.eq(m.get(), exp, 'reading does not change the running %s' % stat)


def kwargs(ctx, n, wmax):
    """constructor keyword arguments reach the wrapped statistic"""
    S = ctx.mod('pysad.statistics')
    w = ctx.choice('w', wmax) + 1
    seen = []

    class Shifted(S.AverageMeter):
        def __init__(self, shift=0.0, **kw):
            seen.append((shift, dict(kw)))
            self.shift = shift
            super().__init__()

        def get(self):
            return super().get() + self.shift
    s = ctx.real('shift')
    m = S.RunningStatistic(Shifted, w, shift=s)
    ab = S.RunningStatistic(S.AbsStatistic, w, statistic_cls=S.SumMeter) if False else None
    vals = []
    for i in range(n):
        x = ctx.real('x%d' % i)
        m.update(x)
        vals.append(x)
        ctx.eq(m.get(), ctx.mean(vals[-w:]) + s, 'wrapped statistic built with the keyword arguments')


def long(ctx, stat, n, w):
    """long stream across several window turnovers; symbolic values near the window border"""
    S = ctx.mod('pysad.statistics')
    m = S.RunningStatistic(getattr(S, stat), w)
    con = series(n)
    vals = []
    pos = (n - 1, n - w, n - w - 1) if stat not in ORDER else (n - 1, n - w)
    for i in range(n):
        x = ctx.real('x%d' % i) if i in pos else con[i]
        m.update(x)
        vals.append(x)
        if i >= n - 2:
            ctx.eq(m.get(), oracle(ctx, stat, vals[-w:]), 'running %s covers the last window_size values' % stat)


def jobs(tier):
    q = tier == 'quick'
    J = []
    for s in reversed(STATS):
        o = s in ORDER
        n = (4 if o else 6) if q else (5 if o else 8)
        J.append((stream, dict(stat=s, n=n, wmax=n + 1)))
        J.append((stream, dict(stat=s, n=n - 1, wmax=n - 1, absolute=True)))
        J.append((stream, dict(stat=s, n=n, wmax=3, every=False)))
        if o:
            J.append((stream, dict(stat=s, n=8, wmax=5, nsym=2)))
        for c in sorted(set([5] + mine(['pysad/statistics/running_statistic.py'], 3, 1100 if q else 4000))):
            if c <= 150:
                J.append((long, dict(stat=s, n=3 * c + 2, w=c)))
            J.append((long, dict(stat=s, n=c + 4, w=3)))
    J.append((kwargs, dict(n=3 if q else 5, wmax=3)))
    return J
