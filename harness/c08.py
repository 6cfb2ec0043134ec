"""C08 a windowed metric averages its complete windows."""
from harness.util import mine
FILES = ['pysad/evaluation/windowed_metric.py']


def fake(ctx, made):
    B = ctx.mod('pysad.core.base_metric').BaseMetric

    class Fake(B):
        """value: weighted sum of the block's pairs over their number, plus an offset argument"""

        def __init__(self, offset=0.0, scale=1.0):
            super().__init__()
            made.append((offset, scale))
            self.off, self.sc = offset, scale
            self.pairs = []

        def update(self, y_true, y_pred):
            self.pairs.append((y_true, y_pred))

        def get(self):
            return value(self.pairs, self.off, self.sc)
    return Fake


def value(pairs, off, sc):
    s = 0
    for k, (a, b) in enumerate(pairs):
        s = s + a * (k + 1) + b
    return s * (1.0 / len(pairs)) * sc + off


def windowed(ctx, n, wmax, ignore, kw, nsym=99, wfix=None, default=False):
    E = ctx.mod('pysad.evaluation.windowed_metric')
    made = []
    M = fake(ctx, made)
    w = ctx.int('w', 1, wmax) if wfix is None else wfix
    off, sc = (ctx.real('off'), 2.0) if kw else (0.0, 1.0)
    kws = dict(offset=off, scale=sc) if kw else {}
    m = E.WindowedMetric(M, w, **kws) if default else E.WindowedMetric(M, w, ignore, **kws) if n % 2 else E.WindowedMetric(M, window_size=w, ignore_nonempty_last=ignore, **kws)
    if default:
        ignore = True
    pairs = []
    k = wfix
    for i in range(n):
        a, b = (ctx.real('a%d' % i), ctx.real('b%d' % i)) if i < nsym or i >= n - 2 else (float(i % 3), float(i % 5) - 1)
        r = m.update(a, b)
        pairs.append((a, b))
        if i < n - 1 and nsym < 99 and i % 7 and i < n - 3:
            continue
        if k is None:
            k = w.__index__()
        blocks = [pairs[j:j + k] for j in range(0, len(pairs), k)]
        full = [bl for bl in blocks if len(bl) == k]
        use = full if full and (ignore or len(full) == len(blocks)) else blocks
        exp = ctx.mean([value(bl, off, sc) for bl in use])
        ctx.eq(m.get(), exp, 'average over the complete windows')
        ctx.eq(m.get(), exp, 'reading changes nothing')
    ctx.check(all(len(x) == 2 for x in made), 'fresh metric per window')


def real_metric(ctx, metric, n, wmax, ignore):
    """with the library's precision/recall metrics and every binary sequence"""
    from harness.c07 import oracle
    E = ctx.mod('pysad.evaluation')
    w = ctx.choice('w', wmax) + 1
    m = E.WindowedMetric(getattr(E, metric), w, ignore_nonempty_last=ignore)
    t, p = [], []
    for i in range(n):
        t.append(ctx.choice('y%d' % i, 2))
        p.append(ctx.choice('p%d' % i, 2))
        m.update(t[-1], p[-1])
    vals = [(oracle(ctx, metric, t[j:j + w], p[j:j + w]), len(t[j:j + w])) for j in range(0, n, w)]
    full = [v for v, l in vals if l == w]
    exp = full if full and (ignore or len(full) == len(vals)) else [v for v, l in vals]
    ctx.eq(m.get(), sum(exp) / len(exp), 'average over the complete windows')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for ig in (True, False):
        for kw in (False, True):
            J.append((windowed, dict(n=6 if q else 9, wmax=7 if q else 10, ignore=ig, kw=kw)))
            J.append((windowed, dict(n=7 if q else 10, wmax=4, ignore=ig, kw=kw)))
            for c in sorted(set([5] + mine(FILES, 3, 1100))):
                J.append((windowed, dict(n=4 * c + 2, wmax=0, ignore=ig, kw=kw, nsym=3, wfix=c)))
                J.append((windowed, dict(n=2 * c + 1, wmax=0, ignore=ig, kw=kw, nsym=3, wfix=2)))
        for m in ('PrecisionMetric', 'RecallMetric'):
            J.append((real_metric, dict(metric=m, n=3 if q else 4, wmax=3, ignore=ig)))
    J.append((windowed, dict(n=5, wmax=3, ignore=True, kw=False, default=True)))
    return J
