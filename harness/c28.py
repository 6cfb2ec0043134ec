"""C28 relative-entropy model compares the current window with its first one."""
import math
import scipy.stats
from harness.util import mine, series
FILES = ['pysad/models/relative_entropy.py']
NOTE = 'values lie in the configured range; the quantised bins are enumerated by the solver, the entropy is then evaluated on the concrete histograms'


def bins(ctx, x, lo, step, nb):
    c = ctx.ceil((x - lo) / step)
    c = c if isinstance(c, int) else int(c.__index__())
    return min(c, nb - 1)


def hist(bs, nb):
    h = [0] * nb
    for b in bs:
        h[b] += 1
    return h


def expected(bs, w, nb):
    """bs: bins of all values so far"""
    if len(bs) < w:
        return 0
    p, q = hist(bs[-w:], nb), hist(bs[:w], nb)
    kl = 0.0
    for a, b in zip(p, q):
        if a:
            if not b:
                kl = math.inf
                break
            kl += a / w * math.log(a / b)
    T = scipy.stats.chi2.isf(0.01, nb - 1)
    st = 2 * w * kl
    assert abs(st - T) > 1e-9
    return 0 if st < T else -1


def run(ctx, w, nb, n, sym, lo=0.0, hi=10.0, each=True, scalar=False, base=None, defaults=False):
    M = ctx.mod('pysad.models.relative_entropy').RelativeEntropy
    m = M(lo, hi) if defaults else M(lo, hi, num_bins=nb, window_size=w)
    step = (hi - lo) / nb
    vals = []
    for i in range(n):
        if i in sym:
            x = ctx.real('x%d' % i, lo, hi)
        elif base == 'two':
            x = lo + step * (nb - 0.5 if i < w else 1.5)
        elif base == 'drift':
            x = lo + step * (((i * 7) % nb if i < w else (i * 3) % nb if i % 3 else 1) + 0.5)
        else:
            x = lo + step * ((i * 7 + 3) % nb + 0.5)
        vals.append(x)
    bs = []
    for i, x in enumerate(vals):
        if i in sym:
            p = (x - lo) / step
            fr = p - ctx.floor(p)
            # an exact edge value is decided exactly only when the step is a power of two; stay clear of rounding
            ctx.assume(ctx.both(fr > 1e-9, fr < 1 - 1e-9))
        X = x if scalar else ctx.array([x], float)
        r = m.fit_partial(X)
        ctx.check(r is m, 'fit returns the model')
        bs.append(bins(ctx, x, lo, step, nb))
        if each or i >= n - 2:
            e = expected(bs, w, nb)
            ctx.eq(m.score_partial(X), e, 'relative entropy verdict')
            if i % 3 == 0 or i == n - 1:
                ctx.eq(m.score_partial(ctx.array([lo], float)), e, 'scoring changes nothing and ignores its argument')


def edges(ctx, w, nb, n):
    """exact edges of a power-of-two grid"""
    M = ctx.mod('pysad.models.relative_entropy').RelativeEntropy
    m = M(-2.0, -2.0 + nb * 0.5, num_bins=nb, window_size=w)
    bs = []
    for i in range(n):
        k = ctx.choice('k%d' % i, nb + 1) if i >= n - 3 else (i * 3 + 1) % (nb + 1)
        bs.append(min(k, nb - 1))
        X = ctx.array([-2.0 + 0.5 * k], float)
        m.fit_partial(X)
        ctx.eq(m.score_partial(X), expected(bs, w, nb), 'values on a bin edge round up to it')


def edges_and_interior(ctx, w, nb, n, flip):
    """interior values in the first window, exact edges later (or the other way round): both quantise alike"""
    M = ctx.mod('pysad.models.relative_entropy').RelativeEntropy
    m = M(-2.0, -2.0 + nb * 0.5, num_bins=nb, window_size=w)
    bs = []
    for i in range(n):
        k = ctx.choice('k%d' % i, nb) + 1 if i >= n - 2 else 1 + (i * i + i // 3) % (nb - 1)
        bs.append(min(k, nb - 1))
        X = ctx.array([-2.0 + 0.5 * k - (0.25 if (i < w) != flip else 0.0)], float)
        m.fit_partial(X)
        ctx.eq(m.score_partial(X), expected(bs, w, nb), 'values inside a bin and on its upper edge are the same')


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append((run, dict(w=3, nb=2, n=6, sym=(0, 2, 4, 5))))
    J.append((run, dict(w=8, nb=3, n=12, sym=(2, 9, 11))))
    J.append((run, dict(w=12, nb=4, n=26, sym=(24, 25), base='drift')))
    J.append((run, dict(w=12, nb=5, n=25, sym=(3, 24), base='drift', lo=-3.0, hi=7.0)))
    J.append((run, dict(w=10, nb=3, n=24, sym=(12, 23), base='two', scalar=True)))
    J.append((run, dict(w=1, nb=3, n=4, sym=(0, 1, 3))))
    J.append((run, dict(w=52, nb=5, n=70, sym=(69,), defaults=True, base='drift', each=False)))
    J.append((edges, dict(w=5, nb=4, n=9)))
    J.append((edges, dict(w=6, nb=2, n=8)))
    for flip in (False, True):
        J.append((edges_and_interior, dict(w=14, nb=4, n=30, flip=flip)))
        J.append((edges_and_interior, dict(w=6, nb=3, n=11, flip=flip)))
    J.append((run, dict(w=20, nb=3, n=45, sym=(44,), base='drift', each=False)))
    J.append((run, dict(w=12, nb=25, n=26, sym=(25,), base='drift', each=False)))
    J.append((run, dict(w=40, nb=11, n=90, sym=(), base='drift', each=True)))
    if not q:
        J.append((run, dict(w=9, nb=4, n=20, sym=(1, 5, 10, 15, 19))))
        J.append((run, dict(w=30, nb=6, n=80, sym=(3, 40, 79), base='drift')))
        J.append((run, dict(w=4, nb=2, n=9, sym=tuple(range(9)))))
    for c in [c for c in mine(FILES, 3, 1100) if c not in (52,)]:
        J.append((run, dict(w=c, nb=3, n=2 * c + 2, sym=(2 * c + 1,), base='drift')))
    return J
