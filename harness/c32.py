"""C32 LODA scores by the histograms of sparse random projections."""
import itertools
import math
from harness.util import mine, series
FILES = ['pysad/models/loda.py']
NOTE = 'Gaussian weights are one constant per run, or all different with the oracle existentially quantified over which draw went where; the set of kept features of each cut is existentially quantified; instances within rounding distance of a bin edge are left out unless they are the fitted instance itself'
EPS = 1e-12


def keep(d):
    return math.isqrt(d)


def mass(ctx, p, pq, nb, same):
    """normalised mass at the bin of pq when the histogram holds p only (unit-width range around p)"""
    b0 = nb // 2
    full, empty = (1 + EPS) / (1 + nb * EPS), EPS / (1 + nb * EPS)
    if same:
        return full
    t = (pq - p) * nb + nb / 2.0        # position in bins, fitted instance at nb/2
    hit = ctx.both(t >= b0 if b0 > 0 else True, t < b0 + 1 if b0 < nb - 1 else True)
    return full if hit else empty


def expected(ctx, x, q, g, sets, nb, cuts, same):
    s = 0.0
    for S in sets:
        df = g * ctx.sum([q[j] - x[j] for j in S if q[j] is not x[j]])
        s += -math.log(mass(ctx, 0, df, nb, same)) / cuts
    return s / cuts


def guard(ctx, x, q, g, S, nb):
    df = [q[j] - x[j] for j in S if q[j] is not x[j]]
    if not df:
        return
    t = g * ctx.sum(df) * nb + nb / 2.0
    f = t - ctx.floor(t)
    ctx.assume(ctx.both(f > 1e-6, f < 1 - 1e-6))


def run(ctx, d, nb, cuts, n, g, sym, symq=True, far=None, defaults=False):
    calls = [0]

    def perm(k):
        calls[0] += 1
        r = 0 if cuts > 2 and calls[0] <= cuts else calls[0]
        return [(j + r) % k for j in range(k)]
    ctx.draws_const(g=g, u=0.25, i=0, perm=perm)
    M = ctx.mod('pysad.models.loda').LODA
    m = M() if defaults else M(num_bins=nb, num_random_cuts=cuts)
    con = series(n * d + d, 6)
    subs = list(itertools.combinations(range(d), keep(d)))
    fams = list(itertools.combinations_with_replacement(subs, cuts)) if cuts <= 2 else [(S,) * cuts for S in subs]
    oks = [[] for _ in fams]

    def look(x, q, same):
        if not same:
            for S in subs:
                guard(ctx, x, q, g, S, nb)
        Q = ctx.array(q, float)
        r = ctx.scalar(m.score_partial(Q))
        ctx.check(ctx.isfinite(r), 'every score is finite')
        ctx.eq(Q, q, 'the instance is left unmodified')
        for k, f in enumerate(fams):
            e = expected(ctx, x, q, g, f, nb, cuts, same)
            oks[k].append(ctx.both(r - e <= 1e-6, e - r <= 1e-6))
        return r
    for i in range(n):
        v = con[i * d:(i + 1) * d]
        if i in sym:
            v[i % d] = ctx.real('x%d' % i, -20, 20)
        X = ctx.array(v, float)
        ctx.check(m.fit_partial(X) is m, 'fit returns the model')
        ctx.eq(X, v, 'the instance is left unmodified')
        look(v, v, True)
        if i >= n - 2:
            for j in range(d):
                q = list(v)
                q[j] = q[j] + 0.3 / g / nb
                look(v, q, False)
                q[j] = v[j] + (3 * nb + 0.3) / g / nb
                look(v, q, False)
    if symq:
        q = list(v)
        q[0] = ctx.real('q', -20, 20)
        r = look(v, q, False)
        ctx.eq(m.score_partial(ctx.array(q, float)), r, 'scoring changes nothing')
    ctx.check(ctx.either(*[ctx.both(*o) for o in oks]), 'some sparse cuts with the right number of features explain all scores')


def mixed(ctx, d, nb, cuts, n, gs, symq=True):
    """different Gaussian draws and feature orders for every cut: some assignment of the draws made to the kept
    features (each draw used at most once) explains all scores.  nb odd: the fitted instance lies in the middle of its bin"""
    p = ctx.draws_distinct(gs=gs)
    M = ctx.mod('pysad.models.loda').LODA
    m = M(num_bins=nb, num_random_cuts=cuts)
    con = series(n * d + d, 6)
    full, empty = (1 + EPS) / (1 + nb * EPS), EPS / (1 + nb * EPS)
    b0 = nb // 2
    got = []
    for i in range(n):
        x = con[i * d:(i + 1) * d]
        m.fit_partial(ctx.array(x, float))
        if i == 0:
            vs = list(p.gs)
        for j in range(d):
            for e in (0.21, 0.0437, -0.083, 0.5171):
                q = list(x)
                q[j] = x[j] + e
                got.append((x, q, ctx.scalar(m.score_partial(ctx.array(q, float)))))
    if symq:
        q = list(x)
        q[0] = ctx.real('q', -20, 20)
        got.append((x, q, ctx.scalar(m.score_partial(ctx.array(q, float)))))
    cand = []
    for S in itertools.combinations(range(d), keep(d)):
        for idx in itertools.permutations(range(len(vs)), keep(d)):
            es = []
            for x, q, _ in got:
                df = [vs[k] * (q[j] - x[j]) for j, k in zip(S, idx) if q[j] is not x[j]]
                t = ctx.sum(df) * nb + nb / 2.0 if df else nb / 2.0 + 1e-3
                if df and not (isinstance(t, float) and t == nb / 2.0):
                    f = t - ctx.floor(t)
                    ctx.assume(ctx.both(f > 1e-6, f < 1 - 1e-6))
                hit = ctx.both(t >= b0 if b0 > 0 else True, t < b0 + 1 if b0 < nb - 1 else True)
                es.append(ctx.ite(hit, -math.log(full), -math.log(empty)))
            cand.append((set(idx), es))
    ok = []
    for fam in itertools.combinations_with_replacement(cand, cuts):
        if any(a[0] & b[0] for a, b in itertools.combinations(fam, 2)):
            continue
        c = []
        for k, (x, q, r) in enumerate(got):
            e = ctx.sum([f[1][k] for f in fam]) / cuts / cuts
            c.append(ctx.both(r - e <= 1e-6, e - r <= 1e-6))
        if not any(v is False for v in c):
            ok.append(ctx.both(*c))
    ctx.check(ctx.either(*ok) if ok else False, 'weights and features of its own for every cut explain all scores')


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append((run, dict(d=1, nb=10, cuts=2, n=2, g=1.0, sym=(1,))))
    J.append((run, dict(d=1, nb=5, cuts=3, n=2, g=-0.5, sym=(1,))))
    J.append((run, dict(d=2, nb=4, cuts=1, n=3, g=0.5, sym=(2,))))
    J.append((run, dict(d=4, nb=3, cuts=1, n=4, g=1.0, sym=(3,))))
    J.append((run, dict(d=5, nb=6, cuts=2, n=3, g=1.0, sym=(2,))))
    J.append((run, dict(d=9, nb=10, cuts=1, n=5, g=0.25, sym=())))
    J.append((run, dict(d=3, nb=1, cuts=1, n=2, g=1.0, sym=(1,))))
    J.append((run, dict(d=3, nb=2, cuts=2, n=3, g=2.0, sym=(0,))))
    J.append((run, dict(d=4, nb=10, cuts=100, n=2, g=1.0, sym=(), defaults=True)))
    J.append((run, dict(d=3, nb=5, cuts=1, n=30, g=1.0, sym=(29,))))
    J.append((run, dict(d=12, nb=10, cuts=1, n=3, g=1.0, sym=())))
    J.append((run, dict(d=2, nb=40, cuts=2, n=3, g=1.0, sym=(2,))))
    J.append((run, dict(d=2, nb=5, cuts=30, n=3, g=1.0, sym=())))
    for gs in ((1.7, -0.6, 0.43, 3.1), (-0.31, 2.3, 0.9, -1.4)):
        J.append((mixed, dict(d=1, nb=9, cuts=2, n=2, gs=gs)))
        J.append((mixed, dict(d=2, nb=5, cuts=2, n=3, gs=gs)))
        J.append((mixed, dict(d=4, nb=7, cuts=1, n=3, gs=gs)))
    J.append((mixed, dict(d=1, nb=9, cuts=3, n=2, gs=(1.7, -0.6, 0.43))))
    if not q:
        J.append((run, dict(d=6, nb=7, cuts=2, n=4, g=1.0, sym=(2, 3))))
        J.append((run, dict(d=16, nb=4, cuts=1, n=3, g=1.0, sym=())))
    for c in mine(FILES, 3, 1100):
        if c not in (10, 100):
            J.append((run, dict(d=3, nb=4, cuts=1, n=c + 1, g=1.0, sym=(c,))))
    return J
