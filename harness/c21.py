"""C21 RS-Hash scores the decayed count of the instance's hash cells."""
import itertools
import math
from harness.util import mine, series
FILES = ['pysad/models/rs_hash.py']
NOTE = 'random draws are one constant per run (all components equal) or all different known values with the oracle existentially quantified over which draw went where; the drawn feature subset is existentially quantified'


def width(u, decay):
    s = max(1000, 1.0 / (1 - 2.0 ** -decay))
    lo = 1.0 / math.sqrt(s)
    return lo + (1 - 2 * lo) * u


def cell(ctx, x, feats, f, a):
    out = []
    for j in feats:
        p = (x[j] + a) / f
        fl = ctx.floor(p)
        fr = p - fl
        # within rounding distance of a cell edge either cell is right: left out
        ctx.assume(ctx.both(fr > 1e-6, fr < 1 - 1e-6))
        out.append(fl)
    return out


def expected(ctx, hist, x, feats, f, a, decay):
    """ln(1 + decayed count); concrete per path (forks on equal cells)"""
    c = 0.0
    b = cell(ctx, x, feats, f, a)
    for t, h in enumerate(hist):
        same = all(bool(p == q) for p, q in zip(cell(ctx, h, feats, f, a), b))
        if same:
            c += 2.0 ** (-decay * (len(hist) - t))
    return math.log(1 + c)


def make(ctx, d, decay, m, hashes, empty=(), sp=None):
    M = ctx.mod('pysad.models.rs_hash').RSHash
    mins = ctx.array([0.0] * d, float)
    maxes = ctx.array([0.0 if j in empty else 10.0 for j in range(d)], float)
    k = {}
    if decay is not None:
        k['decay'] = decay
    if sp is not None:
        k['sampling_points'] = sp
    return M(mins, maxes, num_components=m, num_hash_fns=hashes, **k)


def close(ctx, a, b):
    return ctx.both(a - b <= 1e-9, b - a <= 1e-9)


def stream(ctx, d, decay, u, m, hashes, n, sym, i=0, empty=(), reads=True, sp=None, hi=2):
    ctx.draws_const(u=u, i=i)
    mod = make(ctx, d, decay, m, hashes, empty, sp)
    dec = 0.015 if decay is None else decay
    f = width(u, dec)
    a = u * f
    con = series(n * d + d)
    pool = [j for j in range(d) if j not in empty]
    subs = [s for r in range(1, len(pool) + 1) for s in itertools.combinations(pool, r)]
    hist, got = [], []
    for t in range(n):
        x = [0.125 * v if t % 3 else 0.2 for v in con[t * d:(t + 1) * d]]
        if t in sym:
            for j in range(d):
                x[j] = ctx.real('x%d_%d' % (t, j), 0, hi)
        X = ctx.array(x, float)
        ctx.check(mod.fit_partial(X) is mod, 'fit returns the model')
        ctx.eq(X, x, 'the instance is left unmodified')
        r = ctx.scalar(mod.score_partial(X))
        if reads:
            ctx.eq(mod.score_partial(ctx.vec('z', d)), r, 'scoring ignores its argument')
            ctx.eq(mod.score_partial(X), r, 'scoring changes nothing')
        got.append((list(hist), x, r))
        hist.append(x)
    if len(subs) == 1:
        for h, x, r in got:
            ctx.eq(r, expected(ctx, h, x, subs[0], f, a, dec), 'logarithm of the decayed cell count')
    else:
        ok = []
        for s in subs:
            ok.append(ctx.both(*[close(ctx, expected(ctx, h, x, s, f, a, dec), r) for h, x, r in got]))
        ctx.check(ctx.either(*ok), 'some drawn features explain the scores')


def soft(ctx, hist, x, feats, f, al, decay):
    """ln(1 + decayed count) without case splits; al: one shift per feature"""
    fl = lambda v: [ctx.floor((v[j] + a) / f) for j, a in zip(feats, al)]
    b = fl(x)
    hit = [ctx.both(*[p == q for p, q in zip(fl(h), b)]) for h in hist]

    def tab(t, c):
        if t == len(hist):
            return math.log(1 + c)
        return ctx.ite(hit[t], tab(t + 1, c + 2.0 ** (-decay * (len(hist) - t))), tab(t + 1, c))
    return tab(0, 0.0)


def edges(ctx, x, feats, f, al):
    for j, a in zip(feats, al):
        p = (x[j] + a) / f
        fr = p - ctx.floor(p)
        ctx.assume(ctx.both(fr > 1e-6, fr < 1 - 1e-6))


def mixed(ctx, d, m, decay, n, us, sym=True, hashes=1, bits=False):
    """different draws for every component: some assignment of the draws made to the components' widths and shifts
    (each draw used once) and some drawn features explain all scores"""
    p = ctx.draws_distinct(us=us)
    mod = make(ctx, d, decay, m, hashes)
    vs = list(p.us)
    con = series(n * d + d)
    hist, got = [], []
    for t in range(n):
        x = [0.11 * abs(v) + 0.07 * t for v in con[t * d:(t + 1) * d]]
        if bits:        # two values per feature, all combinations: few cells, any width
            x = [0.11 + 0.2 * ((t * 5 + 3) >> j & 1) for j in range(d)]
        if sym and t == n - 1:
            x[d - 1] = ctx.real('x', 0, 1)
        mod.fit_partial(ctx.array(x, float))
        got.append((list(hist), x, ctx.scalar(mod.score_partial(ctx.array(x, float)))))
        hist.append(x)
    comps = []
    for r in range(1, d + 1):
        for fs in itertools.combinations(range(d), r):
            for idx in itertools.permutations(range(len(vs)), r + 1):
                f = width(vs[idx[0]], decay)
                al = [vs[k] * f for k in idx[1:]]
                if sym and d == 1:
                    for h, x, _ in got[-1:]:
                        edges(ctx, x, fs, f, al)
                comps.append((frozenset(idx), [soft(ctx, h, x, fs, f, al, decay) for h, x, _ in got]))
    ok = []
    if m == 2:
        for a, b in itertools.combinations(comps, 2):
            if not a[0] & b[0]:
                es = [close(ctx, (v + y) / 2, g[2]) for v, y, g in zip(a[1], b[1], got)]
                if not any(e is False for e in es):
                    ok.append(ctx.both(*es))
    else:
        for a in comps:
            es = [close(ctx, v, g[2]) for v, g in zip(a[1], got)]
            if not any(e is False for e in es):
                ok.append(ctx.both(*es))
    ctx.check(ctx.either(*ok) if ok else False, 'widths, shifts and features of its own for every component explain the scores')


def long(ctx, decay, n, hashes):
    """distant instances of the same cell: decay over many steps, one symbolic instance"""
    u = 0.45
    ctx.draws_const(u=u, i=0)
    mod = make(ctx, 1, decay, 2, hashes)
    dec = 0.015 if decay is None else decay
    f = width(u, dec)
    hist = []
    for t in range(n):
        x = [0.3] if t in (0, 2) else [2.0 + 0.5 * (t % 5)]
        if t == n - 1:
            x = [ctx.real('x', 0, 1)]
        mod.fit_partial(ctx.array(x, float))
        if t == n - 1:
            ctx.eq(mod.score_partial(ctx.array(x, float)), expected(ctx, hist, x, (0,), f, u * f, dec), 'logarithm of the decayed cell count')
        hist.append(x)


def jobs(tier):
    q = tier == 'quick'
    J = []
    for decay in (None, 0.5, 1.0):
        J.append((stream, dict(d=1, decay=decay, u=0.4567, m=2, hashes=1, n=3, sym=(1, 2))))
    J.append((stream, dict(d=1, decay=0.25, u=0.4567, m=1, hashes=2, n=3 if q else 4, sym=(0, 1, 2))))
    J.append((stream, dict(d=1, decay=0.1, u=0.0312, m=3, hashes=1, n=4, sym=(3,), hi=1)))
    J.append((stream, dict(d=2, decay=0.5, u=0.4567, m=2, hashes=1, n=3, sym=(2,))))
    J.append((stream, dict(d=2, decay=0.5, u=0.0312, m=2, hashes=1, n=3, sym=(2,), hi=0.5)))
    J.append((stream, dict(d=2, decay=0.5, u=0.9127, m=1, hashes=2, n=3, sym=(1, 2), empty=(1,))))
    J.append((stream, dict(d=3, decay=1.0, u=0.9127, m=1, hashes=1, n=3, sym=(2,))))
    J.append((stream, dict(d=1, decay=0.015, u=0.9127, m=2, hashes=3, n=5, sym=(4,), sp=3)))
    J.append((stream, dict(d=7, decay=0.5, u=0.4567, m=3, hashes=2, n=4, sym=(), reads=False)))
    J.append((stream, dict(d=5, decay=0.2, u=0.9127, m=9, hashes=5, n=4, sym=(), reads=False, empty=(2,))))
    for us in ((0.11, 0.52, 0.83, 0.37), (0.9, 0.05, 0.33, 0.71)):
        J.append((mixed, dict(d=1, m=2, decay=0.5, n=4, us=us)))
        J.append((mixed, dict(d=2, m=1, decay=0.25, n=6, us=us, sym=False)))
        J.append((mixed, dict(d=2, m=2, decay=0.25, n=8, us=us + (0.62, 0.17), sym=False)))
    J.append((mixed, dict(d=3, m=2, decay=0.25, n=10, us=(0.001, 0.0005, 0.37, 0.71), sym=False, bits=True)))
    J.append((mixed, dict(d=1, m=2, decay=0.1, n=9, us=(0.11, 0.52, 0.83, 0.37), sym=False)))
    if not q:
        J.append((stream, dict(d=1, decay=0.3, u=0.7127, m=2, hashes=2, n=5, sym=(1, 2, 3, 4))))
        J.append((stream, dict(d=2, decay=0.5, u=0.4567, m=2, hashes=1, n=4, sym=(2, 3))))
    for decay in (None, 0.5):
        for c in sorted(set([12] + [c + 4 for c in mine(FILES, 3, 1100, cap=3)])):
            J.append((long, dict(decay=decay, n=c, hashes=1)))
    return J
