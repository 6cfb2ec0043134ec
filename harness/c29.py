"""C29 reading results never changes later results or the caller's data."""
from harness.util import mine, series
from harness import comps
NOTE = 'every component is driven twice with the same symbolic stream and the same random draws, once with additional reads of symbolic instances at positions chosen by the solver; third-party detectors, trees and decompositions are stand-ins'


def value(ctx, T, name, sym, con):
    if not sym:
        return con
    return ctx.real(name, T.lo, T.hi)


def rows_of(ctx, T, n, symlast):
    con = series(n * T.d, 8)
    if T.lo is not None:
        lo, hi = T.lo, T.hi
        con = [lo + (hi - lo) * (((i * 7 + 3) % 16) / 16.0) for i in range(n * T.d)]
    if T.kind == 'metric':
        con = [float(i % 3 != 0) if i % 2 else 0.0 for i in range(n)]
    rows = [con[i * T.d:(i + 1) * T.d] for i in range(n)]
    for i in symlast:
        if T.kind == 'metric':
            rows[i][0] = float(ctx.choice('s%d' % i, 2))
        else:
            rows[i][i % T.d] = ctx.real('x%d' % i, T.lo, T.hi)
    return rows


def labels(T, n):
    return [i % 2 for i in range(n)]


def use(ctx, T, rows, ys, q, extra):
    """one history; extra(o, i) performs additional reads before step i"""
    ctx.seed(5)
    o = T.make(ctx)
    for i, v in enumerate(rows):
        extra(o, i)
        a = T.arg(ctx, v)
        T.fit(o, a, ys[i] if T.labels else None)
        if T.kind in ('model', 'trans', 'ens'):
            ctx.eq(a, v, 'fitting leaves its argument unmodified')
    extra(o, len(rows))
    out = []
    for w in q:
        a = T.arg(ctx, w)
        out.append(T.read(o, a))
        if T.kind in ('model', 'trans', 'ens'):
            ctx.eq(a, w, 'reading leaves its argument unmodified')
    return out


def run(ctx, comp, n, pos, symfit, reps=1, same=False):
    T = comps.TABLE[comp]
    comps.install(ctx)
    n = n or T.n
    rows = rows_of(ctx, T, n, symfit)
    ys = labels(T, n)
    q = [list(rows[-1])] + ([list(rows[0])] if same and T.query else []) + ([list(rows[-1])] if T.query else [])
    if T.query and T.kind not in ('stat', 'metric'):
        q[-1][0] = ctx.real('q', T.lo, T.hi)
    base = use(ctx, T, rows, ys, q, lambda o, i: None)
    done = []

    def extra(o, i):
        if i not in pos or i < T.first or i % T.step:
            return
        if not ctx.flag('read%d' % i):
            return
        done.append(i)
        v = list(rows[max(i - 1, 0)])
        if same:
            v = list(q[0] if i % 2 else rows[0])
        elif T.kind not in ('stat', 'metric'):
            v[-1] = ctx.real('r%d' % i, T.lo, T.hi)
        for _ in range(reps):
            a = T.arg(ctx, v)
            T.read(o, a)
            if T.kind in ('model', 'trans', 'ens'):
                ctx.eq(a, v, 'reading leaves its argument unmodified')
    got = use(ctx, T, rows, ys, q, extra)
    for a, b in zip(base, got):
        ctx.eq(b, a, 'later results are the same with and without extra reads', tol=1e-9)


def jobs(tier):
    quick = tier == 'quick'
    J = []
    for k, T in comps.TABLE.items():
        if k in comps.RANDOM_READS:
            continue
        n = T.n
        sf = (n - 1,) if T.symfit else ()
        if not T.query:
            J.append((run, dict(comp=k, n=n, pos=(n,), symfit=sf)))
            J.append((run, dict(comp=k, n=n, pos=(n - 2,), symfit=sf)))
            J.append((run, dict(comp=k, n=n, pos=(T.first, 3), symfit=sf)))
            continue
        J.append((run, dict(comp=k, n=n, pos=(T.first, n), symfit=sf)))
        # the very instances compared at the end are also read earlier
        J.append((run, dict(comp=k, n=n, pos=(T.first, n - 1) if T.step == 1 else (2, 4), symfit=(), same=True)))
        J.append((run, dict(comp=k, n=n, pos=(n - 2, n - 3) if T.step == 1 else (4,), symfit=(), same=True)))
        J.append((run, dict(comp=k, n=n, pos=(n - 2, n - 1) if T.step == 1 else (4, n), symfit=sf, reps=2)))
        for p in sorted({max(T.first, n - 2), max(T.first, n // 2)}) if T.step == 1 else (2, 4):
            J.append((run, dict(comp=k, n=n, pos=(p,), symfit=(), reps=24)))
        J.append((run, dict(comp=k, n=n + 5 if T.step == 1 else n, pos=(n + 2,) if T.step == 1 else (2,), symfit=sf, reps=3)))
    return J
