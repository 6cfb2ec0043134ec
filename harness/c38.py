"""C38: a copy of a component goes on like the original."""
from harness.util import series
from harness import comps
from harness.c29 import rows_of, labels
NOTE = 'every component is driven by a symbolic stream, copied (deep copy, pickle round trip) at a position chosen by the solver, and original and copy go on with different symbolic streams in either order; expected are two components that were each driven alone; third-party detectors, trees and decompositions are stand-ins'


def keep(v):
    return v.copy() if getattr(v, 'shape', ()) else v


def more(ctx, T, o, rows, ys, i0, seed):
    ctx.seed(seed)
    out = []
    for i, v in enumerate(rows):
        a = T.arg(ctx, v)
        T.fit(o, a, ys[i] if T.labels else None)
        if T.pops or (i0 + i + 1 >= T.first and (i0 + i + 1) % T.step == 0):
            out.append(keep(T.read(o, a)))
    return out


def run(ctx, comp, n, m, pos, symfit, how, seed=2):
    T = comps.TABLE[comp]
    comps.install(ctx)
    at = pos[ctx.choice('at', len(pos))]
    rows = rows_of(ctx, T, n, symfit)
    ys = labels(T, 4 * n + 4 * m)
    A = rows[:at]
    one, two = rows[at:at + m], rows[at + m:]
    if T.kind == 'metric':
        two = [[1.0 - v[0]] for v in two]

    def start():
        ctx.seed(seed)
        o = T.make(ctx)
        for i, v in enumerate(A):
            T.fit(o, T.arg(ctx, v), ys[i] if T.labels else None)
            if i % 2 and i + 1 >= T.first and (i + 1) % T.step == 0 and not T.pops:
                T.read(o, T.arg(ctx, v))
        return o

    e1 = more(ctx, T, start(), one, ys, at, seed + 1)
    e2 = more(ctx, T, start(), two, ys[1:], at, seed + 2)
    o = start()
    c = ctx.duplicate(o, how)
    if ctx.flag('original first'):
        g2 = more(ctx, T, o, two, ys[1:], at, seed + 2)
        g1 = more(ctx, T, c, one, ys, at, seed + 1)
    else:
        g1 = more(ctx, T, c, one, ys, at, seed + 1)
        g2 = more(ctx, T, o, two, ys[1:], at, seed + 2)
    ctx.check(len(g1) == len(e1) and len(g2) == len(e2), 'as many results')
    for g, e in zip(g1, e1):
        ctx.eq(g, e, 'the copy goes on like the original', tol=1e-9)
    for g, e in zip(g2, e2):
        ctx.eq(g, e, 'the original is not affected by its copy', tol=1e-9)


def jobs(tier):
    J = []
    for k, T in comps.TABLE.items():
        if k in ('rrcf', 'rrcf_first'):
            continue   # rrcf's trees refuse to be copied
        for how in ('deep', 'pickle'):
            n = T.n
            big = n > 20
            pos = (0, 2, n) if not big else (2, n)
            N = max(pos) + (6 if not big else 3)
            sf = tuple(i for i in (N - 1, n - 1) if i >= 0) if T.symfit else ()
            J.append((run, dict(comp=k, n=N, m=3 if not big else 2, pos=pos, symfit=sf, how=how)))
            if k == 'kitnet':       # while its autoencoders are being trained
                J.append((run, dict(comp=k, n=14, m=6, pos=(3, 4, 5, 6), symfit=(), how=how)))
    return J
