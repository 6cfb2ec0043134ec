"""Batch calls against instance-by-instance calls, for the library's own components (C04 and C05)."""
import contextlib
import io
from harness import comps
from harness.c29 import rows_of, labels


NEXT = ('stl', 'season')    # transform_partial is about the time step after the fitted ones


def mat(ctx, T, rows):
    if T.kind == 'post':
        return ctx.array([v[0] for v in rows], float)
    return ctx.array(rows, float)


def table(ctx, comp, op, n, m, symfit, labelled=True, seed=8):
    """op 'fit': fit a batch, then read a batch; 'both': fit and read in one call; the first m instances come one by one"""
    T = comps.TABLE[comp]
    comps.install(ctx)
    rows, ys = rows_of(ctx, T, n, symfit), labels(T, n)
    if not labelled:
        ys = None
    q = [list(rows[-1])]
    if T.query:
        q.append(list(rows[0]))
        q[-1][0] = ctx.real('q', T.lo, T.hi)
    res = []
    for batch in (False, True):
        ctx.seed(seed)
        o = T.make(ctx)
        out = []
        with contextlib.redirect_stdout(io.StringIO()) if T.quiet else contextlib.nullcontext():
            one = o.fit_score_partial if T.kind == 'model' else o.fit_transform_partial
            read = o.score_partial if T.kind == 'model' else o.transform_partial

            def feed(v, y):
                return o.fit_partial(v, y) if T.kind == 'model' else o.fit_partial(v)
            cut = m if batch else n
            for i in range(cut):
                a, y = T.arg(ctx, rows[i]), ys[i] if ys else None
                if op == 'fit' or i < m:
                    feed(a, y)
                elif i % 2 and comp not in NEXT:
                    feed(a, y)
                    out.append(read(a))
                else:
                    out.append(one(a, y) if T.kind == 'model' else one(a))
            if batch:
                X = mat(ctx, T, rows[m:])
                arg = (X, ctx.array(ys[m:], int)) if T.kind == 'model' and ys else (X,)
                if op == 'fit':
                    r = o.fit(*arg)
                    ctx.check(r is o, 'fit returns the object itself')
                else:
                    r = o.fit_score(*arg) if T.kind == 'model' else o.fit_transform(*arg)
                    out = [r[i] for i in range(n - m)]
            if op == 'fit' and T.pops:
                res.append(out)
                continue
            if op == 'fit' or not T.pops:
                if batch and T.kind != 'ens':
                    r = o.score(mat(ctx, T, q)) if T.kind == 'model' else o.transform(mat(ctx, T, q))
                    out += [r[i] for i in range(len(q))]
                else:
                    out += [read(T.arg(ctx, w)) for w in q]
        res.append(out)
    ctx.check(len(res[0]) == len(res[1]), 'as many results')
    for a, b in zip(*res):
        ctx.eq(b, a, 'batch calls give what the calls one by one give', tol=1e-9)


def jobs(kinds):
    J = []
    for k, T in comps.TABLE.items():
        if T.kind not in kinds:
            continue
        sf = (T.n - 1,) if T.symfit else ()
        J.append((table, dict(comp=k, op='fit', n=T.n, m=0, symfit=sf)))
        if T.kind == 'ens':
            continue
        J.append((table, dict(comp=k, op='fit', n=T.n, m=T.n // 2, symfit=())))
        if T.labels is False and T.kind == 'model':
            J.append((table, dict(comp=k, op='fit', n=T.n, m=0, symfit=(), labelled=False)))
        J.append((table, dict(comp=k, op='both', n=T.n + 1, m=max(T.first - 1, 0), symfit=sf)))
        J.append((table, dict(comp=k, op='both', n=T.n + 2, m=max(T.first, T.n // 2), symfit=())))
    return J
