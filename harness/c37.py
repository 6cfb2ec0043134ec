"""C37 what a component has learned is its own: the caller may reuse or change the arrays afterwards."""
from harness.util import series
from harness import comps
from harness.c29 import rows_of, labels
NOTE = 'every component that takes arrays is driven twice with the same symbolic stream and seed, once with a new array per instance that nobody touches, once with arrays (instances, matrices, constructor arguments, returned results) that the caller overwrites afterwards, at positions chosen by the solver; third-party detectors, trees and decompositions are stand-ins'
ARRAYS = ('model', 'trans', 'ens')


class Rec:
    """a context that remembers the arrays made through it"""

    def __init__(self, ctx):
        self.ctx, self.made = ctx, []

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def array(self, *a, **k):
        r = self.ctx.array(*a, **k)
        self.made.append(r)
        return r


def spoil(a, junk):
    """overwrite every entry of an array in place"""
    if a is None or not getattr(a, 'shape', ()):
        return
    if len(a.shape) == 1:
        for i in range(a.shape[0]):
            a[i] = junk[i % len(junk)]
    else:
        for r in range(a.shape[0]):
            for i in range(a.shape[1]):
                a[r, i] = junk[(r + i) % len(junk)]


def keep(v):
    """a value the caller cannot change any more"""
    if getattr(v, 'shape', ()):
        return v.copy()
    return v


def final(ctx, T, o, q):
    out = []
    for w in q:
        out.append(keep(T.read(o, T.arg(ctx, w))))
        if T.pops:
            break
    return out


def queries(ctx, T, rows):
    q = [list(rows[-1])]
    if T.query:
        q.append(list(rows[0]))
        q[-1][0] = ctx.real('q', T.lo, T.hi)
    return q


def junk_of(ctx, T, sym):
    d = (T.lo + 0.37 * (T.hi - T.lo)) if T.lo is not None else 3.25
    e = (T.lo + 0.81 * (T.hi - T.lo)) if T.lo is not None else -6.5
    return [ctx.real('junk', T.lo, T.hi), e] if sym else [d, e]


def plain_run(ctx, T, rows, ys, q, every, seed=7):
    ctx.seed(seed)
    o = T.make(ctx)
    out = []
    for i, v in enumerate(rows):
        T.fit(o, T.arg(ctx, v), ys[i] if T.labels else None)
        if every and not T.pops and i + 1 >= T.first:
            out.append(keep(T.read(o, T.arg(ctx, v))))
    return out + final(ctx, T, o, q)


def reuse(ctx, comp, n, symfit, every, seed=7):
    """one buffer carries all instances; what is read is overwritten as well"""
    T = comps.TABLE[comp]
    comps.install(ctx)
    rows, ys = rows_of(ctx, T, n, symfit), labels(T, n)
    q = queries(ctx, T, rows)
    base = plain_run(ctx, T, rows, ys, q, every, seed)
    ctx.seed(seed)
    o = T.make(ctx)
    buf = ctx.array([0.0] * T.d, float)
    junk = junk_of(ctx, T, False)
    out = []
    for i, v in enumerate(rows):
        for j in range(T.d):
            buf[j] = v[j]
        T.fit(o, buf, ys[i] if T.labels else None)
        if every and not T.pops and i + 1 >= T.first:
            r = T.read(o, buf)
            out.append(keep(r))
            spoil(r, junk)
    spoil(buf, junk)
    out += final(ctx, T, o, q)
    same(ctx, out, base)


def same(ctx, got, base):
    ctx.check(len(got) == len(base), 'as many results')
    for a, b in zip(base, got):
        ctx.eq(b, a, 'results do not depend on what the caller does with its arrays afterwards', tol=1e-9)


def change(ctx, comp, n, pos, symfit, seed=3):
    """the arrays given to some calls (chosen by the solver) are overwritten later"""
    T = comps.TABLE[comp]
    comps.install(ctx)
    rows, ys = rows_of(ctx, T, n, symfit), labels(T, n)
    q = queries(ctx, T, rows)
    base = plain_run(ctx, T, rows, ys, q, False, seed)
    ctx.seed(seed)
    o = T.make(ctx)
    junk = junk_of(ctx, T, True)
    old = []
    for i, v in enumerate(rows):
        a = T.arg(ctx, v)
        T.fit(o, a, ys[i] if T.labels else None)
        old.append(a)
        if i in pos and ctx.flag('change%d' % i):
            for b in old:
                spoil(b, junk)
            old = []
    same(ctx, final(ctx, T, o, q), base)


def ctor(ctx, comp, n, symfit, seed=13):
    """the arrays given to the constructor are overwritten right after it / after some steps"""
    T = comps.TABLE[comp]
    comps.install(ctx)
    rows, ys = rows_of(ctx, T, n, symfit), labels(T, n)
    q = queries(ctx, T, rows)
    base = plain_run(ctx, T, rows, ys, q, True, seed)
    ctx.seed(seed)
    rec = Rec(ctx)
    o = T.make(rec)
    mine = list(rec.made)
    junk = junk_of(ctx, T, False)
    at = ctx.choice('at', 3)
    out = []
    for i, v in enumerate(rows):
        if i == (0, 1, n - 1)[at]:
            for a in mine:
                spoil(a, junk)
        T.fit(o, T.arg(ctx, v), ys[i] if T.labels else None)
        if i + 1 >= T.first and not T.pops:
            out.append(keep(T.read(o, T.arg(ctx, v))))
    same(ctx, out + final(ctx, T, o, q), base)


def held(ctx, comp, n, symfit, seed=21):
    """what was returned earlier does not change with later calls"""
    T = comps.TABLE[comp]
    comps.install(ctx)
    rows, ys = rows_of(ctx, T, n, symfit), labels(T, n)
    ctx.seed(seed)
    o = T.make(ctx)
    got = []
    for i, v in enumerate(rows):
        T.fit(o, T.arg(ctx, v), ys[i] if T.labels else None)
        if i + 1 >= T.first and (i + 1) % T.step == 0:
            r = T.read(o, T.arg(ctx, v))
            got.append((r, keep(r)))
    if T.kind in ARRAYS and not T.pops and T.kind != 'ens':
        X = ctx.array(rows[:3], float)
        r = o.score(X) if T.kind == 'model' else o.transform(X)
        got.append((r, keep(r)))
        o.fit(ctx.array(rows[1:4], float)) if not T.labels else o.fit(ctx.array(rows[1:3], float), ctx.array([0, 1], int))
        o.score(ctx.array(rows[1:4], float)) if T.kind == 'model' else o.transform(ctx.array(rows[1:4], float))
    if T.kind == 'post':
        X = ctx.array([v[0] for v in rows[:3]], float)
        r = o.transform(X)
        got.append((r, keep(r)))
        o.fit(ctx.array([v[0] for v in rows[1:4]], float))
        o.transform(ctx.array([v[0] for v in rows[1:4]], float))
    for r, k in got:
        ctx.eq(r, k, 'results returned earlier stay as they are')


def matrix(ctx, comp, n, symfit, seed=17):
    """fit() on a whole matrix, which is overwritten afterwards"""
    T = comps.TABLE[comp]
    comps.install(ctx)
    rows, ys = rows_of(ctx, T, n, symfit), labels(T, n)
    q = queries(ctx, T, rows)

    def one(sp):
        ctx.seed(seed)
        o = T.make(ctx)
        X = ctx.array(rows, float)
        a = (X, ctx.array(ys, int)) if T.labels else (X,)
        with comps.contextlib.redirect_stdout(comps.io.StringIO()) if T.quiet else comps.contextlib.nullcontext():
            o.fit(*a)
        if sp:
            spoil(X, junk_of(ctx, T, False))
            if T.labels and ctx.flag('labels'):
                for i in range(n):
                    a[1][i] = 1 - ys[i]
        return final(ctx, T, o, q)
    base = one(False)
    same(ctx, one(True), base)


def jobs(tier):
    J = []
    for k, T in comps.TABLE.items():
        J.append((held, dict(comp=k, n=T.n + 1 if T.step == 1 else T.n, symfit=(T.n - 1,) if T.symfit else ())))
        if T.kind not in ARRAYS:
            continue
        n = T.n
        sf = (n - 1,) if T.symfit else ()
        J.append((reuse, dict(comp=k, n=n, symfit=sf, every=False)))
        if k not in ('knncad', 'aomens', 'moaens', 'random'):
            J.append((reuse, dict(comp=k, n=n + 2, symfit=(), every=True)))
        J.append((change, dict(comp=k, n=n, pos=(n - 2, n - 1) if n > 2 else (0, 1), symfit=sf)))
        if k in ('hst', 'hst_first', 'hst_init', 'iforest_init', 'loop', 'rshash', 'onefit', 'refwin_init'):
            J.append((ctor, dict(comp=k, n=n, symfit=sf)))
        if T.kind != 'ens':
            J.append((matrix, dict(comp=k, n=n, symfit=sf)))
    return J
