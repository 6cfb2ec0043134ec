"""C36 results depend on the numbers given, not on the numeric type that carries them."""
from harness.util import series
from harness import comps
from harness.c29 import labels
from harness.c37 import keep
NOTE = 'every component is driven twice with the same symbolic whole-numbered stream and seed, once as double precision numbers, once in another numeric type (64-bit, 16-bit and unsigned 8-bit integers with their wrap-around arithmetic, Python integers, single precision); third-party detectors, trees and decompositions are stand-ins'
RANGE = {'int64': (-2000, 2000), 'int16': (-32768, 32767), 'uint8': (0, 255), 'int': (-2000, 2000), 'float32': (-2000, 2000)}


def ints(T, n, ty):
    lo, hi = bounds(T, ty)
    if hi - lo < 10:
        return [lo + (i * 7 + i * i * 3) % (hi - lo + 1) for i in range(n * T.d)]
    big = 40 if ty == 'uint8' else 260
    return [max(lo, min(hi, ((i * i * 5 + i * 3) % 7) * big - (0 if lo >= 0 else 2 * big) + i % 3)) for i in range(n * T.d)]


# feature ranges below zero: truncation towards zero shows there
OWN = {'hst_neg': comps.C('pysad.models.half_space_trees', lambda c, m: m.HalfSpaceTrees(c.array([-10.0, -7.0], float), c.array([9.0, 8.0], float), window_size=3, num_trees=2, max_depth=3), d=2, n=4, lo=-10, hi=9, symfit=False)}


def bounds(T, ty):
    lo, hi = RANGE[ty]
    if T.lo == 1:
        lo = 1          # non-zero features, no upper end
    elif T.lo is not None:
        lo, hi = max(lo, T.lo), min(hi, T.hi)
    return lo, hi


def arg(ctx, T, v, ty):
    """the call argument that carries the values in the given type"""
    if ty is None:
        if T.kind in ('model', 'trans', 'ens'):
            return ctx.array(v, float)
        return ctx.array([v[0]], float)[0]
    if T.kind in ('model', 'trans', 'ens'):
        return ctx.array(v, 'int64' if ty == 'int' else ty)
    if ty == 'int':
        return v[0]
    return ctx.array([v[0]], ty)[0]


def drive(ctx, T, rows, ys, q, ty, seed, every):
    ctx.seed(seed)
    o = T.make(ctx)
    out = []
    for i, v in enumerate(rows):
        y = None
        if T.labels:
            y = ys[i] if ty is None or ty == 'int' else ctx.array([ys[i]], ty)[0]
        T.fit(o, arg(ctx, T, v, ty), y)
        if (every or T.pops) and i + 1 >= T.first and (i + 1) % T.step == 0:
            out.append(keep(T.read(o, arg(ctx, T, v, ty))))
    for w in [] if T.pops else q:
        out.append(keep(T.read(o, arg(ctx, T, w, ty))))
    return out


def run(ctx, comp, n, ty, symfit, query, every, seed=5):
    T = OWN.get(comp) or comps.TABLE[comp]
    comps.install(ctx)
    lo, hi = bounds(T, ty)
    con = ints(T, n, ty)
    rows = [con[i * T.d:(i + 1) * T.d] for i in range(n)]
    for i in symfit:
        rows[i][i % T.d] = ctx.int('x%d' % i, lo, hi)
    q = [list(rows[-1])]
    if query and T.kind not in ('stat', 'metric'):
        q.append(list(con[:T.d]))
        q[-1][-1] = ctx.int('q', lo, hi)
    ys = labels(T, n)
    base = drive(ctx, T, rows, ys, q, None, seed, every)
    got = drive(ctx, T, rows, ys, q, ty, seed, every)
    ctx.check(len(got) == len(base), 'as many results')
    for a, b in zip(base, got):
        ctx.eq(b, a, 'same result for the same numbers in another type', tol=1e-9 if ty != 'float32' else 1e-4)


class Typed:
    """a context whose arrays carry whole numbers, in double precision or in another type"""

    def __init__(self, ctx, ty):
        self.ctx, self.ty, self.on = ctx, ty, True

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def array(self, v, dt=None):
        if not self.on:
            return self.ctx.array(v, dt)

        def whole(w):
            if isinstance(w, list):
                return [whole(x) for x in w]
            return abs(int(round(3 * w))) if self.unsigned else int(round(3 * w))
        return self.ctx.array(whole(v), self.ty)


def ctor(ctx, comp, n, ty, symfit, seed=4, mixed=False):
    """the arrays given to the constructor are of the other type as well (mixed: only they are)"""
    T = OWN.get(comp) or comps.TABLE[comp]
    comps.install(ctx)
    lo, hi = bounds(T, ty)
    con = ints(T, n, ty)
    if T.hi == 1:
        lo, hi = 0, 3       # the feature ranges become 0 ... 3 as well
        con = [(i * i + i // 2) % 4 for i in range(n * T.d)]
    if mixed:
        con = [lo + (hi - lo) * ((i * 7 + 3) % 16) / 16.0 for i in range(n * T.d)]
    rows = [con[i * T.d:(i + 1) * T.d] for i in range(n)]
    for i in symfit:
        rows[i][i % T.d] = ctx.real('x%d' % i, lo, hi) if mixed else ctx.int('x%d' % i, lo, hi)
    res = []
    for t in (None, ty):
        ctx.seed(seed)
        c = Typed(ctx, t or float)
        c.unsigned = ty[0] == 'u'
        o = T.make(c)
        c.on = False     # the stand-ins keep using it
        out = []
        for v in rows:
            w = None if mixed else t
            T.fit(o, arg(ctx, T, v, w), None)
            out.append(keep(T.read(o, arg(ctx, T, v, w))))
        res.append(out)
    for a, b in zip(*res):
        ctx.eq(b, a, 'same result for the same numbers in another type', tol=1e-9)


def batch(ctx, comp, n, ty, symfit, seed=6):
    """whole matrices: fit and score / transform"""
    T = OWN.get(comp) or comps.TABLE[comp]
    comps.install(ctx)
    lo, hi = bounds(T, ty)
    con = ints(T, n, ty)
    rows = [con[i * T.d:(i + 1) * T.d] for i in range(n)]
    for i in symfit:
        rows[i][i % T.d] = ctx.int('x%d' % i, lo, hi)
    ys = labels(T, n)
    res = []
    for t in (None, ty):
        ctx.seed(seed)
        o = T.make(ctx)
        X = ctx.array(rows, t or float)
        a = (X, ctx.array(ys, t or int)) if T.labels else (X,)
        with comps.contextlib.redirect_stdout(comps.io.StringIO()) if T.quiet else comps.contextlib.nullcontext():
            if T.kind == 'ens':
                r = o.fit_transform(X)
            elif T.kind == 'model':
                o.fit(*a)
                r = o.score(X)
            elif T.kind == 'post':
                o.fit(ctx.array([v[0] for v in rows], t or float))
                r = o.transform(ctx.array([v[0] for v in rows], t or float))
            else:
                o.fit(X)
                r = o.transform(X)
        res.append(r)
    ctx.eq(res[1], res[0], 'same result for the same numbers in another type', tol=1e-9)


class Params:
    """the module with constructors that get their whole-numbered parameters as numpy integers"""

    def __init__(self, ctx, mod, ty):
        self.ctx, self.mod, self.ty = ctx, mod, ty

    def conv(self, v):
        return self.ctx.array([v], self.ty)[0] if type(v) is int else v

    def __getattr__(self, n):
        f = getattr(self.mod, n)
        if not callable(f):
            return f
        return lambda *a, **k: f(*[self.conv(v) for v in a], **{q: self.conv(v) for q, v in k.items()})


def params(ctx, comp, n, ty, symfit, seed=8):
    """whole-numbered constructor parameters as numpy integers"""
    T = OWN.get(comp) or comps.TABLE[comp]
    comps.install(ctx)
    lo, hi = bounds(T, 'int64')
    con = ints(T, n, 'int64')
    rows = [con[i * T.d:(i + 1) * T.d] for i in range(n)]
    for i in symfit:
        rows[i][i % T.d] = ctx.int('x%d' % i, lo, hi)
    ys = labels(T, n)
    res = []
    for t in (None, ty):
        ctx.seed(seed)
        m = ctx.mod(T.mod)
        o = T.mk(ctx, Params(ctx, m, t) if t else m)
        out = []
        for i, v in enumerate(rows):
            T.fit(o, arg(ctx, T, v, None), ys[i] if T.labels else None)
            if T.pops or i + 1 >= T.first and (i + 1) % T.step == 0 and (n < 20 or i + 1 == n):
                out.append(keep(T.read(o, arg(ctx, T, v, None))))
        res.append(out)
    for a, b in zip(*res):
        ctx.eq(b, a, 'same result for parameters of another integer type', tol=1e-9)


def jobs(tier):
    J = []
    for ty in ('int64', 'int16', 'int', 'float32'):
        if ty != 'int':
            J.append((run, dict(comp='hst_neg', n=4, ty=ty, symfit=(3,), query=False, every=False)))
            J.append((run, dict(comp='hst_neg', n=7, ty=ty, symfit=(), query=True, every=True)))
    for k, T in comps.TABLE.items():
        n = T.n
        sf = (n - 1,) if T.symfit else ()
        for ty in ('int64', 'int16', 'uint8') + (('int',) if T.kind in ('post', 'stat', 'metric') else ()):
            J.append((run, dict(comp=k, n=n, ty=ty, symfit=sf, query=T.query, every=False)))
        if k not in ('knncad', 'random', 'aomens', 'moaens'):
            J.append((run, dict(comp=k, n=n + 2, ty='int64', symfit=(), query=False, every=True)))
            J.append((run, dict(comp=k, n=n + 2, ty='uint8', symfit=(), query=False, every=True)))
        if k in ('hst', 'hst_first', 'hst_init', 'iforest_init', 'loop', 'rshash', 'onefit', 'refwin_init'):
            for ty in ('int64', 'uint8'):
                J.append((ctor, dict(comp=k, n=n, ty=ty, symfit=sf)))
                J.append((ctor, dict(comp=k, n=n, ty=ty, symfit=sf, seed=9, mixed=True)))
        if T.kind not in ('stat', 'metric') and not T.pops:
            for ty in ('int64', 'uint8'):
                J.append((batch, dict(comp=k, n=n, ty=ty, symfit=sf)))
    for k, T in comps.TABLE.items():
        if T.kind == 'stat' and not k.startswith('Run') or k in ('ident', 'perfect', 'random'):
            continue
        for ty in ('int64', 'int32'):
            J.append((params, dict(comp=k, n=T.n, ty=ty, symfit=(T.n - 1,) if T.symfit else ())))
    return J
