"""C39: finite streams give finite results."""
from harness.util import series
from harness import comps
from harness.c29 import rows_of, labels
NOTE = 'every component is driven by symbolic degenerate streams (constant streams of an arbitrary value, constant streams with symbolic departures, constant features, the ends of the range) and general ones; every result read must be a finite number; third-party detectors, trees and decompositions are stand-ins'
M = 'pysad.models.'
OWN = {
    # a feature that never varies
    'rshash_flat': comps.C(M + 'rs_hash', lambda c, m: m.RSHash(c.array([0.0, 2.0], float), c.array([1.0, 2.0], float), num_components=2), d=2, n=3, lo=0, hi=2, symfit=False, first=1),
    'hst_flat': comps.C(M + 'half_space_trees', lambda c, m: m.HalfSpaceTrees(c.array([0.0, 2.0], float), c.array([1.0, 2.0], float), window_size=2, num_trees=2, max_depth=2), d=2, n=4, lo=0, hi=2, symfit=False),
    'unit3': comps.C('pysad.transform.preprocessing.instance_unit_norm_scaler', lambda c, m: m.InstanceUnitNormScaler(pow=3), d=2, kind='trans', first=0),
    'unitz': comps.C('pysad.transform.preprocessing.instance_unit_norm_scaler', lambda c, m: m.InstanceUnitNormScaler(), d=2, kind='trans', first=0),
    'unitz1': comps.C('pysad.transform.preprocessing.instance_unit_norm_scaler', lambda c, m: m.InstanceUnitNormScaler(pow=1), d=2, kind='trans', first=0),
    'stdone': comps.C('pysad.transform.preprocessing.instance_standard_scaler', lambda c, m: m.InstanceStandardScaler(), d=1, n=3, kind='trans', first=0),
}


def table(comp):
    return OWN.get(comp) or comps.TABLE[comp]


def finite(ctx, v, what):
    if getattr(v, 'shape', ()):
        l = list(v.reshape(-1))
        for x in l:
            ctx.check(ctx.isfinite(x), what)
    elif isinstance(v, (list, tuple)):
        for x in v:
            finite(ctx, x, what)
    else:
        ctx.check(ctx.isfinite(v), what)


def drive(ctx, T, rows, ys, q, seed):
    comps.install(ctx)
    ctx.seed(seed)
    o = T.make(ctx)
    for i, v in enumerate(rows):
        a = T.arg(ctx, v)
        T.fit(o, a, ys[i] if T.labels else None)
        if i + 1 >= T.first and (i + 1) % T.step == 0:
            finite(ctx, T.read(o, a), 'every result is finite')
    for v in q:
        if not T.pops:
            finite(ctx, T.read(o, T.arg(ctx, v)), 'every result is finite')


def const(ctx, comp, n, query, seed=3):
    """one arbitrary instance again and again"""
    T = table(comp)
    v = [ctx.real('v%d' % j, T.lo, T.hi) for j in range(T.d)]
    if T.kind == 'metric':
        v = [float(ctx.choice('v', 2))]
    q = []
    if query and T.kind not in ('stat', 'metric'):
        q = [list(v)]
        q[0][-1] = ctx.real('q', T.lo, T.hi)
    drive(ctx, T, [v] * n, [i % 2 for i in range(n)], q, seed)


def depart(ctx, comp, n, c, pos, query, seed=4):
    """a constant stream of a special value with arbitrary departures"""
    T = table(comp)
    rows = [[c] * T.d for _ in range(n)]
    for i in pos:
        if T.kind == 'metric':
            rows[i][0] = float(ctx.choice('s%d' % i, 2))
        else:
            rows[i][i % T.d] = ctx.real('x%d' % i, T.lo, T.hi)
    q = []
    if query and T.kind not in ('stat', 'metric'):
        q = [[c] * T.d]
        q[0][0] = ctx.real('q', T.lo, T.hi)
    drive(ctx, T, rows, labels(T, n), q, seed)


def general(ctx, comp, n, symfit, seed=6):
    T = table(comp)
    drive(ctx, T, rows_of(ctx, T, n, symfit), labels(T, n), [], seed)


ODD = (0.1, 0.6027633760716439, 437.5872112626925, -36.824153984054796, 1e-7 / 3, 0.7)    # sums of these are rounded


def divisor(ctx, comp, n, d, odd=False):
    """what is reported where the deviation or norm is 0"""
    if comp in ('zpp', 'rzpp'):
        m = ctx.mod('pysad.transform.postprocessing')
        o = m.ZScorePostprocessor() if comp == 'zpp' else m.RunningZScorePostprocessor(n)
        v = ODD[ctx.choice('v', len(ODD))] if odd else ctx.int('v', -8, 8)
        s = ctx.real('s', -1000, 1000)
        if comp == 'rzpp':
            for w in (4.0, 9.0, 5.0):
                o.fit_partial(w)
        for i in range(n):
            o.fit_partial(1.0 * v)
            if comp == 'zpp':
                ctx.eq(ctx.scalar(o.transform_partial(s)), s - v, 'the distance while all scores are equal')
        ctx.eq(ctx.scalar(o.transform_partial(s)), s - v, 'the distance while all scores are equal')
    elif comp == 'std':
        o = ctx.mod('pysad.transform.preprocessing').InstanceStandardScaler()
        v = ODD[ctx.choice('v', len(ODD))] if odd else ctx.int('v', -8, 8)
        ctx.eq(o.fit_transform_partial(ctx.array([1.0 * v] * d, float)), [0.0] * d, 'equal features become zeros')
    else:
        m = ctx.mod('pysad.transform.preprocessing')
        o = m.InstanceUnitNormScaler(pow=comp)
        if n > 1:
            o.fit_partial(ctx.vec('x', d))
        v = ctx.real('v', -1, 1)
        r = o.fit_transform_partial(ctx.array([v - v if ctx.flag('diff') else 0.0] * d, float))
        ctx.eq(r, [0.0] * d, 'a zero instance stays as it is')


def jobs(tier):
    J = []
    for k in list(comps.TABLE) + list(OWN):
        T = table(k)
        n = T.n
        if k != 'knncad':
            J.append((const, dict(comp=k, n=n, query=T.query)))
        lo, hi = (T.lo, T.hi) if T.lo is not None else (0.0, 1.0)
        if T.kind == 'metric':
            lo, hi = 0.0, 1.0
        for c in (float(lo), float(hi)) + ((-3.0,) if T.lo is None else ()):
            J.append((depart, dict(comp=k, n=n, c=c, pos=(), query=T.query)))
            J.append((depart, dict(comp=k, n=n, c=c, pos=(n - 1,), query=False)))
            if n < 20 and tier != 'quick':
                J.append((depart, dict(comp=k, n=n + 3, c=c, pos=(n // 2,), query=True)))
                J.append((depart, dict(comp=k, n=n, c=c, pos=(0, n - 1), query=False)))
        J.append((general, dict(comp=k, n=n + 1 if T.step == 1 else n, symfit=(n - 1,) if T.symfit else ())))
    for k, n, d in (('zpp', 3, 0), ('rzpp', 2, 0), ('rzpp', 3, 0), ('std', 1, 1), ('std', 1, 3), (1, 1, 2), (2, 1, 2), (2, 2, 1), (3, 1, 3)):
        J.append((divisor, dict(comp=k, n=n, d=d)))
    for k, n, d in (('zpp', 25, 0), ('rzpp', 3, 0), ('rzpp', 20, 0), ('std', 1, 3), ('std', 1, 7)):
        J.append((divisor, dict(comp=k, n=n, d=d, odd=True)))
    return J
