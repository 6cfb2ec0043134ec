"""C13 instance scalers normalise each instance independently."""
NAMES = {'id': ('identity_scaler', 'IdentityScaler'), 'std': ('instance_standard_scaler', 'InstanceStandardScaler'),
         'unit': ('instance_unit_norm_scaler', 'InstanceUnitNormScaler')}


def make(ctx, kind, p):
    P = ctx.mod('pysad.transform.preprocessing')
    c = getattr(P, NAMES[kind][1])
    return c() if p is None else c(pow=float('inf') if p == 'inf' else float('-inf') if p == '-inf' else p)


def expected(ctx, kind, p, l):
    if kind == 'id':
        return l
    if kind == 'std':
        v = ctx.pvar(l)
        ctx.assume(v > (1e-3 if ctx.concrete else 0))
        m, s = ctx.mean(l), ctx.sqrt(v)
        return [(x - m) / s for x in l]
    a = [ctx.ite(x >= 0, x, -x) for x in l]
    if p in (None, 2):
        v = ctx.sum([x * x for x in l])
        ctx.assume(v > (1e-3 if ctx.concrete else 0))
        nrm = ctx.sqrt(v)
    elif p == 1:
        nrm = ctx.sum(a)
    elif p == 'inf':
        nrm = ctx.max(a)
    elif p == '-inf':
        nrm = ctx.min(a)
    elif p == 3:
        ctx.assume(ctx.either(l[0] > 0.5, l[0] < -0.5))
        nrm = ctx.powf(ctx.sum([x * x * x for x in a]), 1 / 3)
    ctx.assume(nrm > (1e-3 if ctx.concrete else 0))
    return [x / nrm for x in l]


def scale(ctx, kind, p, d, hist):
    """hist: what happened before: fits and transforms of other instances"""
    m = make(ctx, kind, p)
    for i, h in enumerate(hist):
        z = ctx.vec('z%d' % i, d)
        if kind != 'id':
            ctx.assume(ctx.either(z[0] > 1, z[0] < -1))
            if kind == 'std':
                ctx.assume(ctx.either(z[0] - z[d - 1] > 1, z[0] - z[d - 1] < -1))
            if p == '-inf':
                ctx.assume(ctx.both(*[ctx.either(v > 1, v < -1) for v in list(z)]))
        if h == 'f':
            ctx.check(m.fit_partial(z) is m, 'fit returns the scaler')
        elif h == 't':
            m.transform_partial(z)
        else:
            m.fit_transform_partial(z)
    x = ctx.vec('x', d)
    x0 = x.copy()
    e = expected(ctx, kind, p, list(x0))
    ctx.eq(m.transform_partial(x), e, 'normalised instance', shape=True)
    ctx.eq(x, x0, 'the input is left unmodified')
    ctx.eq(m.fit_transform_partial(x), e, 'fit_transform gives the same normalised instance', shape=True)
    ctx.eq(x, x0, 'the input is left unmodified')


def batch(ctx, kind, p, d):
    """rows of one batch do not influence each other"""
    X = ctx.mat('x', 2, d)
    m = make(ctx, kind, p)
    e = [expected(ctx, kind, p, list(X[i])) for i in range(2)]
    ctx.eq(m.fit_transform(X), e, 'every row is normalised on its own', shape=True)


def wide(ctx, kind, p, d):
    """more features, three of them symbolic"""
    m = make(ctx, kind, p)
    l = [ctx.real('x%d' % i) if i in (0, d // 2, d - 1) else float((i * 5) % 7 - 3) for i in range(d)]
    if p == '-inf':
        l = [v if not isinstance(v, float) or ctx.concrete else v + 0.5 for v in l]
    x = ctx.array(l, float)
    e = expected(ctx, kind, p, list(x))
    ctx.eq(m.transform_partial(x), e, 'normalised instance', shape=True)


def after(ctx, kind, p, k):
    """a long history of other instances has no effect"""
    m = make(ctx, kind, p)
    for i in range(k):
        z = ctx.array([1.0 + (i * 3) % 5, -2.5 + i % 4], float)
        if i % 4 == 1:
            m.transform_partial(z)
        elif i % 2:
            m.fit_transform_partial(z)
        else:
            m.fit_partial(z)
    x = ctx.vec('x', 2)
    x0 = list(x)
    ctx.eq(m.transform_partial(x), expected(ctx, kind, p, x0), 'normalised instance', shape=True)


def jobs(tier):
    q = tier == 'quick'
    from harness.util import mine
    J = []
    for kind, ps in (('id', [None]), ('std', [None]), ('unit', [None, 1, 2, 'inf', '-inf', 3])):
        for p in ps:
            for d in (1, 2, 3) if q else (1, 2, 3, 4):
                if kind == 'std' and d == 1:
                    continue
                for hist in ('', 'ft', 'bb') if d == 2 else ('',) if q else ('', 'b'):
                    J.append((scale, dict(kind=kind, p=p, d=d, hist=hist)))
            if True:
                for c in sorted(set([12] + [c + 1 for c in mine(['pysad/transform/preprocessing/%s.py' % NAMES[kind][0], 'pysad/core/base_transformer.py'], 4, 1100)])):
                    J.append((after, dict(kind=kind, p=p, k=c)))
                J.append((batch, dict(kind=kind, p=p, d=2)))
                if p not in ('-inf', 3):
                    for c in sorted(set([8] + [c + 1 for c in mine(['pysad/transform/preprocessing/%s.py' % NAMES[kind][0]], 4, 1100)])):
                        J.append((wide, dict(kind=kind, p=p, d=c)))
    return J
