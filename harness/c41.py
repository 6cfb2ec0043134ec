"""C41: windowed components forget: their results depend on the latest instances only."""
from harness.util import series, mine
from harness import comps
NOTE = 'a windowed component is driven by a symbolic prefix and then by a suffix that covers its window; a second one (same seed) by the suffix alone; prefix length (a multiple of the block length where the component works in blocks) chosen by the solver; third-party detectors, trees and decompositions are stand-ins'
S = 'pysad.statistics'

# component: (instances that determine the result, block length to keep aligned)
MEM = {
    'storm': (3, 1), 'hst': (4, 2), 'iforest': (2, 2), 'loda': (1, 1), 'null': (1, 1), 'rrcf': (3, 1), 'sesd': (5, 1), 'shesd': (5, 1),
    'xstream': (6, 2), 'onefit': (1, 1), 'loop': (1, 1), 'refwin': (4, 2), 'streamhash': (1, 1), 'unit': (1, 1), 'std': (1, 1), 'ident': (1, 1), 'stl': (5, 1),
    'ravgpp': (3, 1), 'rmaxpp': (3, 1), 'rmedpp': (3, 1), 'rzpp': (3, 1), 'conf': (3, 1), 'gauss': (3, 1), 'avgens': (1, 1), 'maxens': (1, 1), 'medens': (1, 1),
}
for _n in ('AverageMeter', 'CountMeter', 'MaxMeter', 'MedianMeter', 'MinMeter', 'SumMeter', 'SumSquaresMeter', 'VarianceMeter'):
    MEM['Run' + _n] = (3, 1)
OWN = {
    'storm1': comps.C('pysad.models.exact_storm', lambda c, m: m.ExactStorm(window_size=2, max_radius=3.0), d=1),
    'refwin43': comps.C('pysad.models.integrations.reference_window_model', lambda c, m: m.ReferenceWindowModel(comps.Det(c), 4, 3), d=2, n=6, first=4),
    'hst3': comps.C('pysad.models.half_space_trees', lambda c, m: m.HalfSpaceTrees(*comps._unit(c, 2), window_size=3, num_trees=2, max_depth=2), d=2, lo=0, hi=1, symfit=False),
    'hst4': comps.C('pysad.models.half_space_trees', lambda c, m: m.HalfSpaceTrees(*comps._unit(c, 2), window_size=4, num_trees=3, max_depth=5), d=2, lo=0, hi=1, symfit=False),
    'xstream5': comps.C('pysad.models.xstream', lambda c, m: m.xStream(num_components=3, n_chains=3, depth=4, window_size=5), d=3, symfit=False),
}
MEM.update({'hst4': (8, 4), 'xstream5': (15, 5)})
MEM.update({'storm1': (2, 1), 'refwin43': (6, 3), 'hst3': (6, 3)})
HEAVY = ('sesd', 'shesd', 'xstream', 'hst', 'hst3', 'hst4', 'xstream5', 'loda', 'rrcf', 'rzpp', 'gauss', 'RunVarianceMeter')


def table(comp):
    return OWN.get(comp) or comps.TABLE[comp]


def values(T, n, k, far):
    """far: the forgotten part lies far outside what follows (bounded features: in one small region)"""
    c = series(n * T.d, k)
    if T.lo is not None:
        c = [T.lo + (T.hi - T.lo) * ((10.0 + (i * 7 + k) % 4 / 16.0) / 16.0 if far else ((i * 7 + k) % 16) / 16.0) for i in range(n * T.d)]
    elif far:
        c = [v * 1000.0 for v in c]
    return [c[i * T.d:(i + 1) * T.d] for i in range(n)]


def drive(ctx, T, pre, suf, ys, need, q, seed):
    ctx.seed(seed)
    o = T.make(ctx)
    for i, v in enumerate(pre):
        a = T.arg(ctx, v)
        T.fit(o, a, i % 2 if T.labels else None)
        if i % 3 == 0 and i + 1 >= T.first and (T.kind != 'model' or T.symfit):
            T.read(o, a)
    out = []
    for i, v in enumerate(suf):
        a = T.arg(ctx, v)
        T.fit(o, a, ys[i] if T.labels else None)
        if i + 1 >= max(need, 1):
            r = T.read(o, a)
            out.append(r.copy() if getattr(r, 'shape', ()) else r)
            for w in q:
                r = T.read(o, T.arg(ctx, w))
                out.append(r.copy() if getattr(r, 'shape', ()) else r)
    return out


def run(ctx, comp, plens, extra, presym, sufsym, query, far, seed=9):
    T = table(comp)
    comps.install(ctx)
    need, block = MEM[comp]
    k = plens[ctx.choice('prefix', len(plens))] * block
    pre = values(T, k, 3, far)
    for i in presym:
        if i < k:
            pre[i][i % T.d] = ctx.real('p%d' % i, T.lo, T.hi)
    suf = values(T, need + extra, 11, False)
    for i in sufsym:
        suf[i][i % T.d] = ctx.real('x%d' % i, T.lo, T.hi)
    ys = [(i // 2) % 2 for i in range(need + extra)]
    q = []
    if query and T.kind not in ('stat',):
        q = [list(suf[0])] + ([list(pre[-1])] if far else [])
        near = comp.startswith('xstream')       # every value of q gives its own cells: stay near an instance
        q[0][0] = ctx.real('q', q[0][0] - 1 if near else T.lo, q[0][0] + 1 if near else T.hi)
    e = drive(ctx, T, [], suf, ys, need, q, seed)
    g = drive(ctx, T, pre, suf, ys, need, q, seed)
    ctx.check(len(e) == len(g), 'as many results')
    for a, b in zip(g, e):
        ctx.eq(a, b, 'what left the window no longer matters', tol=1e-6)


def jobs(tier):
    J = []
    deep = tier != 'quick'
    for k in MEM:
        T = table(k)
        need, block = MEM[k]
        heavy = k in HEAVY
        J.append((run, dict(comp=k, plens=(1, 2, 3, 5), extra=2, presym=() if heavy else (0,), sufsym=() if heavy else (need - 1,), query=T.query, far=False)))
        J.append((run, dict(comp=k, plens=(1, 4, 13, 40), extra=1, presym=(), sufsym=(), query=T.query, far=True)))
        if not heavy or deep:
            J.append((run, dict(comp=k, plens=(2, 3), extra=1, presym=(0, 1), sufsym=(0,), query=False, far=False)))
        if T.symfit and T.kind in ('stat', 'post'):
            J.append((run, dict(comp=k, plens=(60,), extra=0, presym=(7, 58), sufsym=(), query=False, far=True)))
    return J
