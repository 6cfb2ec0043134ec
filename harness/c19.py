"""C19 half-space tree scores reflect the reference window's mass profile."""
import itertools
from harness.util import mine, series
FILES = ['pysad/models/half_space_trees.py']
NOTE = 'feature draws: all equal to one constant (exact oracle), or symbolic with the oracle existentially quantified over the tree structures'


def path(x, mins, maxes, depth, feat):
    """sequence of halves (0 lower, 1 upper) on the way of x; feat(prefix) is the feature split at that node"""
    mins, maxes = list(mins), list(maxes)
    p = ()
    for k in range(depth):
        f = feat(p)
        m = (maxes[f] + mins[f]) / 2.0
        if x[f] > m:
            mins[f] = m
            p += (1,)
        else:
            maxes[f] = m
            p += (0,)
    return p


def score(ref, q, mins, maxes, depth, feats):
    """feats: one feature function per tree"""
    s = 0
    for feat in feats:
        pq = path(q, mins, maxes, depth, feat)
        for v in ref:
            pv = path(v, mins, maxes, depth, feat)
            for k in range(depth + 1):
                if pv[:k] == pq[:k]:
                    s += 2 ** k
                else:
                    break
    return -s


def reference(vals, w):
    full = (len(vals) // w) * w
    return vals[full - w:full] if full else vals


def make(ctx, mins, maxes, w, trees, depth, init=None):
    H = ctx.mod('pysad.models.half_space_trees').HalfSpaceTrees
    k = {} if init is None else dict(initial_window_X=init)
    if w is not None:
        k['window_size'] = w
    return H(mins, maxes, num_trees=trees, max_depth=depth, **k)


def const(ctx, d, k, n, wmax, trees, depth, sym, each=False, symrange=False, init=0, npr=True):
    """every drawn feature is k"""
    ctx.draws_const(i=k)
    w = ctx.choice('w', wmax) + 1
    if symrange:
        mins = [ctx.real('lo%d' % j, -10, 10) for j in range(d)]
        maxes = [ctx.real('hi%d' % j, -10, 40) for j in range(d)]
        for a, b in zip(mins, maxes):
            ctx.assume(b - a >= 1)
    else:
        mins, maxes = ([-4.0, 0.0, 1.0] * d)[:d], ([4.0, 8.0, 2.0] * d)[:d]
    A = (lambda l: ctx.array(list(l), float)) if npr else list
    con = series(n * d + d)
    vals = []
    for i in range(n):
        v = con[i * d:(i + 1) * d]
        if i in sym:
            v[min(k, d - 1)] = ctx.real('x%d' % i)
        vals.append(v)
    m0, M0 = A(mins), A(maxes)
    m = make(ctx, m0, M0, w, trees, depth, ctx.array(vals[:init], float) if init else None)
    ctx.eq(m0, mins, 'the declared range is left unmodified')
    ctx.eq(M0, maxes, 'the declared range is left unmodified')
    fs = [lambda p: min(k, d - 1)] * trees
    for i in range(init, n):
        X = ctx.array(vals[i], float)
        ctx.check(m.fit_partial(X) is m, 'fit returns the model')
        ctx.eq(X, vals[i], 'the instance is left unmodified')
        if each and i < n - 1:
            ctx.eq(m.score_partial(X), score(reference(vals[:i + 1], w), vals[i], mins, maxes, depth, fs), 'mass profile of the reference window')
    q = con[:d]
    q[min(k, d - 1)] = ctx.real('q')
    e = score(reference(vals, w), q, mins, maxes, depth, fs)
    Q = ctx.array(q, float)
    ctx.eq(m.score_partial(Q), e, 'mass profile of the reference window')
    ctx.eq(m.score_partial(Q), e, 'scoring changes nothing')
    ctx.eq(Q, q, 'the instance is left unmodified')


def drawn(ctx, d, n, w, trees, depth, sym):
    """symbolic feature draws: some choice of split features explains all scores"""
    ctx.draws_sym()
    mins, maxes = [-4.0, 0.0, 1.0][:d], [4.0, 8.0, 2.0][:d]
    con = series(n * d + d)
    vals = []
    m = make(ctx, ctx.array(mins, float), ctx.array(maxes, float), w, trees, depth)
    got = []
    qs = [[-3.0, 7.0, 1.25][:d], [1.0, 1.0, 1.75][:d]]
    qs.append([ctx.real('q%d' % j) for j in range(d)])
    for i in range(n):
        v = con[i * d:(i + 1) * d]
        if i in sym:
            v[i % d] = ctx.real('x%d' % i)
        vals.append(v)
        m.fit_partial(ctx.array(v, float))
        if i == n - 1:
            for q in qs:
                got.append((list(vals), q, ctx.scalar(m.score_partial(ctx.array(q, float)))))
    nodes = [p for k in range(depth) for p in itertools.product((0, 1), repeat=k)]
    ok = []
    one = []
    for a in itertools.product(range(d), repeat=len(nodes)):
        fm = dict(zip(nodes, a))
        one.append([score(reference(h, w), q, mins, maxes, depth, [fm.__getitem__]) for h, q, r in got])
    for c in itertools.combinations_with_replacement(range(len(one)), trees):
        ok.append(ctx.both(*[sum(one[t][j] for t in c) == got[j][2] for j in range(len(got))]))
    ctx.check(ctx.either(*ok), 'some assignment of split features explains the scores')


def long(ctx, n, w, depth, defw=False):
    ctx.draws_const(i=0)
    mins, maxes = [-8.0], [8.0]
    m = make(ctx, ctx.array(mins, float), ctx.array(maxes, float), None if defw else w, 1, depth)
    con = series(n)
    vals = []
    for i in range(n):
        v = [ctx.real('x%d' % i) if i in (n - 1, (n // w) * w - 1) else con[i]]
        vals.append(v)
        m.fit_partial(ctx.array(v, float))
    q = [ctx.real('q')]
    ctx.eq(m.score_partial(ctx.array(q, float)), score(reference(vals, w), q, mins, maxes, depth, [lambda p: 0]), 'mass profile of the reference window')


def skewed(ctx, w, trees, depth):
    """almost all of the reference window lies in one leaf"""
    ctx.draws_const(i=0)
    m = make(ctx, ctx.array([0.0], float), ctx.array([1.0], float), w, trees, depth)
    vals = [[0.9]] * (w - 2) + [[0.1], [ctx.real('x', 0, 1)]]
    for v in vals:
        m.fit_partial(ctx.array(v, float))
    for q in ([0.1], [0.9], [0.4], [ctx.real('q', 0, 1)]):
        ctx.eq(m.score_partial(ctx.array(q, float)), score(vals, q, [0.0], [1.0], depth, [lambda p: 0] * trees), 'mass profile of the reference window')


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append((const, dict(d=1, k=0, n=4, wmax=4, trees=1, depth=2, sym=(2, 3))))
    J.append((const, dict(d=1, k=0, n=5, wmax=3, trees=2, depth=3, sym=(4,), each=True)))
    J.append((const, dict(d=1, k=0, n=6, wmax=3, trees=1, depth=4, sym=(5,) if q else (3, 5))))
    J.append((const, dict(d=2, k=1, n=5, wmax=3, trees=2, depth=2, sym=(3, 4))))
    J.append((const, dict(d=2, k=0, n=4, wmax=2, trees=1, depth=3, sym=(1, 3), each=True, npr=False)))
    J.append((const, dict(d=1, k=0, n=3, wmax=2, trees=1, depth=2, sym=(2,), symrange=True)))
    J.append((const, dict(d=1, k=0, n=5, wmax=4, trees=2, depth=2, sym=(1, 4), init=3)))
    J.append((const, dict(d=1, k=0, n=0, wmax=2, trees=2, depth=2, sym=())))
    J.append((const, dict(d=1, k=0, n=3, wmax=2, trees=3, depth=0, sym=(2,))))
    J.append((const, dict(d=1, k=0, n=3, wmax=2, trees=1, depth=1, sym=(0, 1, 2))))
    J.append((skewed, dict(w=30, trees=1, depth=3)))
    J.append((skewed, dict(w=250, trees=2, depth=4)))
    J.append((drawn, dict(d=2, n=3, w=3, trees=1, depth=2, sym=(2,))))
    J.append((drawn, dict(d=2, n=3, w=2, trees=2, depth=1, sym=(1, 2))))
    J.append((drawn, dict(d=3, n=4, w=2, trees=1, depth=1, sym=(3,))))
    J.append((const, dict(d=7, k=6, n=5, wmax=2, trees=2, depth=3, sym=(4,))))
    J.append((const, dict(d=13, k=9, n=5, wmax=3, trees=7, depth=5, sym=())))
    J.append((const, dict(d=2, k=1, n=7, wmax=3, trees=30, depth=4, sym=())))
    J.append((const, dict(d=1, k=0, n=3, wmax=2, trees=1, depth=7, sym=())))
    if not q:
        J.append((drawn, dict(d=2, n=4, w=2, trees=1, depth=2, sym=(1, 3))))
        J.append((const, dict(d=1, k=0, n=5, wmax=4, trees=1, depth=3, sym=(2, 3, 4))))
        J.append((const, dict(d=1, k=0, n=4, wmax=3, trees=1, depth=3, sym=(1, 3), symrange=True)))
        J.append((drawn, dict(d=2, n=3, w=2, trees=2, depth=2, sym=(2,))))
    for c in sorted(set([5] + mine(FILES, 3, 1100))):
        J.append((long, dict(n=2 * c + 1, w=c, depth=2)))
    return J
