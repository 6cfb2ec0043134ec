"""C26 KitNET respects its phases and partitions the features."""
import contextlib
import io
import math
from harness.util import mine, series
FILES = ['pysad/models/kitnet.py', 'pysad/models/kitnet_model/KitNET.py', 'pysad/models/kitnet_model/corClust.py', 'pysad/models/kitnet_model/dA.py']
NOTE = 'the dendrogram of the feature clustering is an arbitrary binary tree chosen by the solver; training data are concrete, data arriving in the frozen phase symbolic'


class Node:
    def __init__(self, id, left=None, right=None):
        self.id, self.left, self.right = id, left, right
        self.count = 1 if left is None else left.count + right.count
        self.dist = 0.0

    def is_leaf(self):
        return self.left is None

    def get_left(self):
        return self.left

    def get_right(self):
        return self.right

    def get_count(self):
        return self.count

    def get_id(self):
        return self.id

    def pre_order(self, func=lambda x: x.id):
        return [func(self)] if self.left is None else self.left.pre_order(func) + self.right.pre_order(func)


class Clust:
    """linkage returns a token, to_tree a dendrogram of that many leaves in a solver-chosen shape"""

    def __init__(self, ctx, n, shapes, swap=True):
        self.ctx, self.n, self.calls, self.shapes, self.swap = ctx, n, [], shapes, swap
        ctx.hook('scipy.cluster.hierarchy:linkage', self.linkage)
        ctx.hook('scipy.cluster.hierarchy:to_tree', self.to_tree)

    def linkage(self, y, *a, **k):
        v = [y[i] for i in range(len(y))]
        self.calls.append(v)
        n = self.n
        self.ctx.check(len(v) == n * (n - 1) // 2, 'one distance per pair of features')
        return ('Z', len(self.calls))

    def to_tree(self, Z, rd=False):
        cl = [Node(i) for i in range(self.n)]
        k = 0
        while len(cl) > 1:
            if self.shapes:
                i = self.ctx.choice('a%d' % k, len(cl))
                a = cl.pop(i)
                b = cl.pop(self.ctx.choice('b%d' % k, len(cl)))
            else:
                a, b = cl.pop(0), cl.pop(0)
            cl.append(Node(self.n + k, a, b))
            k += 1
        return cl[0]


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def corr(ctx, rows, d):
    """expected condensed correlation distances of the residuals to the running mean"""
    c = [0.0] * d
    C = [[0.0] * d for _ in range(d)]
    for t, x in enumerate(rows):
        c = [a + b for a, b in zip(c, x)]
        r = [x[j] - c[j] / (t + 1) for j in range(d)]
        for i in range(d):
            for j in range(d):
                C[i][j] = C[i][j] + r[i] * r[j]
    out = []
    for i in range(d):
        for j in range(i + 1, d):
            p = math.sqrt(C[i][i]) * math.sqrt(C[j][j])
            out.append(max(0.0, 1 - C[i][j] / (p if p else 1e-100)))
    return out


def fmap(ctx, d, m, n):
    """for every dendrogram the map is a partition into parts of at most m features"""
    cl = Clust(ctx, d, True)
    F = ctx.mod('pysad.models.kitnet_model.corClust')
    F = F.corClust(d) if hasattr(F, 'corClust') else None
    if not hasattr(F, 'update') or not hasattr(F, 'cluster'):
        ctx.check(True, 'internal class not there')
        return
    rows = [series(d, 3 * i + 1) for i in range(n)]
    for v in rows:
        F.update(ctx.array(v, float))
    mp = F.cluster(m)
    parts = [[int(j) for j in p] for p in mp]
    ctx.check(sorted(j for p in parts for j in p) == list(range(d)), 'every feature in exactly one autoencoder')
    ctx.check(all(1 <= len(p) <= max(m, 1) for p in parts), 'no autoencoder gets more than max_size_ae features')
    if d > 1:
        ctx.eq(cl.calls[-1], corr(ctx, rows, d), 'correlation distances')


def partition(ctx, k, d, m):
    """looks at the learnt map when it is where it is today (private state: not required)"""
    mp = getattr(getattr(k, 'model', None), 'v', None)
    if mp is None:
        return
    parts = [[int(j) for j in p] for p in mp]
    ctx.check(sorted(j for p in parts for j in p) == list(range(d)), 'every feature in exactly one autoencoder')
    ctx.check(all(1 <= len(p) <= max(m, 1) for p in parts), 'no autoencoder gets more than max_size_ae features')


def realmap(ctx, d, m, n, const=False):
    """real linkage on concrete data (incl. constant features)"""
    M = ctx.mod('pysad.models.kitnet').KitNet
    k = M(max_size_ae=m, grace_feature_mapping=n, grace_anomaly_detector=2)
    rows = [series(d, 3 * i + 1) for i in range(n + 4)]
    for v in rows:
        if const:
            v[0] = 2.0
            v[-1] = v[-1] if len(v) < 2 else v[0] * 0.5
        r = quiet(k.fit_score_partial, ctx.array(v, float))
        ctx.check(ctx.isfinite(r), 'every score is finite')
    partition(ctx, k, d, m)


def phases(ctx, d, m, fmax, amax, extra, none=False, fmin=0, amin=0, reads=True, symrow=False, kw=None):
    """phases for symbolic grace periods; frozen phase driven with symbolic instances"""
    cl = Clust(ctx, d, False)
    fm = fmin + ctx.choice('fm', fmax - fmin + 1)
    ad = amin + ctx.choice('ad', amax - amin + 1)
    M = ctx.mod('pysad.models.kitnet').KitNet
    if none:
        fm = ad
    k = M(max_size_ae=m, grace_feature_mapping=None if none else fm, grace_anomaly_detector=ad, **(kw or {}))
    probes = [[0.25 + 0.5 * j for j in range(d)], [3.0 - j for j in range(d)]]

    def look():
        return [ctx.scalar(quiet(k.score_partial, ctx.array(p, float))) for p in probes]
    n1, n2 = fm + 1, fm + ad + 1
    prev = None
    rows = []
    for t in range(1, n2 + 1):
        v = series(d, 5 * t)
        v = [a * 0.25 + (0.125 * t if j == 0 else 0) for j, a in enumerate(v)]
        rows.append(v)
        X = ctx.array(v, float)
        ctx.check(quiet(k.fit_partial, X) is k, 'fit returns the model')
        ctx.eq(X, v, 'the instance is left unmodified')
        ctx.check(len(cl.calls) == (1 if t >= n1 and d > 1 else 0), 'the feature map is learnt exactly from the first instances')
        if t == n1 and d > 1:
            ctx.eq(cl.calls[0], corr(ctx, rows, d), 'correlation distances of the first instances')
        if not reads and t < n2:
            continue
        s = look()
        for r in s:
            ctx.check(ctx.isfinite(r), 'every score is finite')
        if t <= n1:
            ctx.eq(s, [0.0] * len(s), 'scores 0 until the autoencoders exist')
        else:
            ctx.check(all(r > 0 for r in s), 'trained autoencoders score')
            ctx.check(prev is None or any(a != b for a, b in zip(s, prev)), 'every instance of the second phase trains the autoencoders')
        prev = s
    partition(ctx, k, d, m)
    final = look()
    ctx.eq(final, prev, 'scoring changes nothing')
    for t in range(extra):
        v = [ctx.real('x%d_%d' % (t, j), -1000, 1000) if j == t % d or symrow else 0.5 * t - j for j in range(d)]
        X = ctx.array(v, float)
        if ctx.flag('score%d' % t):
            quiet(k.score_partial, X)
        else:
            quiet(k.fit_partial, X)
        ctx.eq(X, v, 'the instance is left unmodified')
        ctx.eq(look(), final, 'frozen: nothing changes later scores')
    for t in range(6):
        v = [100.0 * t - 7 * j for j in range(d)]
        quiet(k.fit_score_partial, ctx.array(v, float))
    ctx.eq(look(), final, 'frozen: nothing changes later scores')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for d in (1, 2, 3, 4):
        for m in (1, 2, 3):
            J.append((fmap, dict(d=d, m=m, n=3)))
    J.append((fmap, dict(d=3, m=0, n=2)))
    J.append((fmap, dict(d=3, m=10, n=2)))
    J.append((fmap, dict(d=5, m=2, n=2), dict(max_paths=20000)) if not q else (fmap, dict(d=4, m=4, n=1)))
    for d, m in ((1, 10), (2, 1), (3, 2), (7, 3), (12, 10), (25, 4)):
        J.append((realmap, dict(d=d, m=m, n=9)))
    J.append((realmap, dict(d=5, m=2, n=6, const=True)))
    J.append((phases, dict(d=3, m=2, fmax=3, amax=3, extra=2)))
    J.append((phases, dict(d=2, m=1, fmax=2, amax=2, extra=2, fmin=1, amin=1, reads=False)))
    J.append((phases, dict(d=1, m=3, fmax=2, amax=2, extra=1)))
    J.append((phases, dict(d=4, m=3, fmax=0, amax=3, extra=2, none=True, amin=1)))
    J.append((phases, dict(d=2, m=2, fmax=1, amax=1, extra=2, fmin=1, amin=1, symrow=True, kw=dict(learning_rate=0.5, hidden_ratio=0.5))))
    J.append((phases, dict(d=11, m=4, fmax=4, amax=3, extra=2, fmin=3, amin=3)))
    if not q:
        J.append((phases, dict(d=5, m=2, fmax=6, amax=6, extra=3)))
    for c in sorted(set([15] + mine(FILES, 3, 1100))):
        J.append((phases, dict(d=2, m=2, fmax=c, amax=c, extra=1, fmin=c - 1, amin=c)))
    return J
