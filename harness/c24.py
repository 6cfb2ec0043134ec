"""C24 random cut forest holds exactly the most recent tree_size instances."""
from harness.util import mine, series
FILES = ['pysad/models/robust_random_cut_forest.py']
NOTE = 'rrcf trees are stand-ins that hold the points and return a symbolic displacement depending on the tree, its contents and the point'


class Leaf:
    def __init__(self, x, i):
        self.x, self.i, self.n, self.d = x, i, 1, 0


class Forest:
    def __init__(self, ctx):
        self.ctx, self.trees = ctx, []

    def make(self, *a, **k):
        t = Tree(self, len(self.trees))
        self.trees.append(t)
        return t

    def disp(self, k, pts, x):
        """collusive displacement stand-in: depends on the tree, on everything held and on the point"""
        c = self.ctx
        s = 0
        for p in pts:
            s = s + 0.5 * p[0] + 2.0 * sum(p[1:])
        return (c.real('t%d' % k) if k < 2 else 1.5 * k) + 3.0 * x[0] + s * (k + 1) + 7.0 * len(pts)


class Tree:
    def __init__(self, f, k):
        self.f, self.k, self.leaves, self.root, self.ndim = f, k, {}, None, None

    def pts(self):
        return [l.x for l in self.leaves.values()]

    def insert_point(self, point, index, tolerance=None):
        if index in self.leaves:
            raise KeyError('Index already exists in leaves dict.')
        x = point   # rrcf's leaves refer to the array they were given
        dup = self.find_duplicate(x, tolerance) if tolerance is not None else None
        l = Leaf(dup.x if dup is not None else x, index)
        self.leaves[index] = l
        self.root = self.root or l
        return l

    def forget_point(self, index):
        if index not in self.leaves:
            raise KeyError('Leaf must be a key to self.leaves')
        return self.leaves.pop(index)

    def find_duplicate(self, point, tolerance=None):
        for l in self.leaves.values():
            if tolerance is None:
                same = all(bool(a == b) for a, b in zip(l.x, point))
            else:
                same = all(bool(abs(a - b) <= 1e-8 + tolerance * abs(b)) for a, b in zip(l.x, point))
            if same:
                return l
        return None

    def codisp(self, leaf):
        if not isinstance(leaf, Leaf):
            leaf = self.leaves[leaf]
        return self.f.disp(self.k, self.pts(), leaf.x)

    disp = None


def run(ctx, trees, tmax, d, n, symx, each, tmin=1, defaults=False, anyq=True):
    F = Forest(ctx)
    ctx.hook('rrcf:RCTree', F.make)
    size = tmin + ctx.choice('tree_size', tmax - tmin + 1)
    M = ctx.mod('pysad.models.robust_random_cut_forest').RobustRandomCutForest
    m = M(num_trees=trees, tree_size=size)
    con = series(n * d + d, 2)
    rows = []

    def holding(msg):
        ts = [t for t in F.trees if t.leaves]
        ctx.check(len(ts) == trees, 'as many trees as configured')
        for t in ts:
            ctx.eq(t.pts(), rows[-size:], msg)

    def score(q, msg):
        ks = [t.k for t in F.trees if t.leaves]
        held = rows[-size:]
        dup = any(all(bool(a == b) for a, b in zip(r, q)) for r in held)
        pts = held if dup else held + [q]
        e = ctx.sum([F.disp(k, pts, q) for k in ks]) / trees
        Q = ctx.array(q, float)
        ctx.eq(m.score_partial(Q), e, msg)
        ctx.eq(Q, q, 'the instance is left unmodified')
        holding('scoring leaves the trees as they were')

    for i in range(n):
        v = con[i * d:(i + 1) * d]
        if i in symx:
            v[i % d] = ctx.real('x%d' % i)
        rows.append(v)
        X = ctx.array(v, float)
        if ctx.flag('lab%d' % i) if i == 0 else False:
            r = m.fit_partial(X, 1)
        else:
            r = m.fit_partial(X)
        ctx.check(r is m, 'fit returns the model')
        ctx.eq(X, v, 'the instance is left unmodified')
        if each or i == n - 1:
            holding('exactly the most recent tree_size instances')
            if each:
                score(v, 'average displacement of a held point')
    if anyq:
        q = con[-d:]
        q[0] = ctx.real('q')
        score(q, 'average displacement')
        score(q, 'scoring changes nothing')
    else:
        q = con[-d:]
        q[0] = ctx.real('q', 100, 200)
        score(q, 'average displacement')
    score(rows[-1], 'average displacement of a held point')


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append((run, dict(trees=2, tmax=3, d=1, n=4, symx=(1, 3), each=True)))
    J.append((run, dict(trees=1, tmax=4, d=2, n=5, symx=(4,), each=True)))
    J.append((run, dict(trees=3, tmax=2, d=1, n=3, symx=(0, 1, 2), each=False)))
    J.append((run, dict(trees=4, tmax=6, tmin=4, d=2, n=13, symx=(12,), each=False)))
    J.append((run, dict(trees=9, tmax=5, tmin=4, d=7, n=11, symx=(10,), each=False)))
    if not q:
        J.append((run, dict(trees=2, tmax=5, d=1, n=7, symx=(1, 3, 6), each=True)))
        J.append((run, dict(trees=2, tmax=4, d=2, n=5, symx=(0, 1, 2, 3, 4), each=False)))
    for c in sorted(set([20] + mine(FILES, 3, 1100))):
        J.append((run, dict(trees=1, tmax=c + 1, tmin=c, d=1, n=2 * c + 2, symx=(), each=False, anyq=c < 10)))
        J.append((run, dict(trees=2, tmax=3, tmin=2, d=1, n=c + 3, symx=(c + 2,), each=False, anyq=c < 10)))
    return J
