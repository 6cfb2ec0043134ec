"""C35 KitNET scores are the reconstruction errors of its two autoencoder layers."""
import math
from harness.util import mine, series
from harness.c26 import Clust, quiet
FILES = ['pysad/models/kitnet.py', 'pysad/models/kitnet_model/KitNET.py', 'pysad/models/kitnet_model/dA.py', 'pysad/models/kitnet_model/utils.py']
NOTE = 'the dendrogram of the feature clustering is a fixed binary tree per job; exp is an arbitrary positive increasing function; the starting weights are the real ones of the fixed seed'


class AE:
    """reference: a tied-weight autoencoder with min-max normalised input"""

    def __init__(self, ctx, n, lr, hr):
        import numpy as np
        self.ctx, self.n, self.lr, self.h = ctx, n, lr, int(math.ceil(n * hr))
        self.W = np.random.RandomState(1234).uniform(low=-1.0 / n, high=1.0 / n, size=(n, self.h)).tolist()
        self.hb, self.vb = [0.0] * self.h, [0.0] * n
        self.lo = self.hi = None

    def sig(self, v):
        try:
            return 1.0 / (1.0 + self.ctx.fn('exp', -v))
        except OverflowError:
            return 0.0

    def norm(self, x):
        return [(a - l) / (h - l + 1e-16) for a, l, h in zip(x, self.lo, self.hi)]

    def both(self, x):
        s, n, h = self.ctx.sum, self.n, self.h
        y = [self.sig(s([x[i] * self.W[i][k] for i in range(n)]) + self.hb[k]) for k in range(h)]
        return y, [self.sig(s([y[k] * self.W[i][k] for k in range(h)]) + self.vb[i]) for i in range(n)]

    def rmse(self, e):
        return self.ctx.sqrt(self.ctx.sum([a * a for a in e]) / len(e))

    def train(self, x):
        c, n, h = self.ctx, self.n, self.h
        if self.lo is None:
            self.lo, self.hi = list(x), list(x)
        else:
            self.lo = [b if b < a else a for a, b in zip(self.lo, x)]
            self.hi = [b if b > a else a for a, b in zip(self.hi, x)]
        x = self.norm(x)
        y, z = self.both(x)
        e2 = [a - b for a, b in zip(x, z)]
        e1 = [c.sum([e2[i] * self.W[i][k] for i in range(n)]) * y[k] * (1 - y[k]) for k in range(h)]
        self.W = [[self.W[i][k] + self.lr * (x[i] * e1[k] + e2[i] * y[k]) for k in range(h)] for i in range(n)]
        m1, m2 = c.mean(e1), c.mean(e2)
        self.hb = [b + self.lr * m1 for b in self.hb]
        self.vb = [b + self.lr * m2 for b in self.vb]
        return self.rmse(e2)

    def execute(self, x):
        if self.lo is None:
            return 0.0
        x = self.norm(x)
        return self.rmse([a - b for a, b in zip(x, self.both(x)[1])])


def parts(node, m):
    if node.count <= m:
        return [node.pre_order()]
    return parts(node.left, m) + parts(node.right, m)


def run(ctx, d, m, fm, ad, kw=None, symtrain=(), symq=(0,), after=1, mid=True):
    """the score of any instance, after training on the first fm + ad + 1 instances"""
    kw = kw or {}
    cl = Clust(ctx, d, False)
    k = ctx.mod('pysad.models.kitnet').KitNet(max_size_ae=m, grace_feature_mapping=fm, grace_anomaly_detector=ad, **kw)
    lr, hr = kw.get('learning_rate', 0.1), kw.get('hidden_ratio', 0.75)
    mp = parts(cl.to_tree(None), max(1, min(m, d))) if d > 1 else [[0]]
    ens = [AE(ctx, len(p), lr, hr) for p in mp]
    out = AE(ctx, len(mp), lr, hr)

    def score(q, msg):
        e = out.execute([a.execute([q[j] for j in p]) for a, p in zip(ens, mp)])
        Q = ctx.array(q, float)
        ctx.eq(ctx.scalar(quiet(k.score_partial, Q)), e, msg)
        ctx.eq(Q, q, 'the instance is left unmodified')
    for t in range(fm + ad + 1 + after):
        v = [a * 0.5 for a in series(d, 5 * t + 2)]
        if t - fm - 1 in symtrain:
            # strictly inside the range its autoencoder has seen, so that the input normalisation stays concrete
            j = t % d
            a, p = [(a, p) for a, p in zip(ens, mp) if j in p][0]
            i = p.index(j)
            v[j] = ctx.real('x%d' % t, float(a.lo[i]) + 1e-3, float(a.hi[i]) - 1e-3)
        quiet(k.fit_partial, ctx.array(v, float))
        if fm < t <= fm + ad:
            r = [a.train([v[j] for j in p]) for a, p in zip(ens, mp)]
            out.train(r)
        if mid and t > fm and not symtrain:
            score([0.5 - 0.25 * j for j in range(d)], 'root mean square error of the output layer')
    q = [0.75 - 0.5 * j for j in range(d)]
    for j in symq:
        q[j] = ctx.real('q%d' % j, -4, 4)
    score(q, 'root mean square error of the output layer')
    score(q, 'scoring changes nothing')


def layer(ctx, n, pre, kw):
    """one autoencoder (where it is today): a training step on a symbolic instance within the range seen so far"""
    A = ctx.mod('pysad.models.kitnet_model.dA')
    if not all(hasattr(A, a) for a in ('dA', 'dA_params')) or not all(hasattr(A.dA, a) for a in ('train', 'execute')):
        ctx.check(True, 'internal class not there')
        return
    lr, hr = kw
    a = A.dA(A.dA_params(n_visible=n, n_hidden=0, lr=lr, corruption_level=0, gracePeriod=0, hiddenRatio=hr))
    e = AE(ctx, n, lr, hr)
    for t in range(pre + 1):
        v = [b * 0.5 for b in series(n, 5 * t + 2)]
        if t == pre:
            v[0] = ctx.real('x', e.lo[0] + 1e-3, e.hi[0] - 1e-3)
        ctx.eq(ctx.scalar(a.train(ctx.array(v, float))), e.train(v), 'error before the training step')
    q = [0.25 * j for j in range(n)]
    ctx.eq(ctx.scalar(a.execute(ctx.array(q, float))), e.execute(q), 'error after the training step')


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append((run, dict(d=1, m=2, fm=1, ad=1, symq=())))
    J.append((run, dict(d=1, m=2, fm=1, ad=3)))
    J.append((run, dict(d=2, m=2, fm=1, ad=2, symq=(0, 1))))
    J.append((run, dict(d=2, m=1, fm=2, ad=3, symq=(1,))))
    J.append((run, dict(d=3, m=2, fm=2, ad=3, symq=(2,), kw=dict(learning_rate=0.5, hidden_ratio=0.5))))
    J.append((run, dict(d=4, m=2, fm=2, ad=4, symq=(0, 3), kw=dict(learning_rate=0.02, hidden_ratio=1.0))))
    J.append((run, dict(d=7, m=3, fm=3, ad=6, symq=(4,), after=3)))
    J.append((run, dict(d=12, m=10, fm=4, ad=10, symq=(11,), mid=False)))
    J.append((run, dict(d=1, m=1, fm=1, ad=3, symtrain=(2,), symq=())))
    J.append((run, dict(d=3, m=1, fm=2, ad=4, symtrain=(3,), symq=(), kw=dict(learning_rate=0.3))))
    J.append((run, dict(d=2, m=1, fm=1, ad=3, symtrain=(2,), symq=())))
    J.append((layer, dict(n=1, pre=2, kw=(0.1, 0.75))))
    J.append((layer, dict(n=2, pre=2, kw=(0.5, 0.5))))
    J.append((layer, dict(n=3, pre=3, kw=(0.1, 0.75))))
    if not q:
        J.append((run, dict(d=20, m=6, fm=6, ad=25, symq=(3, 17), mid=False)))
    for c in mine(FILES, 3, 200):
        J.append((run, dict(d=2, m=2, fm=1, ad=c, symq=(0,), mid=False)))
        J.append((run, dict(d=min(c, 14), m=c, fm=2, ad=3, symq=(0,), mid=False)))
    return J
