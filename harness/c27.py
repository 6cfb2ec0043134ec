"""C27 KNN-CAD outputs conformal scores after its probationary period."""
import numpy as np
from harness.util import mine
FILES = ['pysad/models/knn_cad.py']
NOTE = 'probationary periods from 48 (below that the 27-neighbour measure is undefined); histories are concrete up to the last instances, which are symbolic; which instances are scored is chosen by the solver'
DIM, K = 19, 27


def data(n, kind):
    out = []
    v = 0.0
    for i in range(n):
        v = ((i * 37 + 11) % 53) / 8.0 + ((i * i * 7) % 29) / 16.0
        if kind == 'flat':
            v = 1.5
        elif kind == 'mix':
            v = v if i % 7 else -3.0
        out.append(v)
    return out


class Ref:
    """plain restatement of the method; symbolic numbers allowed"""

    def __init__(self, ctx, pp):
        self.ctx, self.pp = ctx, pp
        self.buf, self.train, self.cal, self.scores = [], [], [], []
        self.n, self.hold = 0, 0
        self.sigma = None

    def ncm(self, item, extra=0):
        ds = []
        sg = self.sigma
        for v in self.train:
            df = [a - b for a, b in zip(v, item)]
            if any(type(x) is not float for x in df):
                s = 0
                for i in range(DIM):
                    for j in range(DIM):
                        if sg is None:
                            if i != j:
                                continue
                            s = s + df[i] * df[i]
                        elif not (isinstance(df[i], float) and df[i] == 0.0):
                            s = s + float(sg[i][j]) * (df[i] * df[j])
            else:
                d = np.array(df)
                s = float(d @ d) if sg is None else float(d @ sg @ d)
            ds.append(s)
        return self.ctx.sum(self.ctx.sort(ds)[:K + extra])

    def fit(self, x):
        self.buf.append(x)
        self.n += 1
        if self.n < DIM:
            return
        item = self.buf[-DIM:]
        if self.n < self.pp:
            self.train.append(item)
            return
        o = self.n % self.pp
        if o == 0 or o == self.pp // 2:
            t = np.array(self.train, dtype=float)
            try:
                self.sigma = np.linalg.inv(t.T @ t)
            except np.linalg.LinAlgError:
                pass
        if not self.scores:
            self.scores = [self.ncm(v, 1) for v in self.train]
        s = self.ncm(item)
        if self.n >= 2 * self.pp:
            self.train.pop(0)
            self.train.append(self.cal.pop(0))
        self.scores.pop(0)
        self.cal.append(item)
        self.scores.append(s)

    def fraction(self):
        """(numerator list of comparisons)"""
        s = self.ncm(self.buf[-DIM:])
        return s

    def score(self):
        c = self.ctx
        if self.n < self.pp:
            return 0.0
        s = self.ncm(self.buf[-DIM:])
        gap = []
        cnt = 0
        for t in self.scores:
            # the value itself is among the scores: within rounding distance either verdict is right
            c.assume(c.either(t - s > 1e-7, t - s < -1e-7, t - s == 0))
            cnt = cnt + c.ite(t < s, 1, 0)
        r = cnt / len(self.scores)
        if self.hold > 0:
            self.hold -= 1
            return 0.5
        if r >= 0.9965:
            self.hold = self.pp // 5
        return r


def run(ctx, pp, n, kind, sym=(), reads=None, spike=(), lo=0, hi=8, readset=()):
    """fit n instances; solver chooses which of the instances in readset are scored"""
    m = ctx.mod('pysad.models.knn_cad').KNNCAD(pp)
    ref = Ref(ctx, pp)
    xs = data(n, kind)
    for i in spike:
        xs[i] = 400.0
    for i in sym:
        xs[i] = ctx.real('x%d' % i, lo, hi)
    for i, x in enumerate(xs):
        X = ctx.array([x], float)
        ctx.check(m.fit_partial(X) is m, 'fit returns the model')
        ctx.eq(X, [x], 'the instance is left unmodified')
        ref.fit(x)
        if i in readset and not ctx.flag('read%d' % i):
            continue
        if reads is not None and i not in reads and i not in readset and i < n - 1:
            continue
        s = ctx.scalar(m.score_partial(X))
        ctx.check(ctx.both(s >= 0, s <= 1), 'every score lies in [0, 1]')
        ctx.eq(s, ref.score(), 'conformal score')


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append((run, dict(pp=48, n=60, kind='mix', readset=(46, 47, 50))))
    J.append((run, dict(pp=49, n=105, kind='x', spike=(98,), reads=(97,), readset=(98, 100, 101))))
    J.append((run, dict(pp=49, n=150, kind='x', reads=range(120, 150))))
    J.append((run, dict(pp=61, n=158, kind='mix', reads=range(150, 158))))
    J.append((run, dict(pp=48, n=125, kind='x', spike=(97, 110), reads=range(94, 125))))
    J.append((run, dict(pp=54, n=150, kind='mix', reads=range(100, 150))))
    J.append((run, dict(pp=48, n=49, kind='x', sym=(48,), lo=0, hi=0.05 if q else 1, reads=())))
    J.append((run, dict(pp=48, n=49, kind='x', sym=(48,), lo=300, hi=1000, reads=())))
    if not q:
        J.append((run, dict(pp=50, n=52, kind='mix', sym=(51,), lo=2, hi=2.5, reads=())))
    J.append((run, dict(pp=48, n=48, kind='flat', sym=(47,), lo=-5, hi=5, reads=())))
    for lo, hi in () if q else ((3, 3.2), (5.5, 6), (8, 9)):
        J.append((run, dict(pp=48, n=48, kind='x', sym=(47,), lo=lo, hi=hi, reads=())))
    J.append((run, dict(pp=310, n=313, kind='x', spike=(310,), reads=(308, 309, 310, 311, 312))))
    J.append((run, dict(pp=302, n=305, kind='x', spike=(302,), reads=(302, 303, 304))))
    return J
