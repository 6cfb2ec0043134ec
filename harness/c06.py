"""C06 stream simulators yield every instance exactly once with its own label."""
from harness.util import mine
FILES = ['pysad/utils/array_streamer.py', 'pysad/utils/pandas_streamer.py', 'pysad/utils/__init__.py']


class Labels(list):
    """row labels of the stand-in (an Index compared by position)"""

    def equals(self, other):
        return list(self) == list(other)

    @property
    def values(self):
        return list(self)

    def tolist(self):
        return list(self)

    to_numpy = to_list = tolist


class Frame:
    """stand-in for a pandas object: only what a streamer may use. Pandas pairs rows by label in reindex, loc and
    sort_index; the labels of y are those of X in another order, so that pairing by label shows."""

    def __init__(self, a, labels):
        self.a, self.index = a, Labels(labels)

    def to_numpy(self, *x, **k):
        return self.a

    def __array__(self, *x, **k):
        return self.a

    @property
    def values(self):
        return self.a

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    def __len__(self):
        return len(self.a)

    def take(self, pos):
        pos = list(pos)
        return Frame(self.a[pos], [self.index[i] for i in pos])

    def reindex(self, labels=None, index=None, **k):
        return self.take(self.index.index(l) for l in (labels if index is None else index))

    def sort_index(self, *x, **k):
        return self.take(sorted(range(len(self.index)), key=lambda i: self.index[i]))

    def reset_index(self, *x, **k):
        return Frame(self.a, range(len(self.a)))

    def copy(self, *x, **k):
        return Frame(self.a.copy(), self.index)

    class At:
        def __init__(self, f, pos):
            self.f, self.pos = f, pos

        def __getitem__(self, k):
            if isinstance(k, (list, tuple)):
                return self.f.take(i if self.pos else self.f.index.index(i) for i in k)
            if isinstance(k, slice):
                return Frame(self.f.a[k], self.f.index[k])
            r = self.f.a[k if self.pos else self.f.index.index(k)]
            return r if self.f.a.ndim == 1 else Frame(r, range(len(r)))

    loc = property(lambda self: Frame.At(self, False))
    iloc = property(lambda self: Frame.At(self, True))


def frame(ctx, a):
    idx = list(range(10, 10 + 3 * len(a), 3))[::-1]
    if a.ndim == 1 and len(idx) > 1:
        idx = idx[1:] + idx[:1]
    if ctx.concrete:
        import pandas as pd
        return pd.DataFrame(a, index=idx) if a.ndim == 2 else pd.Series(a, index=idx)
    return Frame(a, idx)


def stream(ctx, kind, n, d, labels, shuffle, nsym=99, again=True, aslist=False):
    U = ctx.mod('pysad.utils')
    prov = ctx.draws_sym('perm')
    sy = lambda i: i < nsym or i == n - 1
    X = ctx.array([[ctx.real('x%d_%d' % (i, j)) if sy(i) else float(i * 10 + j) for j in range(d)] for i in range(n)], float).reshape((n, d))
    y = ctx.array([ctx.real('y%d' % i) if sy(i) else float(i % 3) for i in range(n)], float)
    X0, y0 = X.copy(), y.copy()
    kw = {} if shuffle is None else dict(shuffle=shuffle)
    if kind == 'pandas':
        s = U.PandasStreamer(**kw)
        Xi, yi = frame(ctx, X), frame(ctx, y)
    else:
        s = U.ArrayStreamer(**kw)
        Xi, yi = X, y
        if aslist:
            Xi, yi = list(X), list(y)
    for rep in range(2 if again else 1):
        prov.log = []
        out = list(s.iter(Xi, yi) if labels else s.iter(Xi))
        perm = [e[1] for e in prov.log if e[0] == 'p']
        if shuffle:
            ctx.check(len(perm) == 1, 'shuffling draws one permutation')
            order = perm[0]
        else:
            ctx.check(not prov.log, 'no randomness without shuffling')
            order = list(range(n))
        ctx.check(len(out) == n, 'every instance is yielded exactly once')
        for o, i in zip(out, order):
            if labels:
                ctx.check(isinstance(o, tuple) and len(o) == 2, 'pairs of instance and label')
                ctx.eq(o[0], X0[i], 'instances unmodified, in stream order', shape=True)
                ctx.eq(o[1], y0[i], 'label of the same instance')
            else:
                ctx.eq(o, X0[i], 'instances unmodified, in stream order', shape=True)
    ctx.eq(X, X0, 'the data is left unmodified')
    ctx.eq(y, y0, 'the labels are left unmodified')


def real_shuffle(ctx, kind, n):
    """with the real generator: a seeded shuffle keeps pairing and multiset, equal seeds equal orders, state of two streamers independent"""
    U = ctx.mod('pysad.utils')
    X = ctx.array([[ctx.real('x%d' % i), float(i)] for i in range(n)], float)
    y = ctx.array([float(i) for i in range(n)], float)
    mk = (lambda: U.PandasStreamer(shuffle=True)) if kind == 'pandas' else (lambda: U.ArrayStreamer(shuffle=True))
    a, b = (frame(ctx, X), frame(ctx, y)) if kind == 'pandas' else (X, y)
    U.fix_seed(61)
    o1 = list(mk().iter(a, b))
    U.fix_seed(61)
    o2 = list(mk().iter(a, b))
    ctx.check(len(o1) == n and len(o2) == n, 'every instance is yielded exactly once')
    ks = []
    for (p, q), (p2, q2) in zip(o1, o2):
        k = ctx.scalar(q)
        k = int(float(k)) if not hasattr(k, 'e') else int(k)
        ks.append(k)
        ctx.eq(p, X[k], 'label of the same instance', shape=True)
        ctx.eq(p, p2, 'equal seeds give the same order')
        ctx.eq(q, q2, 'equal seeds give the same order')
    ctx.check(sorted(ks) == list(range(n)), 'every instance is yielded exactly once')


def exact(ctx, kind, labels, what):
    """values that do not survive a conversion (large integers, booleans, strings) are yielded as they are"""
    U = ctx.mod('pysad.utils')
    big = 2 ** 53 + 1
    rows = {'int': [[big, -big], [3, big + 2], [0, 7]], 'bool': [[True, False], [False, False], [True, True]]}[what]
    X = ctx.np.array(rows, dtype='int64' if what == 'int' else bool)
    y = ctx.np.array([big + 4, 1, -big], dtype='int64')
    s = U.PandasStreamer() if kind == 'pandas' else U.ArrayStreamer()
    a, b = (frame(ctx, X), frame(ctx, y)) if kind == 'pandas' else (X, y)
    out = list(s.iter(a, b) if labels else s.iter(a))
    ctx.check(len(out) == 3, 'every instance is yielded exactly once')
    for i, o in enumerate(out):
        r = o[0] if labels else o
        ctx.check(r.dtype == X.dtype and [int(r[j]) for j in range(2)] == [int(v) for v in rows[i]], 'instances unmodified, in stream order')
        if labels:
            ctx.check(int(o[1]) == [big + 4, 1, -big][i], 'label of the same instance')


def partial_iteration(ctx, n, k):
    """an abandoned iteration does not affect the next one; two interleaved iterations are independent"""
    U = ctx.mod('pysad.utils')
    X = ctx.mat('x', n, 1)
    s = U.ArrayStreamer()
    it = iter(s.iter(X))
    for _ in range(k):
        next(it)
    it2 = iter(s.iter(X))
    for i in range(n):
        ctx.eq(next(it2), X[i], 'iteration restarts from the beginning', shape=True)
        if k + i < n:
            ctx.eq(next(it), X[k + i], 'interleaved iterations are independent', shape=True)
    ctx.check(ctx.raises(lambda: next(it), StopIteration), 'nothing after the last instance')
    ctx.check(ctx.raises(lambda: next(it2), StopIteration), 'nothing after the last instance')


def mismatch(ctx, kind, nmax, shuffle):
    U = ctx.mod('pysad.utils')
    ctx.draws_sym('perm')
    n = ctx.choice('n', nmax) + 1
    m = ctx.choice('m', nmax + 1)
    if n == m:
        return
    X, y = ctx.mat('x', n, 2), ctx.vec('y', m)
    if kind == 'pandas':
        s, X, y = U.PandasStreamer(shuffle=shuffle), frame(ctx, X), frame(ctx, y)
    else:
        s = U.ArrayStreamer(shuffle=shuffle)
    ctx.check(ctx.raises(lambda: list(s.iter(X, y))), 'instances and labels of different length are rejected')


def iterate(ctx, n, labels):
    U = ctx.mod('pysad.utils')
    X, y = ctx.mat('x', n, 2), ctx.vec('y', n)
    out = list(U._iterate(X, y) if labels else U._iterate(X))
    ctx.check(len(out) == n, 'every instance is yielded exactly once')
    for i, (a, b) in enumerate(out):
        ctx.eq(a, X[i], 'instances in order', shape=True)
        if labels:
            ctx.eq(b, y[i], 'label of the same instance')
        else:
            ctx.check(b is None, 'label None without labels')


def jobs(tier):
    q = tier == 'quick'
    J = []
    N = (0, 1, 4) if q else (0, 1, 5)
    for kind in ('array', 'pandas'):
        for labels in (True, False):
            for n in N:
                for sh in (True, False):
                    if n == 0 and kind == 'pandas':
                        continue
                    J.append((stream, dict(kind=kind, n=n, d=2, labels=labels, shuffle=sh)))
            for b in sorted(set([30] + [c + 1 for c in mine(FILES, 5, 2000)])):
                J.append((stream, dict(kind=kind, n=b, d=1, labels=labels, shuffle=False, nsym=2)))
        J.append((stream, dict(kind=kind, n=3, d=2, labels=True, shuffle=None)))
        for sh in (True, False):
            J.append((mismatch, dict(kind=kind, nmax=3, shuffle=sh)))
        for labels in (True, False):
            for what in ('int', 'bool'):
                J.append((exact, dict(kind=kind, labels=labels, what=what)))
        J.append((real_shuffle, dict(kind=kind, n=12)))
    J.append((stream, dict(kind='array', n=3, d=2, labels=True, shuffle=True, aslist=True)))
    J.append((partial_iteration, dict(n=4, k=2)))
    J.append((iterate, dict(n=3, labels=True)))
    J.append((iterate, dict(n=3, labels=False)))
    return J
