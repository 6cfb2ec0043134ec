"""C20 xStream scores come from half-space chain counts of the reference window."""
import itertools
import math
from harness.util import mine, series
from symex import stubs
FILES = ['pysad/models/xstream.py']
NOTE = ('the stream-hash projection is the real one (checked by C25) with a stand-in hash that selects one feature per component; random shifts are one constant per run or all different, '
        'feature draws constant, different or symbolic; in the latter cases the oracle is existentially quantified over which draw went where')


class IntSym(stubs.SeqProvider):
    """symbolic integer draws, constant uniform draws"""

    def u(self):
        return self.uc


def setup(ctx, u, i):
    ctx.hook('mmh3:hash', lambda s, seed=0, signed=True, **k: int((0.25 if int(s) == int(seed) else 0.9) * (2 ** 32 - 1)))
    if i == 'sym':
        p = IntSym(ctx)
        p.uc = u
        ctx.use_provider(p)
    else:
        ctx.draws_const(u=u, i=i)


class Oracle:
    def __init__(self, ctx, k, depth, w, u, fs):
        u = list(u) if isinstance(u, (list, tuple)) else [u] * k
        self.c, self.k, self.depth, self.w, self.u, self.fs = ctx, k, depth, w, u, fs
        self.delta = [0.5] * k
        self.hist = []          # (projected, bins)

    def bins(self, x):
        """bin index per depth: tuple of integers"""
        pre = [None] * self.k
        out = []
        for d in range(self.depth):
            f = self.fs[d]
            pre[f] = x[f] / self.delta[f] + self.u[f] if pre[f] is None else 2 * pre[f] - self.u[f]
            fl = self.c.floor(pre[f])
            fr = pre[f] - fl
            # within rounding distance of a bin edge either bin is right: left out
            self.c.assume(self.c.both(fr > 1e-6, fr < 1 - 1e-6))
            idx = list(out[-1]) if out else [0] * self.k
            idx[f] = fl
            out.append(idx)
        return out

    def fit(self, x):
        self.hist.append((x, self.bins(x)))
        if len(self.hist) % self.w == 0:
            blk = [h[0] for h in self.hist[-self.w:]]
            for f in range(self.k):
                r = (self.c.max([b[f] for b in blk]) - self.c.min([b[f] for b in blk])) / 2
                self.delta[f] = self.c.ite(r <= 0.0001, 1.0, r)

    def score(self, x):
        full = len(self.hist) // self.w * self.w
        ref = self.hist[full - self.w:full] if full else self.hist
        b = self.bins(x)
        cand = []
        for d in range(self.depth):
            n = self.c.count([self.c.both(*[p == q for p, q in zip(h[1][d], b[d])]) for h in ref])
            v = math.log2(1 + len(ref))
            for j in range(len(ref) - 1, -1, -1):
                v = self.c.ite(n == j, math.log2(1 + j), v)
            cand.append(v + d + 1)
        return -self.c.min(cand)


def make(ctx, k, chains, depth, w):
    M = ctx.mod('pysad.models.xstream').xStream
    a = dict(num_components=k, n_chains=chains, depth=depth)
    if w is not None:
        a['window_size'] = w
    m = M(**a)
    P = ctx.mod('pysad.transform.projection').StreamhashProjector(num_components=k)
    return m, lambda x: list(P.transform_partial(ctx.array(x, float)))


def data(ctx, n, k, sym, lo=None, hi=None):
    con = series(n * k + k)
    out = []
    for i in range(n):
        v = [x * 0.25 for x in con[i * k:(i + 1) * k]]
        if i in sym:
            v[k - 1] = ctx.real('x%d' % i, lo, hi)
        out.append(v)
    return out


def stream(ctx, k, f, u, chains, depth, w, n, sym, each=False, lo=None, hi=None, qs=1, scale=1.0, cluster=False):
    """all drawn features equal f, all shifts equal u"""
    setup(ctx, u, f)
    m, proj = make(ctx, k, chains, depth, w)
    o = Oracle(ctx, k, depth, w or 25, u, [min(f, k - 1)] * depth)
    xs = data(ctx, n, k, sym, lo, hi)
    if cluster:     # all in one deep bin: the level at which the query separates decides its score
        xs = [[0.1 + 0.0001 * (i % 7)] * k for i in range(n)]
    if scale != 1.0:
        xs = [[v * scale for v in x] for x in xs]
    for i in range(n):
        X = ctx.array(xs[i], float)
        ctx.check(m.fit_partial(X) is m, 'fit returns the model')
        ctx.eq(X, xs[i], 'the instance is left unmodified')
        o.fit(proj(xs[i]))
        if each and i < n - 1:
            ctx.eq(m.score_partial(X), o.score(proj(xs[i])), 'chain counts of the reference window')
    for j in range(qs):
        q = [0.5] * k
        q[min(f, k - 1)] = ctx.real('q%d' % j, -3, 3) if scale == 1.0 else scale * ctx.real('q%d' % j, -3, 3)
        Q = ctx.array(q, float)
        e = o.score(proj(q))
        ctx.eq(m.score_partial(Q), e, 'chain counts of the reference window')
        ctx.eq(m.score_partial(Q), e, 'scoring changes nothing')
        ctx.eq(Q, q, 'the instance is left unmodified')


def drawn(ctx, k, u, depth, w, n, sym):
    """symbolic feature draws (one chain): some drawn features explain all scores"""
    setup(ctx, u, 'sym')
    m, proj = make(ctx, k, 1, depth, w)
    os = [Oracle(ctx, k, depth, w, u, fs) for fs in itertools.product(range(k), repeat=depth)]
    xs = data(ctx, n, k, sym)
    for x in xs:
        m.fit_partial(ctx.array(x, float))
        for o in os:
            o.fit(proj(x))
    qs = [xs[-1], xs[0], [ctx.real('q', -3, 3) if j == 0 else 0.5 for j in range(k)]]
    rs = [ctx.scalar(m.score_partial(ctx.array(q, float))) for q in qs]
    close = lambda a, b: ctx.both(a - b <= 1e-9, b - a <= 1e-9)
    ctx.check(ctx.either(*[ctx.both(*[close(o.score(proj(q)), r) for q, r in zip(qs, rs)]) for o in os]), 'some drawn features explain the scores')


def mixed(ctx, k, chains, depth, w, n, us, ints=None, sym=True, dense=False):
    """different draws for every chain: some assignment of the draws made to the chains' shifts (each draw used once)
    and some drawn features explain all scores"""
    setup(ctx, 0.5, 0)
    p = ctx.draws_distinct(us=us, ints=ints)
    m, proj = make(ctx, k, chains, depth, w)
    vs = list(p.us)
    xs = data(ctx, n, k, ())
    if dense:       # most instances share the coarse bins, so that the deeper levels decide
        xs = [[0.07 * (x - int(x / 4) * 4) for x in v] for v in xs]
    qs = [xs[-1], xs[0], [x * 1.3 for x in xs[n // 2]], [0.3 + 0.1 * j for j in range(k)]]
    qs += [[xs[0][i] + (e if i == j else 0) for i in range(k)] for j in range(k) for e in ((0.13, 0.29, -0.17, -0.38, 0.061) if not dense else (0.07, 0.13, 0.19, 0.24, 0.31, -0.05, -0.11, -0.16, -0.23))]
    nq = len(qs)
    if sym:
        qs.append([ctx.real('q', -2, 2) if j == 0 else 0.5 for j in range(k)])
    pqs = [proj(x) for x in qs]
    got = []
    at = (n, 1, w, w + 1)
    for i, x in enumerate(xs):
        m.fit_partial(ctx.array(x, float))
        if i + 1 in at:
            for a, b in zip(qs if i + 1 == n else qs[:nq], pqs):
                got.append((i + 1, b, ctx.scalar(m.score_partial(ctx.array(a, float)))))
    cand = []
    pxs = [proj(x) for x in xs]
    for fs in itertools.product(range(k), repeat=depth):
        for idx in itertools.permutations(range(len(vs)), k):
            o = Oracle(ctx, k, depth, w, [vs[j] for j in idx], fs)
            es = []
            for i, x in enumerate(pxs):
                o.fit(x)
                es += [o.score(b) for t, b, _ in got if t == i + 1]
            cand.append((set(idx), es))
    ok = []
    for fam in itertools.combinations_with_replacement(cand, chains):
        if any(a[0] & b[0] for a, b in itertools.combinations(fam, 2)):
            continue
        c = []
        for j, (_, _, r) in enumerate(got):
            e = ctx.sum([f[1][j] for f in fam]) / chains
            c.append(ctx.both(r - e <= 1e-9, e - r <= 1e-9))
        if not any(v is False for v in c):
            ok.append(ctx.both(*c))
    ctx.check(ctx.either(*ok) if ok else False, 'shifts and features of its own for every chain explain all scores')


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append((stream, dict(k=1, f=0, u=0.3712, chains=1, depth=2, w=4, n=2, sym=(0, 1), each=True)))        # first block being filled
    J.append((stream, dict(k=1, f=0, u=0.3712, chains=2, depth=3, w=3, n=2, sym=(1,), lo=-2, hi=2)))
    J.append((stream, dict(k=1, f=0, u=0.7431, chains=1, depth=2, w=3, n=3, sym=(1,), lo=-1, hi=0.5)))       # exactly one block
    J.append((stream, dict(k=1, f=0, u=0.1193, chains=1, depth=2, w=3, n=5, sym=(4,), each=True)))          # second block not complete
    J.append((stream, dict(k=1, f=0, u=0.1193, chains=2, depth=2, w=2, n=4, sym=(), each=True)))            # two blocks, new scale
    J.append((stream, dict(k=1, f=0, u=0.6177, chains=1, depth=2, w=3, n=6, sym=(4,), lo=-1, hi=0.5)))
    J.append((stream, dict(k=1, f=0, u=0.2539, chains=1, depth=1, w=1, n=3, sym=(2,))))
    J.append((stream, dict(k=2, f=1, u=0.3712, chains=1, depth=2, w=2, n=3, sym=(2,))))
    J.append((stream, dict(k=2, f=0, u=0.3712, chains=3, depth=3, w=3, n=4, sym=())))
    J.append((stream, dict(k=3, f=1, u=0.0313, chains=1, depth=2, w=2, n=4, sym=())))
    J.append((stream, dict(k=1, f=0, u=0.3712, chains=1, depth=2, w=2, n=0, sym=())))
    J.append((drawn, dict(k=2, u=0.3712, depth=2, w=2, n=3, sym=(2,))))
    J.append((drawn, dict(k=2, u=0.2539, depth=2, w=3, n=2, sym=())))
    J.append((stream, dict(k=12, f=7, u=0.3712, chains=2, depth=3, w=3, n=5, sym=(), each=True)))
    J.append((stream, dict(k=2, f=1, u=0.2539, chains=25, depth=4, w=3, n=4, sym=())))
    J.append((stream, dict(k=1, f=0, u=0.3712, chains=1, depth=9, w=3, n=4, sym=())))
    J.append((stream, dict(k=1, f=0, u=0.3712, chains=1, depth=6, w=70, n=66, sym=(), cluster=True)))
    J.append((stream, dict(k=2, f=1, u=0.1193, chains=1, depth=5, w=40, n=35, sym=(), cluster=True)))
    # block ranges from far above to far below the floor under which a feature keeps scale 1
    for e in (2 ** -4, 2 ** -7, 2 ** -10, 2 ** -13, 2 ** -16, 2 ** -20, 2.0 ** 12):
        J.append((stream, dict(k=1, f=0, u=0.1193, chains=1, depth=2, w=3, n=4, sym=(), scale=e)))
    for us in ((0.1123, 0.5231, 0.8317, 0.3779), (0.9173, 0.0591, 0.3331, 0.7117)):
        J.append((mixed, dict(k=1, chains=2, depth=2, w=3, n=5, us=us)))
        J.append((mixed, dict(k=2, chains=1, depth=2, w=2, n=5, us=us, ints=(1, 0))))
        J.append((mixed, dict(k=2, chains=2, depth=2, w=3, n=5, us=us, ints=(0, 1, 1, 0), sym=False)))
        J.append((mixed, dict(k=2, chains=1, depth=3, w=3, n=5, us=us, ints=(1, 1, 0), sym=us[0] > 0.5)))
        J.append((mixed, dict(k=2, chains=1, depth=3, w=2, n=4, us=us, ints=(1, 0, 1), sym=False)))
        for ints in ((1, 1, 0), (0, 1, 0), (1, 1, 1)):
            J.append((mixed, dict(k=2, chains=1, depth=3, w=9, n=8, us=us, ints=ints, sym=False, dense=True)))
            J.append((mixed, dict(k=2, chains=1, depth=3, w=8, n=17, us=us, ints=ints, sym=False, dense=True)))
        J.append((mixed, dict(k=1, chains=2, depth=3, w=9, n=8, us=us, dense=True)))
        J.append((mixed, dict(k=2, chains=2, depth=1, w=3, n=5, us=us, ints=(0, 1), sym=False)))
    if not q:
        J.append((drawn, dict(k=2, u=0.6177, depth=3, w=2, n=5, sym=(4,))))
        J.append((stream, dict(k=1, f=0, u=0.6177, chains=1, depth=3, w=3, n=6, sym=(1, 4), lo=-1, hi=0.5)))
        J.append((stream, dict(k=1, f=0, u=0.3712, chains=1, depth=3, w=4, n=3, sym=(0, 1, 2), each=True)))
        J.append((stream, dict(k=1, f=0, u=0.3712, chains=1, depth=2, w=2, n=4, sym=(2, 3))))
    for c in sorted(set([4] + mine(FILES, 3, 1100, cap=3))):
        J.append((stream, dict(k=1, f=0, u=0.1193, chains=1, depth=2, w=c, n=2 * c + 1, sym=(), qs=1)))
    J.append((stream, dict(k=1, f=0, u=0.1193, chains=1, depth=2, w=None, n=27, sym=(), qs=1)))
    return J
