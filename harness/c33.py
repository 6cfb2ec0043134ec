"""C33 Inqmad scores are the measurement against the density matrix of all instances fitted before."""
import math
from harness.util import mine, series
FILES = ['pysad/models/inqmad.py']
NOTE = 'jax is a model: array functions are those of numpy over the reals, a jitted function sees static objects as they were at its first trace; cos is an arbitrary function in [-1, 1]; the random Fourier weights are the real ones of the given seed; results are compared up to single precision'


def feats(d, dim, gamma, rs):
    import numpy as np
    from sklearn.kernel_approximation import RBFSampler
    r = RBFSampler(gamma=gamma, n_components=dim, random_state=rs).fit(np.zeros((1, d)))
    return r.random_weights_.tolist(), r.random_offset_.tolist()


def state(ctx, x, W, b):
    """normalised Fourier feature state"""
    f = math.sqrt(2.0) / math.sqrt(len(b))
    v = [ctx.fn('cos', ctx.sum([x[i] * W[i][k] for i in range(len(x))]) + b[k]) * f for k in range(len(b))]
    s = ctx.sum([c * c for c in v])
    ctx.assume(s > 0.01)
    s = ctx.sqrt(s)
    return [c / s for c in v]


def run(ctx, d, dim, n, gamma, symx, symq, reads, rs=None, batch=None, at=()):
    k = {}
    if rs is not None:
        k['random_state'] = rs
    if batch is not None:
        k['batch_size'] = batch
    W, b = feats(d, dim, gamma, 42 if rs is None else rs)
    m = ctx.mod('pysad.models.inqmad').Inqmad(d, dim, gamma, **k)
    con = [((i * 7 + 2) % 13) / 8.0 - 0.75 for i in range((n + 1) * d)]
    rho = [[0.0] * dim for _ in range(dim)]

    def score(q, cnt, msg):
        v = state(ctx, q, W, b)
        e = 0
        for j in range(dim):
            h = ctx.sum([v[i] * (rho[i][j] / cnt) for i in range(dim)])
            e = e + h * h
        Q = ctx.array(q, float)
        ctx.eq(m.score_partial(Q), e, msg, tol=2e-4)
        ctx.eq(Q, q, 'the instance is left unmodified')
    for i in range(n):
        x = con[i * d:(i + 1) * d]
        if i in symx:
            x[i % d] = ctx.real('x%d' % i, -2, 2)
        v = state(ctx, x, W, b)
        for p in range(dim):
            for q in range(dim):
                rho[p][q] = rho[p][q] + v[p] * v[q]
        X = ctx.array(x, float)
        ctx.check((m.fit_partial(X, i % 2) if i % 3 == 1 else m.fit_partial(X)) is m, 'fit returns the model')
        ctx.eq(X, x, 'the instance is left unmodified')
        if i in reads and ctx.flag('read%d' % i):
            score(con[:d], i + 1, 'measurement against the instances fitted so far')
        elif i in at:
            score(x, i + 1, 'measurement against the instances fitted so far')
    q = con[-d:]
    if symq:
        q[0] = ctx.real('q', -2, 2)
    score(q, n, 'measurement against all instances fitted')
    score(q, n, 'scoring changes nothing')


def matrix(ctx, d, dim, sizes, nq, batch, sym='q', rs=5):
    """instances given as the rows of a matrix count like the same instances one by one, whatever the batch size"""
    W, b = feats(d, dim, 0.5, rs)
    m = ctx.mod('pysad.models.inqmad').Inqmad(d, dim, 0.5, rs, batch)
    n = sum(sizes)
    con = [((i * 7 + 2) % 13) / 8.0 - 0.75 for i in range((n + nq) * d)]
    rows = [con[i * d:(i + 1) * d] for i in range(n + nq)]
    if 'x' in sym:
        rows[n - 1][0] = ctx.real('x', -2, 2)
    k = n + ctx.choice('at', nq)
    if 'q' in sym:
        rows[k][d - 1] = ctx.real('q', -2, 2)
    st = [state(ctx, r, W, b) for r in rows]
    i = 0
    for z in sizes:
        X = ctx.array(rows[i:i + z], float)
        m.fit_partial(X)
        ctx.eq(X, rows[i:i + z], 'the instances are left unmodified')
        i += z
    Q = ctx.array(rows[n:], float)
    got = m.score_partial(Q)
    ctx.check(len(got) == nq, 'one score per row')
    rho = [[ctx.sum([u[i] * u[j] for u in st[:n]]) / n for j in range(dim)] for i in range(dim)]
    e = []
    for v in st[n:]:
        t = 0
        for j in range(dim):
            h = ctx.sum([v[i] * rho[i][j] for i in range(dim)])
            t = t + h * h
        e.append(t)
    ctx.eq(got, e, 'each row is measured against all instances fitted', tol=2e-4)
    ctx.eq(Q, rows[n:], 'the instances are left unmodified')


def jobs(tier):
    q = tier == 'quick'
    o = dict(replays=3)
    J = []
    J.append((run, dict(d=1, dim=1, n=2, gamma=0.5, symx=(0, 1), symq=True, reads=(0,)), o))
    J.append((run, dict(d=2, dim=2, n=3, gamma=0.5, symx=(1,), symq=False, reads=(0, 1)), o))
    J.append((run, dict(d=2, dim=3, n=3, gamma=1, symx=(), symq=True, reads=(0, 1), rs=7), o))
    J.append((run, dict(d=3, dim=2, n=4, gamma=0.25, symx=(3,), symq=False, reads=(2,), batch=1), o))
    J.append((run, dict(d=1, dim=4, n=12, gamma=1, symx=(), symq=True, reads=(5,), at=(2, 9)), o))
    J.append((run, dict(d=9, dim=12, n=6, gamma=0.125, symx=(), symq=False, reads=(1,), at=(3,)), o))
    J.append((matrix, dict(d=1, dim=2, sizes=(1, 1), nq=3, batch=2), o))
    J.append((matrix, dict(d=2, dim=2, sizes=(3,), nq=4, batch=2), o))
    J.append((matrix, dict(d=1, dim=3, sizes=(2, 1), nq=1, batch=5, sym='x'), o))
    for c in mine(FILES, 5, 1100):
        J.append((run, dict(d=1, dim=2, n=c + 2, gamma=1, symx=(), symq=True, reads=(c,)), dict(replays=1)))
        J.append((run, dict(d=1, dim=2, n=3, gamma=1, symx=(), symq=True, reads=(0,), batch=c), dict(replays=1)))
    if not q:
        J.append((run, dict(d=2, dim=2, n=3, gamma=0.5, symx=(0, 1, 2), symq=True, reads=(0, 1)), o))
        J.append((run, dict(d=2, dim=6, n=5, gamma=0.5, symx=(4,), symq=True, reads=(0, 3)), o))
    return J
