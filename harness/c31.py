"""C31 data helpers split features and labels and bound the data exactly."""
import os
from harness.util import mine, series
FILES = ['pysad/utils/data.py', 'pysad/utils/__init__.py', 'pysad/utils/array_streamer.py']
NOTE = 'files are not read: numpy.loadtxt and scipy.io.loadmat are stand-ins returning a symbolic table'
BASE = '/tmp/nowhere'


def install(ctx, X, y, mode):
    asked = []

    def loadtxt(fname, dtype=float, comments='#', delimiter=None, *a, ndmin=0, **k):
        asked.append((fname, delimiter))
        if str(fname).endswith('.mat'):
            raise UnicodeDecodeError('utf-8', b'', 0, 1, 'not a text file')
        t = ctx.array([list(a) + [b] for a, b in zip(X, y)], float)
        # numpy squeezes a single row or column unless told otherwise
        return t if int(ndmin) == 2 else t.reshape(-1) if 1 in t.shape else t

    def loadmat(name, *a, **k):
        asked.append((name, None))
        if not str(name).endswith('.mat'):
            raise ValueError('Unknown mat file type')
        yy = ctx.array(y, float)
        n = len(y)
        yy = yy.reshape((n, 1)) if mode == 'col' else yy.reshape((1, n)) if mode == 'row' else yy
        return {'__header__': b'', 'X': ctx.array(X, float), 'y': yy}
    ctx.hook('numpy:loadtxt', loadtxt)
    ctx.hook('numpy:genfromtxt', loadtxt)
    ctx.hook('scipy.io:loadmat', loadmat)
    return asked


def table(ctx, n, d):
    return [[ctx.real('x%d_%d' % (i, j)) for j in range(d)] for i in range(n)], [ctx.real('y%d' % i) for i in range(n)]


def load(ctx, n, d, mode, name):
    X, y = table(ctx, n, d)
    asked = install(ctx, X, y, mode)
    D = ctx.mod('pysad.utils').Data(BASE)
    a, b = D.get_data(name)
    ctx.eq(a, X, 'features in file order', shape=True)
    ctx.eq(b, y, 'labels in file order, flat', shape=True)
    ctx.check(len(asked) == 1 and str(asked[0][0]) == os.path.join(BASE, name), 'the requested file is read')
    if not name.endswith('.mat'):
        ctx.check(asked[0][1] == ',', 'comma separated')


def iterate(ctx, n, d, mode, name, shuffle):
    X, y = table(ctx, n, d)
    install(ctx, X, y, mode)
    p = ctx.draws_sym('perm')
    D = ctx.mod('pysad.utils').Data(BASE)
    k = {} if shuffle == 'default' else dict(shuffle=shuffle)
    out = list(D.get_iterator(name, **k))
    perms = [e[1] for e in p.log if e[0] == 'p']
    order = perms[0] if shuffle else list(range(n))
    ctx.check(len(perms) == (1 if shuffle else 0), 'one permutation when shuffled, none otherwise')
    ctx.check(len(out) == n, 'every row once')
    for (a, b), i in zip(out, order):
        ctx.eq(a, X[i], 'rows with their labels', shape=True)
        ctx.eq(b, y[i], 'rows with their labels')


def seeded(ctx, n, name, between):
    """equal seeds give equal orders, also when other random numbers are drawn before the iteration"""
    X, y = table(ctx, n, 1)
    y = [float(i) for i in range(n)]
    install(ctx, X, y, 'col')
    U = ctx.mod('pysad.utils')
    D = U.Data(BASE)
    s = ctx.choice('seed', 4)
    if between == 'both':
        i1, i2 = D.get_iterator(name, seed=s), D.get_iterator(name, seed=s)
        o1, o2 = list(i1), list(i2)
    else:
        o1 = list(D.get_iterator(name, seed=s))
        it = D.get_iterator(name, seed=s)
        if between:
            ctx.np.random.rand(3)
        o2 = list(it)
    ctx.check(len(o1) == n and len(o2) == n, 'every row once')
    seen = []
    for (a, b), (c, e) in zip(o1, o2):
        ctx.eq(a, c, 'equal seeds, equal order', shape=True)
        ctx.eq(b, e, 'equal seeds, equal order')
        k = int(float(ctx.scalar(b)))
        seen.append(k)
        ctx.eq(a, X[k], 'rows with their labels', shape=True)
    ctx.check(sorted(seen) == list(range(n)), 'every row once')


def minmax(ctx, n, d, scalar, few=False):
    U = ctx.mod('pysad.utils')
    X = ctx.mat('x', n, d) if not few else ctx.array([[ctx.real('x') if (i, j) == (n // 2, d - 1) else c for j, c in enumerate(series(d, i))] for i in range(n)], float)
    x0 = [[X[i, j] for j in range(d)] for i in range(n)]
    if scalar:
        arg = X if scalar == 2 else X.reshape(-1)
        lo, hi = U.get_minmax_scalar(arg)
        cols = [[v for r in x0 for v in r]]
        lo, hi = [ctx.scalar(lo)], [ctx.scalar(hi)]
    else:
        lo, hi = U.get_minmax_array(X)
        ctx.check(lo.shape == (d,) and hi.shape == (d,), 'one bound per feature')
        cols = [[r[j] for r in x0] for j in range(d)]
        lo, hi = [lo[j] for j in range(d)], [hi[j] for j in range(d)]
    for c, a, b in zip(cols, lo, hi):
        ctx.eq(a, ctx.min(c), 'lower bound attained')
        ctx.eq(b, ctx.max(c), 'upper bound attained')
        for v in c:
            ctx.check(ctx.both(a <= v, v <= b), 'bounds all entries')
    ctx.eq(X, x0, 'the data is left unmodified', shape=True)


def jobs(tier):
    q = tier == 'quick'
    J = []
    for n, d in ((1, 1), (3, 2), (2, 4)):
        for mode in ('col', 'row'):
            J.append((load, dict(n=n, d=d, mode=mode, name='cardio.mat')))
        J.append((load, dict(n=n, d=d, mode='col', name='isolet_sampled.txt')))
    for name in ('glass.mat', 'pima-indians_sampled.txt'):
        for sh in (False, True, 'default'):
            J.append((iterate, dict(n=3 if q else 4, d=2, mode='col', name=name, shuffle=sh)))
        for b in (False, True, 'both'):
            J.append((seeded, dict(n=7, name=name, between=b)))
    J.append((iterate, dict(n=25, d=1, mode='col', name='glass.mat', shuffle=False)))
    for n, d in ((1, 1), (1, 3), (4, 1), (3, 2), (2, 3)):
        J.append((minmax, dict(n=n, d=d, scalar=0)))
        J.append((minmax, dict(n=n, d=d, scalar=1)))
    J.append((minmax, dict(n=2, d=2, scalar=2)))
    for n, d in [(30, 9)] + [(c + 1, 2) for c in mine(FILES, 3, 300)] + [(3, c + 1) for c in mine(FILES, 3, 100)]:
        J.append((minmax, dict(n=n, d=d, scalar=0, few=True)))
        J.append((load, dict(n=n, d=d, mode='col', name='glass.mat')))
        J.append((iterate, dict(n=n, d=d, mode='col', name='glass.mat', shuffle=False)))
    if not q:
        J.append((minmax, dict(n=6, d=2, scalar=0)))
        J.append((minmax, dict(n=6, d=1, scalar=1)))
    return J
