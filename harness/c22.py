"""C22 reference-window models retrain on exactly the latest reference window."""
from harness.util import mine, series
FILES = ['pysad/models/integrations/reference_window_model.py', 'pysad/models/integrations/pyod_model.py', 'pysad/models/iforest_asd.py']
NOTE = 'the wrapped detector is a recording stand-in whose decision function is symbolic; sizes, labels and reads are symbolic, forked'


class Log:
    def __init__(self, ctx):
        self.ctx, self.fits = ctx, []

    def cls(self):
        log, c = self, self.ctx

        class Det:
            def __init__(self, **kw):
                self.kw, self.train, self.n = kw, None, 0

            def fit(self, X, y=None):
                self.train = ([list(r) for r in X], None if y is None else list(y))
                self.n += 1
                self.id = len(log.fits)
                log.fits.append(self)
                return self

            def decision_function(self, X):
                r = [list(v) for v in X]
                self.asked = r
                log.used = self
                return c.array([log.score(self.id, v) for v in r], float)
        return Det

    def score(self, k, v):
        c = self.ctx
        return (c.real('s%d' % k) if k < 2 else 10.0 * k) + 2.0 * v[0] - sum(v[1:])


def run(ctx, log, m, w, s, d, n, init, labels, kw, symx, reads, late=False):
    con = series((n + init) * d, 3)
    rows = [con[i * d:(i + 1) * d] for i in range(n + init)]
    for i in symx:
        rows[i + init][0] = ctx.real('x%d' % i)
    lab = [ctx.int('y%d' % i, 0, 1) if (i - init) in symx else i % 2 for i in range(n + init)] if labels else None
    fits = 0
    cur = None

    def look(i, X):
        ctx.check(len(log.fits) == fits, 'retrains exactly when it should')
        r = ctx.scalar(m.score_partial(X))
        u = log.used
        ctx.check(u.n == 1, 'the model in use was trained once')
        ctx.eq(u.train[0], cur[0], 'trained on the current reference window')
        if labels:
            ctx.check(u.train[1] is not None, 'labels reach the model')
            ctx.eq(u.train[1], cur[1], 'labels aligned with their instances')
        else:
            ctx.check(u.train[1] is None, 'no labels invented')
        ctx.check(u.kw == kw, 'keyword arguments reach every wrapped model')
        ctx.eq(u.asked, [list(X)], 'the instance itself is scored')
        ctx.eq(r, log.score(u.id, list(X)), 'the wrapped model scores')
        ctx.check(len(log.fits) == fits, 'scoring trains nothing')

    m = m(rows[:init], lab[:init] if labels else None)
    if init:
        cur = (rows[:init], lab[:init] if labels else None)
        fits = 1
        look(-1, ctx.array(rows[0], float))
    for i in range(n):
        X = ctx.array(rows[init + i], float)
        k = i + 1
        r = m.fit_partial(X, lab[init + i]) if labels else m.fit_partial(X, i % 2) if late and (late > 1 or i % 3) else m.fit_partial(X)
        ctx.check(r is m, 'fit returns the model')
        ctx.eq(X, rows[init + i], 'the instance is left unmodified')
        a = init + k
        if (not init and k < w) or k % s == 0:
            cur = (rows[max(0, a - w):a], lab[max(0, a - w):a] if labels else None)
            fits += 1
        if reads or i == n - 1:
            look(i, X)
        if reads == 2:
            m.score_partial(ctx.array([0.5] * d, float))


def general(ctx, wmax, smax, d, n, init, symx, reads, wmin=2, late=0):
    # late: labels come after an initial window without any (2: with every instance)
    log = Log(ctx)
    w = ctx.choice('w', wmax - wmin + 1) + wmin
    s = ctx.choice('s', smax) + 1
    labels = not late and ctx.flag('labels')
    kw = dict(contamination=0.125, n_estimators=7) if ctx.flag('kw') else {}
    M = ctx.mod('pysad.models.integrations.reference_window_model').ReferenceWindowModel
    det = log.cls()

    def build(X, y):
        a = {}
        if X:
            a['initial_window_X'] = ctx.array(X, float)
            if y is not None:
                a['initial_window_y'] = ctx.array(y, int)
        return M(det, w, s, **a, **kw)
    run(ctx, log, build, w, s, d, n, init, labels, kw, symx, reads, late)


def asd(ctx, wmax, d, n, init, symx):
    log = Log(ctx)
    ctx.hook('pyod.models.iforest:IForest', log.cls())
    w = ctx.choice('w', wmax - 1) + 2
    kw = dict(max_features=0.5, random_state=3) if ctx.flag('kw') else {}
    M = ctx.mod('pysad.models.iforest_asd').IForestASD
    run(ctx, log, lambda X, y: M(**(dict(initial_window_X=ctx.array(X, float)) if X else {}), window_size=w, **kw), w, w, d, n, init, False, kw, symx, 1)


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append((general, dict(wmax=4, smax=5, d=2, n=6, init=0, symx=(1, 4), reads=1)))
    J.append((general, dict(wmax=3, smax=3, d=1, n=5, init=2, symx=(0, 3), reads=1)))
    J.append((general, dict(wmax=4, smax=3, d=2, n=4, init=6, symx=(2,), reads=1)))
    J.append((general, dict(wmax=3, smax=2, d=1, n=4, init=1, symx=(0,), reads=2, wmin=1)))
    J.append((general, dict(wmax=3, smax=3, d=1, n=6, init=0, symx=(5,), reads=0)))
    J.append((general, dict(wmax=9, smax=7, d=1, n=20, init=0, symx=(18, 19), reads=1, wmin=6)))
    J.append((general, dict(wmax=6, smax=3, d=9, n=8, init=3, symx=(5,), reads=1, wmin=5)))
    J.append((general, dict(wmax=4, smax=3, d=2, n=6, init=3, symx=(1,), reads=1, late=1)))
    J.append((general, dict(wmax=4, smax=3, d=2, n=6, init=2, symx=(1,), reads=1, late=2)))
    J.append((asd, dict(wmax=4, d=2, n=6, init=0, symx=(3,))))
    J.append((asd, dict(wmax=4, d=1, n=5, init=3, symx=(1,))))
    if not q:
        J.append((general, dict(wmax=6, smax=7, d=2, n=12, init=0, symx=(1, 7), reads=1)))
        J.append((general, dict(wmax=6, smax=7, d=2, n=9, init=4, symx=(1, 7), reads=2)))
    for c in sorted(set([40] + mine(FILES, 3, 1100))):
        J.append((general, dict(wmax=c, smax=2, d=1, n=2 * c + 1, init=0, symx=(2 * c,), reads=0, wmin=c - 1)))
        J.append((asd, dict(wmax=3, d=1, n=c + 1, init=2, symx=(c,))))
    return J
