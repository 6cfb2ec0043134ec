"""C03 windows hold exactly the most recent items in arrival order."""
from harness.util import mine, series


def held(ctx, win, items, msg):
    got = list(win.get())
    ctx.check(len(got) == len(items), msg + ': number of items')
    for g, e in zip(got, items):
        ctx.same(g, e, msg)


def bounded(ctx, n, wmax, other_w=2, read='each'):
    """symbolic window size, symbolic item values (ties included), two windows side by side"""
    W = ctx.mod('pysad.utils.window')
    w = ctx.int('w', 1, wmax)
    a, b, u = W.Window(w), W.Window(other_w), W.UnlimitedWindow()
    items, bi = [], []
    k = None
    for i in range(n):
        x = ctx.real('x%d' % i)
        a.update(x)
        u.update(x)
        items.append(x)
        if i % 2 == 0:
            y = object()
            b.update(y)
            bi.append(y)
        if read == 'each' or i == n - 1:
            k = k or w.__index__()
            held(ctx, a, items[-k:], 'bounded window holds the last window_size items in order')
            held(ctx, u, items, 'unlimited window holds all items')
            held(ctx, b, bi[-other_w:], 'separate windows do not share items')


def vectors(ctx, n, w):
    """array items keep their values and are not merged"""
    W = ctx.mod('pysad.utils.window')
    a, u = W.Window(w), W.UnlimitedWindow()
    items = []
    for i in range(n):
        x = ctx.vec('v%d' % i, 2)
        a.update(x)
        u.update(x)
        items.append(x)
        held(ctx, a, items[-w:], 'bounded window holds the last window_size items in order')
        held(ctx, u, items, 'unlimited window holds all items')


def again(ctx, n, w, kind):
    """the same object inserted several times stays in the window several times"""
    W = ctx.mod('pysad.utils.window')
    a, u = W.Window(w), W.UnlimitedWindow()
    pool = [ctx.vec('v%d' % i, 2) if kind == 'vec' else ctx.real('v%d' % i) if kind == 'real' else object() for i in range(2)]
    items = []
    for i in range(n):
        x = pool[ctx.choice('k%d' % i, 2)]
        a.update(x)
        u.update(x)
        items.append(x)
        held(ctx, a, items[-w:], 'bounded window holds the last window_size items in order')
        held(ctx, u, items, 'unlimited window holds all items')


def long(ctx, n, w):
    W = ctx.mod('pysad.utils.window')
    a, u = W.Window(w), W.UnlimitedWindow()
    con = series(n)
    items = []
    for i in range(n):
        x = ctx.real('x%d' % i) if i in (0, n - w, n - 1) else con[i]
        a.update(x)
        u.update(x)
        items.append(x)
        if i % max(1, n // 40) == 0 or i > n - 3:
            held(ctx, a, items[-w:], 'bounded window holds the last window_size items in order')
    held(ctx, u, items, 'unlimited window holds all items')


def jobs(tier):
    q = tier == 'quick'
    J = [(bounded, dict(n=5 if q else 9, wmax=6 if q else 10)), (bounded, dict(n=7 if q else 12, wmax=8 if q else 13, read='end')),
         (bounded, dict(n=6, wmax=3, other_w=1)), (vectors, dict(n=5, w=1)), (vectors, dict(n=6, w=3))]
    for kind in ('vec', 'real', 'object'):
        J.append((again, dict(n=4 if q else 6, w=2, kind=kind)))
    for c in sorted(set([20] + mine(['pysad/utils/window.py'], 3, 3000))):
        for w in sorted({c, c - 1, c + 1, max(1, c // 2)}):
            J.append((long, dict(n=3 * c + 1, w=w)))
    for w in ((50, 200, 1000) if q else (50, 200, 1000, 3000)):
        J.append((long, dict(n=2 * w + 3, w=w)))
    return J
