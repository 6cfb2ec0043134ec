"""C01 streaming statistics = batch statistics."""
from harness.util import mine, series, absv
STATS = ['CountMeter', 'SumMeter', 'SumSquaresMeter', 'AverageMeter', 'VarianceMeter', 'MinMeter', 'MaxMeter', 'MedianMeter']
ORDER = ('MinMeter', 'MaxMeter', 'MedianMeter')


def oracle(ctx, name, vals):
    if name == 'CountMeter':
        return len(vals)
    if name == 'SumMeter':
        return ctx.sum(vals)
    if name == 'SumSquaresMeter':
        return ctx.sum([v * v for v in vals])
    if name == 'AverageMeter':
        return ctx.mean(vals)
    if name == 'VarianceMeter':
        return ctx.pvar(vals)
    if name == 'MinMeter':
        return ctx.min(vals)
    if name == 'MaxMeter':
        return ctx.max(vals)
    if name == 'MedianMeter':
        return ctx.median(vals)
    raise KeyError(name)


def make(ctx, stat, absolute):
    S = ctx.mod('pysad.statistics')
    return S.AbsStatistic(getattr(S, stat)) if absolute else getattr(S, stat)()


def read(ctx, m, stat, held, absolute):
    exp = oracle(ctx, stat, held)
    if absolute:
        exp = absv(ctx, exp)
    ctx.eq(m.get(), exp, '%s equals the batch statistic' % stat)
    ctx.eq(m.get(), exp, '%s unchanged by reading' % stat)


def interleave(ctx, stat, steps, absolute=False):
    """every interleaving of `steps` insertions/removals of symbolic numbers, read or not after every step"""
    m = make(ctx, stat, absolute)
    held = []
    for i in range(steps):
        op = ctx.choice('op%d' % i, 1 + len(held)) if held else 0
        if op == 0:
            x = ctx.real('x%d' % i)
            r = m.update(x)
            held.append(x)
        else:
            x = held.pop(op - 1)
            r = m.remove(x)
        ctx.check(r is m, 'update/remove return the tracker itself')
        if held and (i == steps - 1 or ctx.flag('read%d' % i)):
            read(ctx, m, stat, held, absolute)


def pattern(ctx, stat, pat, nsym, absolute=False):
    """fixed schedule: I insert, f/l/m remove first/last/middle held, g read; nsym symbolic values, the rest concrete"""
    m = make(ctx, stat, absolute)
    held, n = [], 0
    vals = series(len(pat))
    tot = sum(1 for c in pat if c == 'I')
    pos = set(range(tot)) if nsym >= tot else set(int(round(k * (tot - 1) / max(1, nsym - 1))) for k in range(nsym))
    for c in pat:
        if c == 'I':
            x = ctx.real('x%d' % n) if n in pos else vals[n]
            n += 1
            m.update(x)
            held.append(x)
        elif c == 'g':
            read(ctx, m, stat, held, absolute)
        else:
            i = {'f': 0, 'l': len(held) - 1, 'm': len(held) // 2}[c]
            m.remove(held.pop(i))
    read(ctx, m, stat, held, absolute)


def long(ctx, stat, n, removals):
    """long history: n insertions (2 symbolic, the others concrete), then FIFO removals, read at the ends"""
    m = make(ctx, stat, False)
    vals = series(n)
    held = []
    for i in range(n):
        x = ctx.real('x%d' % i) if i in (1, n - 2) else vals[i]
        m.update(x)
        held.append(x)
    read(ctx, m, stat, held, False)
    for i in range(removals):
        m.remove(held.pop(0))
    read(ctx, m, stat, held, False)
    for i in range(removals // 2):
        m.remove(held.pop(-1))
        if i % 7 == 0:
            m.update(vals[i])
            held.append(vals[i])
    read(ctx, m, stat, held, False)


def jobs(tier):
    J = []
    q = tier == 'quick'
    n = 4 if q else 5
    lens = sorted(set([12] + [c + 2 for c in mine(['pysad/statistics'], 3, 1100 if q else 4000)]))
    for s in reversed(STATS):
        J.append((interleave, dict(stat=s, steps=n)))
    for s in reversed(STATS):
        J.append((interleave, dict(stat=s, steps=n - 1, absolute=True)))
        k = (3 if q else 4) if s in ORDER else 8
        J.append((pattern, dict(stat=s, pat='IIIIIgfgmgIglgIIgffg', nsym=k)))
        J.append((pattern, dict(stat=s, pat='IIfIIfIIfIIfgIIffg', nsym=k)))
        J.append((pattern, dict(stat=s, pat='IlIlIIllIgIIIg', nsym=3, absolute=True)))
        for L in lens:
            J.append((long, dict(stat=s, n=L, removals=L // 2)))
    return J
