"""C07 evaluation metrics equal the batch metric over the full history."""
from harness.util import mine
FILES = ['pysad/evaluation/metrics.py', 'pysad/core/base_metric.py']


def oracle(ctx, name, t, p):
    """t: concrete 0/1 labels; p: predictions"""
    n, P = len(t), sum(t)
    if name == 'PrecisionMetric':
        pp = sum(1 for v in p if v == 1)
        return sum(1 for a, b in zip(t, p) if a == 1 and b == 1) / pp if pp else 0.0
    if name == 'RecallMetric':
        return sum(1 for a, b in zip(t, p) if a == 1 and b == 1) / P if P else 0.0
    if name == 'AUROCMetric':
        s = 0
        for i in range(n):
            for j in range(n):
                if t[i] == 1 and t[j] == 0:
                    s = s + ctx.ite(p[i] > p[j], 1.0, ctx.ite(p[i] == p[j], 0.5, 0.0))
        return s / (P * (n - P))
    if P == 0:
        return 0.0
    # average precision: sum over positives of precision at that positive's score
    s = 0
    for i in range(n):
        if t[i] != 1:
            continue
        num = ctx.count([p[j] >= p[i] for j in range(n) if t[j] == 1])
        den = ctx.count([p[j] >= p[i] for j in range(n)])
        v = num / 1.0 * (1.0 / n)
        for k in range(1, n):
            v = ctx.ite(den == k, num * (1.0 / k), v)
        s = s + v
    return s / P


def history(ctx, metric, n, reads, binary_pred=False, warm=0):
    """every label sequence of length n (after `warm` fixed pairs); predictions symbolic (or every 0/1 sequence)"""
    E = ctx.mod('pysad.evaluation')
    m = getattr(E, metric)()
    other = getattr(E, metric)()
    t, p = [], []
    for i in range(warm):
        t.append((i * 7 // 3) % 2)
        p.append(float((i * 5) % 4) / 2 if not binary_pred else (i * 3 // 2) % 2)
        m.update(t[-1], p[-1])
    for i in range(n):
        y = ctx.choice('y%d' % i, 2)
        s = ctx.choice('p%d' % i, 2) if binary_pred else ctx.real('p%d' % i)
        m.update(y, s)
        other.update(1 - y, 1 - s)
        t.append(y)
        p.append(s)
        if i == n - 1 or (reads == 'all') or (reads == 'some' and ctx.flag('g%d' % i)):
            if metric == 'AUROCMetric' and len(set(t)) < 2:
                ctx.check(ctx.raises(m.get), 'one class only: an error is raised')
            else:
                e = oracle(ctx, metric, t, p)
                ctx.eq(m.get(), e, '%s equals the batch metric' % metric)
                ctx.eq(m.get(), e, '%s unchanged by reading' % metric)


def jobs(tier):
    q = tier == 'quick'
    J = []
    for m in ('PrecisionMetric', 'RecallMetric'):
        J.append((history, dict(metric=m, n=4 if q else 5, reads='all', binary_pred=True)))
        J.append((history, dict(metric=m, n=3, reads='some', binary_pred=True)))
        for w in sorted(set([25] + [c + 1 for c in mine(FILES, 3, 2100)])):
            J.append((history, dict(metric=m, n=2, reads='all', binary_pred=True, warm=w)))
    for m in ('AUROCMetric', 'AUPRMetric'):
        J.append((history, dict(metric=m, n=3 if q else 4, reads='some')))
        J.append((history, dict(metric=m, n=4 if q else 5, reads='all')))
        J.append((history, dict(metric=m, n=4, reads='all', binary_pred=True)))
        for w in sorted(set([8] + [c + 1 for c in mine(FILES, 3, 2100)])):
            J.append((history, dict(metric=m, n=2, reads='all', warm=w)))
    return J
