"""C30 equal seeds and streams give equal results; instances share no state."""
import random as pyrandom
import numpy as real_np
from harness.util import mine, series
from harness import comps
from harness.c29 import rows_of, labels
NOTE = 'every component is driven twice with the same symbolic stream and seed; in the second history other instances of the library are created, fitted and read in between, at positions chosen by the solver, with the generator states put back; third-party detectors, trees and decompositions are stand-ins'


class away:
    """what happens inside leaves the generators as they were"""

    def __enter__(self):
        self.s = real_np.random.get_state(), pyrandom.getstate()

    def __exit__(self, *a):
        real_np.random.set_state(self.s[0])
        pyrandom.setstate(self.s[1])


def drive(ctx, T, rows, ys, q, seed, between, every):
    between(-1)
    ctx.mod('pysad.utils').fix_seed(seed)
    o = T.make(ctx)
    out = []
    for i, v in enumerate(rows):
        between(i)
        T.fit(o, T.arg(ctx, v), ys[i] if T.labels else None)
        if (every or T.pops) and i + 1 >= T.first and (i + 1) % T.step == 0:
            out.append(T.read(o, T.arg(ctx, v)))
    between(len(rows))
    for w in [] if T.pops else q:
        out.append(T.read(o, T.arg(ctx, w)))
    return out


def run(ctx, comp, n, pos, symfit, seed, other, every=True, query=True):
    T = comps.TABLE[comp]
    U = comps.ALT[comp] if other == 'alt' else comps.TABLE[other or comp]
    comps.install(ctx)
    rows = rows_of(ctx, T, n, symfit)
    ys = labels(T, n)
    q = [list(rows[-1])]
    if T.query and query and T.kind not in ('stat', 'metric'):
        q.append(list(rows[-1]))
        q[-1][0] = ctx.real('q', T.lo, T.hi)
    urows = rows_of(ctx, U, n + 4, ())[::-1]
    us = [0, 1] * n + [0, 1] * 4
    base = drive(ctx, T, rows, ys, q, seed, lambda i: None, every)
    st = dict(b=None, k=0)

    def work(b, m):
        for _ in range(m):
            if st['k'] >= len(urows):
                return
            v = urows[st['k']]
            if comp == other or other is None:
                v = list(v)
                if not U.kind == 'metric' and T.symfit and st['k'] == 0:
                    v[0] = ctx.real('b', U.lo, U.hi)
            st['k'] += 1
            U.fit(b, U.arg(ctx, v), us[st['k']] if U.labels else None)
            if st['k'] >= U.first and st['k'] % U.step == 0:
                U.read(b, U.arg(ctx, v))

    def between(i):
        if i not in pos:
            return
        if not ctx.flag('at%d' % i):
            return
        with away():
            if st['b'] is None:
                ctx.seed(99)
                st['b'] = U.make(ctx)
            work(st['b'], 2 * U.step)
    ctx.fresh()   # the reference stays what a process without other instances computes
    got = drive(ctx, T, rows, ys, q, seed, between, every)
    ctx.check(len(got) == len(base), 'as many results')
    for a, b in zip(base, got):
        ctx.eq(b, a, 'results do not depend on other instances', tol=1e-9)


def fix_at(ctx, seed):
    F = ctx.mod('pysad.utils').fix_seed
    s = seed if seed < 2 ** 31 else seed - ctx.choice('d', 2)
    F(s)
    if ctx.concrete:
        a, b = real_np.random.RandomState(s), pyrandom.Random(s)
        ctx.eq(real_np.random.random_sample(4), a.random_sample(4), 'numpy generator seeded')
        ctx.eq([pyrandom.random() for _ in range(4)], [b.random() for _ in range(4)], 'python generator seeded')
    else:
        from symex import stubs
        ctx.eq(stubs.CUR.get('seed_np', -1), s, 'numpy generator seeded')
        ctx.eq(stubs.CUR.get('seed_py', -1), s, 'python generator seeded')


def fix(ctx, dirty):
    """both global generators are in the state of a generator freshly seeded with the given number"""
    F = ctx.mod('pysad.utils').fix_seed
    s = ctx.int('seed', 0, 2 ** 32 - 1)
    for _ in range(dirty):
        real_np.random.random()
        pyrandom.random()
    if dirty > 1:
        F(s + 1 if dirty % 2 else 7)
    F(s)
    if ctx.concrete:
        a, b = real_np.random.RandomState(s), pyrandom.Random(s)
        ctx.eq(real_np.random.random_sample(4), a.random_sample(4), 'numpy generator seeded')
        ctx.eq([pyrandom.random() for _ in range(4)], [b.random() for _ in range(4)], 'python generator seeded')
        ctx.eq(real_np.random.standard_normal(3), a.standard_normal(3), 'numpy generator seeded')
    else:
        from symex import stubs
        ctx.eq(stubs.CUR.get('seed_np', -1), s, 'numpy generator seeded')
        ctx.eq(stubs.CUR.get('seed_py', -1), s, 'python generator seeded')


def jobs(tier):
    quick = tier == 'quick'
    J = [(fix, dict(dirty=d)) for d in (0, 1, 2, 3)]
    J += [(fix_at, dict(seed=s)) for s in (0, 1, 2, 61, 255, 1000, 65537, 123456789, 2 ** 31, 2 ** 32 - 1)]
    others = list(comps.TABLE)
    for j, (k, T) in enumerate(comps.TABLE.items()):
        n = T.n
        sf = (n - 1,) if T.symfit else ()
        pos = (0, n - 1)
        J.append((run, dict(comp=k, n=n, pos=pos, symfit=sf, seed=11, other=None, query=k not in ('knncad',))))
        if k in comps.ALT:
            J.append((run, dict(comp=k, n=n, pos=(-1, 1, n), symfit=(), seed=5, other='alt', every=k != 'knncad', query=False)))
        J.append((run, dict(comp=k, n=n, pos=(1, n), symfit=(), seed=3, other=others[(j * 17 + 5) % len(others)], every=False, query=False)))
    return J
