"""Shared helpers of the harnesses."""
import ast
import glob
import os
from symex import loader

_cache = {}


def mine(paths, lo=2, hi=150, cap=6):
    """integer constants occurring in the current source: history lengths worth crossing"""
    key = (tuple(paths), lo, hi, cap)
    if key in _cache:
        return _cache[key]
    found = set()
    for p in paths:
        p = os.path.join(loader.REPO, p)
        fs = sorted(glob.glob(p + '/**/*.py', recursive=True)) if os.path.isdir(p) else [p]
        for f in fs:
            try:
                t = ast.parse(open(f).read())
            except Exception:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    v = n.value
                    if v == int(v) and lo <= v <= hi:
                        found.add(int(v))
                # small constant expressions such as 2 ** 5 or 1 << 6
                elif isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                    try:
                        v = eval(compile(ast.Expression(n), '', 'eval'), {})
                        if isinstance(v, int) and lo <= v <= hi:
                            found.add(v)
                    except Exception:
                        pass
    for v in os.environ.get('MINE_EXTRA', '').split(','):
        if v and lo <= int(v) <= hi:
            found.add(int(v))
    r = sorted(found)[:cap] if len(found) <= cap else sorted(found)[:cap - 1] + [max(found)]
    _cache[key] = r
    return r


def series(n, k=0):
    """deterministic, exactly representable values with repeats, negatives and zeros"""
    base = [3.0, -1.5, 0.0, 7.25, 3.0, -8.0, 2.5, 0.0, 5.5, -1.5, 12.0, 1.0, -0.25]
    return [base[(i * 5 + k) % len(base)] + ((i * 7 + k) % 11) * 0.5 - (4.0 if i % 4 == 1 else 0.0) for i in range(n)]


def absv(ctx, v):
    return ctx.ite(v >= 0, v, -v)
