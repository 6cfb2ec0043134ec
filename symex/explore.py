"""Runs one harness job: symbolic exploration, solver queries, replay on the real code."""
import io
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
import contextlib
import random as pyrandom
from fractions import Fraction
import numpy as np
from . import core, ctx as C, stubs, symnp, loader
from .core import z3, PathAbort, PathLimit, Engine

FUNCS = set()
_TOOL = 3


def start_monitor():
    m = sys.monitoring
    try:
        m.use_tool_id(_TOOL, 'verif')
    except ValueError:
        return
    pre = loader.REPO + '/pysad/'

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(pre):
            q = code.co_qualname
            if q != '<module>' and '<' not in q.split('.')[-1]:
                FUNCS.add(fn[len(loader.REPO) + 1:] + ':' + q)
        return m.DISABLE
    m.register_callback(_TOOL, m.events.PY_START, on_start)
    m.set_events(_TOOL, m.events.PY_START)


# ------------------------------------------------------------------ concrete replay
def import_real():
    """real, unmodified pysad from REPO (once per process, before forking replays)"""
    import warnings
    warnings.filterwarnings('ignore')
    if loader.REPO not in sys.path:
        sys.path.insert(0, loader.REPO)
    sys.dont_write_bytecode = True
    stubs.install_concrete()
    import pysad  # noqa
    return pysad


def run_concrete(fn, params, inputs, timeout=60):
    """fork, run harness on the real code; returns dict(status=ok|fail|exc|assume|crash, msg=..)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        res = None
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            signal.alarm(int(timeout))
            stubs.CUR['hooks'] = {}
            stubs.CUR['provider'] = None
            stubs.CUR['seed_np'] = stubs.CUR['seed_py'] = None
            np.random.seed(0)
            pyrandom.seed(0)
            c = C.ConcCtx(params, inputs)
            stubs.CUR['ctx'] = c
            try:
                with np.errstate(all='ignore'):
                    fn(c, **params)
                res = dict(status='ok', msg='', n=c.nchecks)
            except C.AssumeFail:
                res = dict(status='assume', msg='', n=c.nchecks)
            except C.CheckFail as e:
                res = dict(status='fail', msg=str(e), n=c.nchecks)
            except Exception as e:
                tb = traceback.format_exc().strip().split('\n')
                res = dict(status='exc', msg='%s: %s' % (type(e).__name__, e), tb=tb[-8:], n=c.nchecks)
            except BaseException as e:
                res = dict(status='crash', msg='%s: %s' % (type(e).__name__, e), n=0)
        except BaseException as e:
            res = dict(status='crash', msg=repr(e), n=0)
        finally:
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(json.dumps(res).encode())
            finally:
                os._exit(0)
    os.close(w)
    buf = b''
    end = time.monotonic() + timeout + 5
    while True:
        rl, _, _ = select.select([r], [], [], max(0.0, end - time.monotonic()))
        if not rl:
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf.decode())
    except Exception:
        return dict(status='crash', msg='no result (killed or timed out)', n=0)


# ------------------------------------------------------------------ symbolic job
def model_inputs(eng, m):
    out = {}
    for name in eng.input_order:
        k, v = eng.inputs[name]
        if k == 'r':
            f = core.real_value(m, v)
            out[name] = str(f) if f.denominator != 1 else str(f.numerator)
        elif k == 'i':
            x = m.eval(v, model_completion=True)
            out[name] = x.as_long() if z3.is_int_value(x) else 0
        else:
            out[name] = bool(z3.is_true(m.eval(v, model_completion=True)))
    return out


def bounds_on_inputs(eng, b=1000):
    cs = []
    for name in eng.input_order:
        k, v = eng.inputs[name]
        if k == 'r':
            cs.append(z3.And(v >= -b, v <= b))
    return cs


def dyadic(eng, q=4):
    cs = []
    for i, name in enumerate(eng.input_order):
        k, v = eng.inputs[name]
        if k == 'r':
            t = z3.Int('dy!%d' % i)
            cs.append(v * q == z3.ToReal(t))
            cs.append(z3.And(t >= -64 * q, t <= 64 * q))
    return cs


class Job:
    def __init__(self, name, fn, params, budget_s, max_paths, max_replays, crosscheck=0, seed=1, qtimeout=8000):
        self.name, self.fn, self.params = name, fn, params
        self.budget_s = budget_s
        self.max_replays = max_replays
        self.eng = Engine(deadline=time.monotonic() + budget_s, max_paths=max_paths, seed=seed, qtimeout=qtimeout)
        self.eng.cross = {}
        if crosscheck:
            self.eng.crosscheck = True
            self.eng.cross_budget = crosscheck
        self.violations = []
        self.unconfirmed = []
        self.engine_errors = {}
        self.replays = 0
        self.replay_ok = 0
        self.replay_assume = 0
        self.replay_n = 0
        self.samples = []
        self.nchecks = 0
        self.msgs = {}

    def replay(self, inputs):
        self.replays += 1
        r = run_concrete(self.fn, self.params, inputs)
        if r['status'] == 'ok':
            self.replay_ok += 1
        elif r['status'] == 'assume':
            self.replay_assume += 1
        return r

    def report(self, inputs, r, origin):
        self.violations.append(dict(harness=self.name, params=self.params, inputs=inputs, msg=r['msg'], status=r['status'],
                                    tb=r.get('tb'), origin=origin))

    def try_cex(self, cands, msg):
        """cands: iterable of models; replay until one reproduces"""
        last = None
        for m in cands:
            try:
                inp = model_inputs(self.eng, m)
            except PathLimit:
                continue
            r = self.replay(inp)
            last = (inp, r)
            if r['status'] in ('fail', 'exc', 'crash'):
                self.report(inp, r, 'solver counterexample: ' + msg)
                return True
        self.unconfirmed.append(dict(msg=msg, inputs=last[0] if last else None, replay=last[1] if last else None))
        return False

    def _models_for(self, neg):
        """progressively nicer models of pc AND neg"""
        e = self.eng
        for extra in (dyadic(e, 4), bounds_on_inputs(e, 100), bounds_on_inputs(e, 10 ** 6), []):
            m = e.query(e.pc + [neg] + extra, timeout=3000)
            if m is not None and m != 'unsat':
                yield m

    def discharge(self, ctx):
        """returns True if a violation was confirmed"""
        e = self.eng
        todo = []
        for kind, p, msg in ctx.pending:
            self.msgs[msg.split(' [')[0]] = self.msgs.get(msg.split(' [')[0], 0) + 1
            if kind == 'e':
                d = core.som(p[0] - p[1])
                if z3.is_rational_value(d):
                    f = d.as_fraction()
                    if f == 0:
                        e.stats.discharged += 1
                        continue
                elif not core.pkey(d):
                    e.stats.discharged += 1
                    continue
                todo.append((kind, p, msg, p[0] != p[1]))
            else:
                s = z3.simplify(p)
                if z3.is_true(s):
                    e.stats.discharged += 1
                    continue
                todo.append((kind, p, msg, z3.Not(p)))
        if not todo:
            return False
        bad = []
        if len(todo) > 1:
            r = e.query(e.pc + [z3.Or([t[3] for t in todo])], timeout=min(e.qtimeout, 3000))
            if r == 'unsat':
                e.stats.discharged += len(todo)
                return False
        for t in todo:
            if time.monotonic() > e.deadline + 20:
                e.stats.unknown += 1
                continue
            r = 'unsat' if e.valid_alone(t[3]) else e.query(e.pc + [t[3]])
            if r == 'unsat':
                e.stats.discharged += 1
            elif r is None:
                # second form: polynomial difference against a margin
                if t[0] == 'e':
                    rr = self.margin(t[1])
                    if rr == 'unsat':
                        e.stats.discharged += 1
                        e.stats.margin += 1
                        continue
                    if rr is not None:
                        bad.append((t, rr))
                        continue
                e.stats.unknown += 1
                e.stats.unknown_msgs[t[2]] = e.stats.unknown_msgs.get(t[2], 0) + 1
            else:
                if t[0] == 'e':
                    rr = self.margin(t[1])
                    if rr == 'unsat':
                        e.stats.discharged += 1
                        e.stats.margin += 1
                        continue
                    bad.append((t, rr if rr is not None else r))
                else:
                    bad.append((t, r))
        for t, m in bad:
            e.stats.sat += 1
            if t[0] == 'e':
                a, b = t[1]
                neg = z3.Or(a - b > core.rv(1e-3), b - a > core.rv(1e-3))
                if self.try_cex(self._chain(neg, m), t[2]):
                    return True
            else:
                if self.try_cex(self._chain(t[3], m), t[2]):
                    return True
        return False

    def _chain(self, neg, m):
        yield m
        n = 0
        for x in self._models_for(neg):
            yield x

    def margin(self, p):
        """difference beyond rounding tolerance for bounded inputs?"""
        a, b = p
        e = self.eng
        m = core.rv(1e-5)
        s = z3.If(a >= 0, a, -a)
        return e.query(e.pc + bounds_on_inputs(e, 1000) + [z3.Or(a - b > m * (1 + s), b - a > m * (1 + s))])

    def run(self):
        core.set_engine(self.eng)
        e = self.eng
        stop = False
        while e.work and not e.out_of_budget() and not stop:
            prefix, model = e.pick()
            e.begin(prefix, model)
            e.stats.paths += 1
            stubs.CUR['hooks'] = {}
            stubs.CUR['provider'] = None
            stubs.CUR['seed_np'] = stubs.CUR['seed_py'] = None
            np.random.seed(0)
            pyrandom.seed(0)
            ctx = None
            try:
                ctx = C.SymCtx(self.params, e)
                stubs.CUR['ctx'] = ctx
                with np.errstate(all='ignore'):
                    try:
                        self.fn(ctx, **self.params)
                        end = 'done'
                    except C.CheckFail:
                        end = 'fail'
                self.nchecks += ctx.nchecks
                e.ensure_model()
                u = e.stats.unknown
                if self.discharge(ctx):
                    stop = len(self.violations) >= 1
                elif e.stats.unknown > u and self.replays < self.max_replays + 6 and self.undecided(ctx):
                    stop = True
                elif end == 'fail':
                    # a check failed outright on this path, but not on the real code
                    pass
                elif self.replays < self.max_replays:
                    self.validate(ctx)
            except PathAbort:
                e.stats.aborted += 1
            except PathLimit as ex:
                e.stats.limited += 1
                e.stats.limit_why[ex.why] = e.stats.limit_why.get(ex.why, 0) + 1
                if ex.why == 'time budget':
                    e.stats.unexplored += 1
                    break
                stop = self.partial(ctx) or stop
            except RecursionError:
                e.stats.limited += 1
                e.stats.limit_why['recursion'] = e.stats.limit_why.get('recursion', 0) + 1
            except Exception as ex:
                # the code under test raised: confirm on the real code
                tb = traceback.format_exc()
                stop = self.on_exception(ctx, ex, tb) or stop
        e.stats.unexplored += len(e.work)
        return self.result()

    def light(self, avoid=()):
        """a model of the path constraints over the inputs alone (when the whole path condition is too hard)"""
        e = self.eng
        names = set()
        for n in e.input_order:
            names.add(e.inputs[n][1].get_id())

        def own(t, memo={}):
            todo, seen = [t], set()
            while todo:
                u = todo.pop()
                if u.get_id() in seen:
                    continue
                seen.add(u.get_id())
                if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.get_id() not in names:
                    return False
                todo.extend(u.children())
            return True
        cs = [c for c in e.pc if own(c)]
        for m in avoid:
            ds = [e.inputs[n][1] != m.eval(e.inputs[n][1], model_completion=True) for n in e.input_order if e.inputs[n][0] == 'r']
            if ds:
                cs.append(z3.And(ds))
        for extra in (dyadic(e, 4), []):
            m = e.query(cs + extra, timeout=1000)
            if m is not None and m != 'unsat':
                return m
        return None

    def undecided(self, ctx):
        """some assertion of the path could not be decided: its witnesses are still run on the real code"""
        ms = []
        for k in range(3):
            m = self.light(ms)
            if m is None:
                break
            ms.append(m)
            try:
                inp = model_inputs(self.eng, m)
            except PathLimit:
                continue
            r = self.replay(inp)
            if r['status'] in ('fail', 'exc', 'crash'):
                self.report(inp, r, 'path witness replayed on the real code')
                return True
        return False

    def validate(self, ctx):
        """replay a model of the finished path on the real code"""
        e = self.eng
        m = e.query(e.pc + dyadic(e, 2), timeout=500)
        if m is None or m == 'unsat':
            m = e.model
        if m is None:
            m = self.light()
        if m is None:
            return
        try:
            inp = model_inputs(e, m)
        except PathLimit:
            return
        r = self.replay(inp)
        if len(self.samples) < 2:
            self.samples.append(dict(harness=self.name, params=_js(self.params), inputs=inp, replay=r['status'], decisions=len(e.trace)))
        if r['status'] in ('fail', 'exc', 'crash'):
            self.report(inp, r, 'path witness replayed on the real code')

    def partial(self, ctx):
        """path could not be completed symbolically: its model is still run on the real code"""
        e = self.eng
        try:
            m = e.ensure_model()
            if ctx is not None and ctx.pending and self.discharge(ctx):
                return True
            if m is None or self.replays >= self.max_replays:
                return False
            inp = model_inputs(e, m)
        except (PathAbort, PathLimit):
            return False
        r = self.replay(inp)
        if r['status'] in ('fail', 'exc', 'crash'):
            self.report(inp, r, 'path witness replayed on the real code')
            return True
        return False

    def on_exception(self, ctx, ex, tb):
        e = self.eng
        key = '%s: %s' % (type(ex).__name__, str(ex)[:120])
        try:
            m = e.ensure_model()
        except (PathAbort, PathLimit):
            return False
        if m is None:
            e.stats.limited += 1
            return False
        if ctx is not None and ctx.pending:
            try:
                if self.discharge(ctx):
                    return True
            except (PathAbort, PathLimit):
                pass
        try:
            cands = []
            d = e.query(e.pc + dyadic(e, 4), timeout=1000)
            if d is not None and d != 'unsat':
                cands.append(d)
            cands.append(m)
            for c in cands:
                inp = model_inputs(e, c)
                r = self.replay(inp)
                if r['status'] in ('fail', 'exc', 'crash'):
                    self.report(inp, r, 'exception on a feasible path: ' + key)
                    return True
        except PathLimit:
            pass
        self.engine_errors.setdefault(key, []).append(tb[-1800:]) if len(self.engine_errors.get(key, [])) < 1 else self.engine_errors[key].append('')
        return False

    def result(self):
        e = self.eng
        return dict(name=self.name, params=_js(self.params), stats=e.stats.as_dict(), violations=[dict(v, params=_js(v['params'])) for v in self.violations],
                    unconfirmed=self.unconfirmed[:5], n_unconfirmed=len(self.unconfirmed),
                    engine_errors={k: [v[0], len(v)] for k, v in self.engine_errors.items()},
                    replays=self.replays, replay_ok=self.replay_ok, replay_assume=self.replay_assume,
                    samples=self.samples, nchecks=self.nchecks, msgs=self.msgs, cross=e.cross, funcs=sorted(FUNCS))


def _js(p):
    return {k: (v if isinstance(v, (int, float, str, bool, type(None), list, tuple)) else str(v)) for k, v in p.items()}
