"""Run a harness symbolically over all paths and discharge its obligations."""
import math
import os
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import sym as S
from . import ctx as C
from . import shim
from .env import SymEnv, HarnessSkip
from .sym import Sym, SymBool, Unsupported, lift


class Result(object):
    def __init__(self):
        self.proved = []          # labels
        self.first, self.stopped = None, False
        self.candidates = []      # (label, assignment, note)
        self.inconclusive = []    # (label, why)
        self.errors = []
        self.paths = 0
        self.pruned = 0
        self.witness = 0
        self.stats = None
        self.labels = set()
        self.validations = []
        self.functions = set()
        self.stubs = set()


def pi(self):
    n = S.var('pi')
    if n.id not in self.samples:
        self.samples[n.id] = np.full(C.NS, math.pi)
        s = Sym(n)
        self.axioms[n.id] = [SymBool('>', s - Fraction(314159265, 10 ** 8)),
                             SymBool('<', s - Fraction(314159266, 10 ** 8))]
    return Sym(n)


C.World.pi = pi


_STUB_NAMES = {'la_inv': 'linalg.inv', 'la_pinv': 'linalg.pinv', 'la_det': 'linalg.det',
               'la_solve': 'linalg.solve', '_chol_lower': 'linalg.cholesky', 'la_qr': 'linalg.qr',
               'la_expm': 'linalg.expm', 'la_svd': 'linalg.svd', 'la_eigh': 'linalg.eigh',
               'la_sqrtm': 'linalg.sqrtm', 'la_slogdet': 'linalg.slogdet', '_norm': 'linalg.norm',
               'la_block_diag': 'linalg.block_diag', 'nd_convolve': 'ndimage.convolve',
               'nd_shift': 'ndimage.shift', 'logpdf': 'stats.logpdf', 'pdf': 'stats.pdf', 'cdf': 'stats.cdf',
               '_searchsorted': 'numpy.searchsorted', 'shaped': 'random draws', 'one': 'random draws',
               'mvn': 'random.multivariate_normal', 'scipy_mahalanobis': 'distance.mahalanobis',
               'np_allclose': 'numpy.allclose', '_atan2': 'arctan2', '_atan': 'arctan'}


def watch(res, root):
    import sys
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        pass
    pre = os.path.join(root, 'filterpy') + os.sep
    shimf = shim.__file__

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(pre):
            if not code.co_qualname.startswith('<') and code.co_flags & 1:
                res.functions.add(fn[len(root) + 1:] + ':' + code.co_qualname)
        elif fn == shimf and code.co_name in _STUB_NAMES:
            res.stubs.add(_STUB_NAMES[code.co_name])
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    mon.restart_events()


def run(harness, params, opts=None, seed=1, root=None):
    opts = dict(opts or {})
    w = C.World(seed)
    w.algs = []
    w.qr_sign = 1
    w.invmemo = {}
    res = Result()
    res.stats = w.stats
    root = root or os.environ.get('VERIF_DEV_REPO', '/repo')
    finder = shim.load(root)
    res.finder = finder
    watch(res, root)
    max_paths = opts.get('max_paths', 400)
    todo = [[]]
    t0 = time.time()
    deadline = t0 + opts.get('wall', 600)
    done = {}
    while todo:
        if res.paths >= max_paths or time.time() > deadline:
            res.inconclusive.append(('paths', 'path/time budget exhausted after %d paths' % res.paths))
            break
        prefix = todo.pop()
        S._SQRT.clear()
        ctx = C.Ctx(w, prefix, opts)
        ctx.rand = shim.Rand()
        ctx.mvn_calls = []
        ctx.mvn_drawn = []
        S.CTX = ctx
        env = SymEnv(w, ctx, shim.SHIMS)
        ctx.env = env
        failed = None
        res.paths += 1
        try:
            harness(env, **params)
        except C.AssumeFail:
            res.pruned += 1
            todo.extend(ctx.pending)
            continue
        except HarnessSkip:
            todo.extend(ctx.pending)
            continue
        except Unsupported as e:
            failed = ('unsupported', e)
        except Exception as e:
            failed = ('exception', e)
        todo.extend(ctx.pending)
        if failed:
            tb = ''.join(traceback.format_exception(failed[1]))[-3000:]
            ctx.obligations.append(('raised', ('b', False), len(ctx.path), len(ctx.domain),
                                    '%s %r\n%s' % (failed[0], failed[1], tb)))
            ctx.raised = failed[0]
        if not failed and len(res.validations) < opts.get('validations', 4):
            validation(w, ctx, env, res)
        reached = False
        ctx.closed = []
        # assertions that a floating point evaluation already contradicts go first (order only)
        obs = sorted(ctx.obligations, key=lambda ob: not suspicious(w, ctx, ob))
        for ob in obs:
            reached |= decide(w, ctx, env, ob, res, opts, done, deadline)
            if enough(res, opts):
                break
        if ctx.closed:
            # equalities closed while building the terms, confirmed by one query
            w.solve_nra([z3.Or(ctx.closed)], 5000)
        if enough(res, opts):
            break
    return res


def enough(res, opts):
    """counterexamples to replay are at hand: the instance need not be explored further"""
    if not res.candidates:
        return False
    if res.first is None:
        res.first = time.time()
    stop = len(res.candidates) >= opts.get('max_candidates', 6) or time.time() - res.first > opts.get('after_first', 30)
    if stop and not res.stopped:
        res.stopped = True
        res.inconclusive.append(('stopped', 'not explored further: counterexamples were found'))
    return stop


def suspicious(w, ctx, ob):
    g = ob[1]
    if ob[0] == 'raised':
        return getattr(ctx, 'raised', None) != 'unsupported'
    try:
        if g[0] != 'eq':
            if g[1] is True or g[1] is False:
                return not g[1]
            t, rel = w.fbool(g[1])
            return bool((ctx.mask & rel & ~t).any())
        if g[1] is g[2]:
            return False
        with np.errstate(all='ignore'):
            a, b = w.feval(g[1]), w.feval(g[2])
            return bool((ctx.mask & np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) > 1e-6 * (1 + np.abs(a)))).any())
    except Exception:
        return False


def validation(w, ctx, env, res):
    """one concrete input on this path with the values the encoding predicts"""
    idx = [i for i in range(C.NS) if ctx.mask[i]]
    if not idx:
        return
    i = idx[len(res.validations) % len(idx)]
    assign = {n: str(Fraction(float(w.samples[S.var(n).id][i]))) for n in env.inputs}
    seen = {}
    vals = []
    for label, a in env.trace:
        k = seen.get(label, 0)
        seen[label] = k + 1
        vals.append((label, k, [float(w.feval(x)[i]) if isinstance(x, Sym) else None for x in a.flat]))
    res.validations.append((assign, vals))


def okey(ctx, ob):
    label, g, npath, ndom, note = ob
    if g[0] == 'eq':
        gk = ('eq', g[1].key(), g[2].key())
    else:
        gk = ('b', ctx._key(g[1]))
    pk = tuple(ctx._key(b) for b in ctx.path[:npath])
    dk = tuple(ctx._key(b) for b in ctx.domain)
    return (gk, pk, dk)


def decide(w, ctx, env, ob, res, opts, done, deadline):
    label, g, npath, ndom, note = ob
    res.labels.add(label)
    k = okey(ctx, ob)
    if k in done:
        if done[k] == 'proved':
            res.proved.append(label)
        return True
    if g[0] == 'eq':
        diff = g[1] - g[2]
        if diff.isconst and diff.value() == 0:
            goal = True
        elif diff.isconst:
            goal = False
        else:
            goal = SymBool('==', diff)
    else:
        goal = g[1]
        diff = None
    if goal is True:
        # both sides reduced to the same term by the encoder's constant folding:
        # still handed to the solver (as a trivial query)
        w.stats.trivial += 1
        if g[0] == 'eq':
            x, y = g[1], g[2]
            ctx.closed.append(w.zn(S.nmul(x.n, S._denprod(y.d))) != w.zn(S.nmul(y.n, S._denprod(x.d))))
        res.proved.append(label)
        done[k] = 'proved'
        return True
    if time.time() > deadline:
        res.inconclusive.append((label, 'time budget'))
        return True
    verdict, model = solve_goal(w, ctx, env, goal, diff, npath, opts, deadline, label)
    if verdict == 'unsat':
        res.proved.append(label)
        done[k] = 'proved'
    elif verdict == 'sat':
        done[k] = 'sat'
        for m in model:
            res.candidates.append((label, m, note))
    else:
        done[k] = 'unknown'
        res.inconclusive.append((label, 'solver: %s %s' % (verdict, note)))
    return True


def solve_goal(w, ctx, env, goal, diff, npath, opts, deadline, label):
    q = opts.get('query_ms', 20000)
    if goal is False:
        # structural failure: any model of the path is a counterexample
        m = path_models(w, ctx, env, npath, opts)
        if m:
            return 'sat', m
        cs, allv = ctx.constraints(None, npath)
        zs = [w.zb(c) for c in cs]
        r, mod = w.solve_nra(zs, q, True)
        if r == 'unsat':
            return 'unsat', None
        if r == 'sat':
            return 'sat', [to_assign(w, ctx, env, mod, None)]
        return r, None
    gv = w.bvars(goal)
    neg = goal
    ax, _ = w.close_axioms(gv)
    # float screening decides only the order in which queries are tried
    t, rel = w.fbool(goal)
    if diff is not None:
        with np.errstate(all='ignore'):
            v = w.feval(diff)
            ref = 1 + np.abs(w.feval(diff + lift(0)))
        looks_false = bool((ctx.mask & np.isfinite(v) & (np.abs(v) > 1e-6)).any())
    else:
        looks_false = bool((ctx.mask & rel & ~t).any())
    if diff is not None and not looks_false:
        if w.zero(diff, q):
            return 'unsat', None
    if diff is None and not looks_false:
        cs, allv = ctx.constraints(gv, npath)
        zs = [w.zb(c) for c in cs]
        for solver in (w.solve_nra, w.solve):
            r, mod = solver(zs + [z3.Not(w.zb(goal))], q if solver is w.solve_nra else q, True)
            if r == 'unsat':
                return 'unsat', None
            if r == 'sat':
                break
    # bounded slices: all but a few inputs fixed, solver picks the rest
    m, strong = slices(w, ctx, env, goal, diff, npath, opts)
    if not strong:
        # a difference that shows at other magnitudes of the inputs
        m2 = wide_slices(w, ctx, env, goal, diff, npath, opts)
        if m2:
            return 'sat', m2 + m[:1]
    if m:
        return 'sat', m
    cs, allv = ctx.constraints(gv, npath)
    zs = [w.zb(c) for c in cs]
    big = opts.get('final_ms', 60000)
    last = 'unknown'
    for solver in (w.solve_nra, w.solve):
        r, mod = solver(zs + [z3.Not(w.zb(goal))], big, True)
        if r == 'unsat':
            return 'unsat', None
        if r == 'sat':
            return 'sat', [to_assign(w, ctx, env, mod, None)]
        last = r
    return last, None


def to_frac(v):
    if isinstance(v, z3.AlgebraicNumRef):
        v = v.approx(20)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def to_assign(w, ctx, env, mod, fixed):
    out = {}
    idx = int(np.argmax(ctx.mask)) if ctx.mask.any() else 0
    for name in env.inputs:
        n = S.var(name)
        v = mod.eval(w.zn(n), model_completion=False) if mod is not None else None
        if v is not None and z3.is_rational_value(v) or isinstance(v, z3.AlgebraicNumRef):
            out[name] = str(to_frac(v))
        elif fixed is not None and name in fixed:
            out[name] = str(fixed[name])
        else:
            out[name] = str(Fraction(float(w.samples[n.id][idx])).limit_denominator(10 ** 6))
    return out


def path_models(w, ctx, env, npath, opts):
    """models of the path condition, found on slices"""
    return slices(w, ctx, env, False, None, npath, opts)[0]


def slices(w, ctx, env, goal, diff, npath, opts):
    rng = random.Random(7)
    cs, _ = ctx.constraints(None, npath)
    base = [S.var(n) for n in env.inputs]
    idxs = [i for i in range(C.NS) if ctx.mask[i]]
    rng.shuffle(idxs)
    if not idxs:
        idxs = list(range(C.NS))
        rng.shuffle(idxs)
    if diff is not None:
        with np.errstate(all='ignore'):
            v = np.abs(w.feval(diff))
        good = [i for i in idxs if np.isfinite(v[i]) and v[i] > 1e-3]
        idxs = good + [i for i in idxs if i not in good]
    elif goal is not False:
        t, rel = w.fbool(goal)
        good = [i for i in idxs if rel[i] and not t[i]]
        idxs = good + [i for i in idxs if i not in good]
    gv = w.bvars(goal)
    # variables inside arguments of uninterpreted applications stay fixed
    gax, _ = w.close_axioms(gv)
    zs0 = [w.zb(c) for c in list(cs) + list(gax)]
    allv = set()
    for c in cs:
        allv |= w.bvars(c)
    allv |= gv
    apps = [v for v in w.close_axioms(allv)[1] if v in S._APP]
    inapp = set()
    for v in apps:
        for a in S._APP[v][1]:
            inapp |= w.close_axioms(w.svars(a))[1]
    # keep equality-coupled inputs (simplex) consistent: they may all stay free
    out = []
    strong = False
    tries = opts.get('slices', 8)
    for attempt, i in enumerate(idxs[:tries]):
        freec = [n for n in base if n.id not in inapp]
        pref = [n for n in freec if n.id in gv] or freec
        nfree = min(len(pref), 1 + attempt % 3)
        free = set(x.id for x in rng.sample(pref, nfree)) if pref else set()
        fixed = {}
        zs = list(zs0)
        for n in base:
            if n.id in free:
                zs.append(w.zn(n) <= 50)
                zs.append(w.zn(n) >= -50)
                continue
            f = Fraction(float(w.samples[n.id][i]))
            fixed[n.args] = f
            zs.append(w.zn(n) == z3.RealVal(str(f)))
        for v in apps:
            n = S._nodes[v]
            x = w.feval_node(n)[i]
            if np.isfinite(x):
                zs.append(w.zn(n) == z3.RealVal(str(Fraction(float(x)))))
        ok = False
        for margin in (Fraction(1, 100), Fraction(1, 10 ** 5), None):
            q = list(zs)
            if goal is not False:
                if diff is not None and margin is not None:
                    q.append(mag(w, diff, margin))
                elif margin is not None:
                    g2 = tighten(goal, margin)
                    q.append(z3.Not(w.zb(g2)))
                else:
                    q.append(z3.Not(w.zb(goal)))
            r, mod = w.solve_nra(q, opts.get('slice_ms', 3000), True)
            if r == 'sat':
                out.append(to_assign(w, ctx, env, mod, fixed))
                strong |= goal is False or margin is not None
                ok = True
                break
            if goal is False:
                break
        if ok and len(out) >= opts.get('models', 3):
            break
    return out, strong


SCALES = (1, Fraction(1, 10 ** 5), 1, Fraction(1, 1000), 1, 1000)


def wide_slices(w, ctx, env, goal, diff, npath, opts):
    """slices at other scales: the inputs of the path condition and a few more are free in a wide range, the others
    fixed at a sample times a power of ten; only a difference of visible size counts"""
    if goal is False or diff is None:
        return []
    rng = random.Random(11)
    cs, _ = ctx.constraints(None, npath)
    base = [S.var(n) for n in env.inputs]
    gv = w.bvars(goal)
    gax, _ = w.close_axioms(gv)
    zs0 = [w.zb(c) for c in list(cs) + list(gax)]
    allv = set(gv)
    pv = set()
    for c in cs:
        allv |= w.bvars(c)
    for c in ctx.path[:npath]:
        pv |= w.close_axioms(w.bvars(c))[1]
    apps = [v for v in w.close_axioms(allv)[1] if v in S._APP]
    inapp = set()
    for v in apps:
        for a in S._APP[v][1]:
            inapp |= w.close_axioms(w.svars(a))[1]
    gall = w.close_axioms(gv)[1]
    freec = [n for n in base if n.id not in inapp and (n.id in gall or n.id in pv)]
    inpath = [n for n in freec if n.id in pv]
    t0 = time.time()
    for attempt in range(opts.get('wide', 12)):
        if time.time() - t0 > opts.get('wide_s', 20):
            break
        sc = SCALES[attempt % len(SCALES)]
        if apps and sc != 1:
            continue
        i = rng.randrange(C.NS)
        free = set(n.id for n in rng.sample(inpath, min(len(inpath), 4)))
        rest = [n for n in freec if n.id not in free]
        free |= set(n.id for n in rng.sample(rest, min(len(rest), 2)))
        fixed, zs = {}, list(zs0)
        for n in base:
            if n.id in free:
                zs.append(w.zn(n) <= 10 ** 12)
                zs.append(w.zn(n) >= -10 ** 12)
                continue
            f = Fraction(float(w.samples[n.id][i])) * sc
            fixed[n.args] = f
            zs.append(w.zn(n) == z3.RealVal(str(f)))
        for v in apps:
            n = S._nodes[v]
            x = w.feval_node(n)[i]
            if np.isfinite(x):
                zs.append(w.zn(n) == z3.RealVal(str(Fraction(float(x)))))
        r, mod = w.solve_nra(zs + [mag(w, diff, Fraction(1, 100) * (sc if sc < 1 else 1))], opts.get('slice_ms', 3000), True)
        if r == 'sat':
            return [to_assign(w, ctx, env, mod, fixed)]
    return []


def tighten(b, m):
    """a condition implied-by-with-slack: its negation means a violation by a margin"""
    if b is True or b is False:
        return b
    if b.op in ('and', 'or'):
        return SymBool(b.op, tuple(tighten(x, m) for x in b.a))
    if b.op in ('<', '<='):
        return SymBool('<=', b.a - m)
    if b.op in ('>', '>='):
        return SymBool('>=', b.a + m)
    return b


def mag(w, diff, margin):
    """|diff| >= margin, denominators cleared"""
    d = Sym(S._denprod(diff.d))
    n = Sym(diff.n)
    e = n * n - d * d * (margin * margin)
    return w.zn(e.n) >= 0
