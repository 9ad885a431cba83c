import numpy as np
from scipy.stats import chi2

import gen
import mon
import oracle as O
from ctbayes.sdelib import layers as L

RULE = ('Bridges over several decades, bounds none / lower / upper / both (near and far, symmetric and asymmetric). Edge '
        'sequences are checked layer by layer; layer draws are counted per configuration and tested against exact probabilities.')


def bounds(rng, T, x0, x1, kind=None):
    kind = rng.integers(0, 6) if kind is None else kind
    sd = np.sqrt(T)
    lo, hi = min(x0, x1), max(x0, x1)
    d = [float(gen.log_uniform(rng, .2, 3)) * sd for _ in range(2)]
    if kind == 0:
        return -np.inf, np.inf
    if kind == 1:
        return lo - d[0], np.inf
    if kind == 2:
        return -np.inf, hi + d[0]
    if kind == 3:
        return lo - d[0], hi + d[0]
    if kind == 4:
        return lo - .15 * sd, hi + 2 * sd
    return lo - d[0], hi + d[1]


def edges(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(900, 10000)):
        T, x0, x1 = gen.bridge(rng, wild=True)
        lb, ub = bounds(rng, T, x0, x1)
        ctx.case(T, x0, x1, lb, ub)
        w = dict(T=T, x0=x0, x1=x1, lb=lb, ub=ub)
        n = int(rng.integers(5, 40))
        e = np.array([L.compute_edges(i, T, x0, x1, lb, ub) for i in range(n)], float)
        ctx.event('edges', 2 * n)
        sc = np.sqrt(T) + abs(x1 - x0) + abs(x0)
        ctx.check(tuple(e[0]) == (min(x0, x1), max(x0, x1)), 'layer zero is not spanned by the endpoints', e0=e[0], **w)
        ctx.check(np.all(np.diff(e[:, 0]) < 0) and np.all(np.diff(e[:, 1]) > 0), 'layers are not strictly nested', edges=e, **w)
        ctx.check(np.all(e[:, 0] > lb) and np.all(e[:, 1] < ub), 'layer edges reach the bounds', edges=e, **w)
        far = np.array([L.compute_edges(int(i), T, x0, x1, lb, ub) for i in (10 ** 3, 10 ** 9, 10 ** 40)], float)
        for v, b, s in ((far[:, 0], lb, -1), (far[:, 1], ub, 1)):
            if np.isinf(b):
                ctx.check(np.all(s * np.diff(v) > 0) and abs(v[-1] - (x0 + x1) / 2) > 4 * np.sqrt(T), 'edges of an unbounded side do not diverge', far=v, **w)
            else:
                ctx.check(abs(v[2] - b) < 1e-5 * sc and np.all(s * (b - v) >= -1e-9 * sc), 'edges do not converge to the bounds', far=v, **w)
        # mirror symmetry
        em = np.array([L.compute_edges(i, T, -x0, -x1, -ub, -lb) for i in range(1, 4)], float)
        ctx.close(-em[:, ::-1], e[1:4], 'edges of the mirrored bridge', rtol=1e-6, atol=1e-7 * sc, **w)


def stay(ctx):
    f = getattr(L, 'eval_stay_prob', None)
    if f is None:
        return
    rng = ctx.rng
    for _ in range(ctx.n(4000, 40000)):
        T, x0, x1 = gen.bridge(rng)
        lo, hi = bounds(rng, T, x0, x1)
        if rng.uniform() < .1:
            lo = float(rng.choice([min(x0, x1), max(x0, x1), (x0 + x1) / 2]))
        ctx.case('stay', T, x0, x1, lo, hi)
        with mon.step_guard(3_000_000, 2.):
            p = float(f(T, x0, x1, lo, hi))
        ctx.close(p, float(O.stay(x0, x1, T, lo, hi)), 'probability of staying between edges', rtol=1e-7, atol=1e-10, T=T, x0=x0, x1=x1, lo=lo, hi=hi)


def law(ctx, kind, far=False):
    rng0 = ctx.rng
    cfg = []
    while len(cfg) < 5:
        T, x0, x1 = gen.bridge(rng0)
        if far:
            x1 = x0 + 3 * np.sqrt(T) * float(rng0.choice([-1, 1]))
        lb, ub = bounds(rng0, T, x0, x1, kind)
        s = float(O.stay(x0, x1, T, lb, ub))
        if s < .02:
            continue
        e = [L.compute_edges(l, T, x0, x1, lb, ub) for l in range(60)]
        p = np.array([float(O.stay(x0, x1, T, *e_)) for e_ in e]) / s
        cfg.append((T, x0, x1, lb, ub, np.append(np.diff(p), max(1 - p[-1], 1e-12))))
        ctx.case('law', T, x0, x1, lb, ub)

    def run(n, rng):
        res, x2, dof = {}, [], 0
        for i, (T, x0, x1, lb, ub, p) in enumerate(cfg):
            kw = {}
            if np.isfinite(lb):
                kw['lb_x'] = lb
            if np.isfinite(ub):
                kw['ub_x'] = ub
            l = np.array([L.sample_layer(T, x0, x1, ome=rng, **kw) for _ in range(n // 5)])
            ctx.event('layers_drawn', len(l))
            ctx.check(np.all(l >= 1), 'layer index below one', T=T, x0=x0, x1=x1, lb=lb, ub=ub)
            res[f'counts of configuration {i}'] = O.chi2_counts(np.bincount(np.minimum(l, len(p)) - 1, minlength=len(p)), p)
            first = (l == 1).astype(float)
            if .02 < p[0] < .98:
                res[f'serial dependence {i}'] = O.z_mean((first[1:] - p[0]) * (first[:-1] - p[0]))
        return res
    ctx.expect('layers_drawn')
    ctx.stat('layer law', run, ctx.n(25000, 100000))


def tasks(tier):
    reps = 1 if tier == 'quick' else 4
    out = []
    for r in range(reps):
        out += [(f'edges{r}{i}', edges, {}) for i in range(2)] + [(f'stay{r}', stay, {})]
        out += [(f'law-{k}-{f}-{r}', law, dict(kind=k, far=f)) for k in range(6) for f in (False, True)]
    return out
