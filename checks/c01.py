import numpy as np

import gen
import oracle as O
from ctbayes.sdelib import hitting as H

RULE = ('Bridges (T, x0, x1) over several decades with equal, close and distant endpoints, optional ranges for the '
        'minimum given by quantile pairs (including the extreme tails with mass at least 1e-6), barriers by stay probability. Each '
        'function evaluation is compared to the closed form; each draw becomes an exact probability integral transform.')
ASSUMPTIONS = ['Arguments of the restricted distribution function lie inside the restriction range.']


def F(m, T, x0, x1):
    m = np.asarray(m, float)
    return np.where(m < min(x0, x1), np.exp(-2 * (x0 - m) * (x1 - m) / T), 1.)


def Q(p, T, x0, x1):
    return (x0 + x1 - np.sqrt((x1 - x0) ** 2 - 2 * T * np.log(p))) / 2


def ranges(rng, T, x0, x1):
    """Restriction ranges as keyword arguments with their exact quantile range."""
    k = rng.integers(0, 6)
    if k == 0:
        return {}, 0., 1.
    p0, p1 = np.sort(rng.uniform(size=2))
    if p1 - p0 < 1e-3:
        p1 = min(1., p0 + .1)
    if k == 1:
        return dict(lb_min_x=float(Q(p0, T, x0, x1))), p0, 1.
    if k == 2:
        return dict(ub_min_x=float(Q(p1, T, x0, x1))), 0., p1
    if k == 3:
        return dict(lb_min_x=float(Q(p0, T, x0, x1)), ub_min_x=float(Q(p1, T, x0, x1))), p0, p1
    if k == 4:  # deep tail
        p1 = 10. ** -rng.uniform(1, 5)
        return dict(lb_min_x=float(Q(p1 / 10, T, x0, x1)), ub_min_x=float(Q(p1, T, x0, x1))), p1 / 10, p1
    return dict(lb_min_x=-np.inf, ub_min_x=min(x0, x1)), 0., 1.


def det(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(700, 8000)):
        T, x0, x1 = gen.bridge(rng, wild=True)
        kw, p0, p1 = ranges(rng, T, x0, x1)
        ctx.case(T, x0, x1, kw)
        sc = np.sqrt(T) + abs(x1 - x0)
        m = [float(Q(p0 + (p1 - p0) * u, T, x0, x1)) for u in np.sort(rng.uniform(1e-9, 1, 6))]
        lb = kw.get('lb_min_x', -np.inf)
        ub = kw.get('ub_min_x', min(x0, x1))
        m = [min(max(v, lb), ub) for v in m] + [ub]
        # condition: what rounding in m does to F
        got = [float(H.cdf_brownbr_min(v, T, x0, x1, **kw)) for v in m]
        fl, fu = float(F(lb, T, x0, x1)) if np.isfinite(lb) else 0., float(F(ub, T, x0, x1))
        want = (F(np.array(m), T, x0, x1) - fl) / (fu - fl)
        ctx.close(got, want, 'distribution function of the minimum', rtol=1e-8, atol=1e-10 / max(fu - fl, 1e-6) * 1e-2, T=T, x0=x0, x1=x1, kw=kw, m=m)
        ctx.check(all(a <= b + 1e-9 for a, b in zip(got, got[1:])), 'distribution function decreases', T=T, x0=x0, x1=x1, kw=kw, m=m, got=got)
        ps = np.concatenate([np.sort(rng.uniform(size=5)), [1e-8, 1.]])
        qs = [float(H.ppf_brownbr_min(float(p), T, x0, x1, **kw)) for p in ps]
        ctx.close(qs, Q(fl + ps * (fu - fl), T, x0, x1), 'quantile function of the minimum', rtol=1e-9, atol=1e-7 * sc, T=T, x0=x0, x1=x1, kw=kw, p=ps)
        ctx.check(lb - 1e-9 * sc <= min(qs) and max(qs) <= ub + 1e-9 * sc, 'quantile outside the range', T=T, x0=x0, x1=x1, kw=kw, q=qs)
        # inverse to each other through the library alone, up to what rounding of the argument can do
        back = [float(H.cdf_brownbr_min(min(max(q, lb), ub), T, x0, x1, **kw)) for q in qs]
        slope = [abs(float(F(q + 1e-9 * sc, T, x0, x1)) - float(F(q - 1e-9 * sc, T, x0, x1))) / (fu - fl) for q in qs]
        ctx.check(all(abs(b - p) <= 1e-6 + s for b, p, s in zip(back, ps, slope)), 'distribution and quantile functions are not inverse', T=T, x0=x0, x1=x1, kw=kw, p=ps, back=back)
        q0 = float(H.ppf_brownbr_min(0., T, x0, x1, **kw))
        ctx.check(q0 == -np.inf if np.isinf(lb) else abs(q0 - lb) < 1e-6 * sc, 'quantile at 0', T=T, x0=x0, x1=x1, kw=kw, q0=q0)
        f_inf = [float(H.cdf_brownbr_min(v, T, x0, x1)) for v in (-np.inf, min(x0, x1), min(x0, x1) + sc)]
        ctx.check(f_inf == [0., 1., 1.], 'distribution function at its ends', T=T, x0=x0, x1=x1, got=f_inf)


def time_pit(t, T, a, b, weight=None):
    """PIT of the time of the minimum given its depth a, b below the endpoints."""
    t, T, a, b = np.broadcast_arrays(*(np.asarray(v, float) for v in (t, T, a, b)))

    def lf(y):
        s = T[:, None] / (1 + np.exp(y))
        r = T[:, None] - s
        r = np.where(r > 0, r, T[:, None] * np.exp(y) / (1 + np.exp(y)))
        out = -.5 * np.log(s * r) - a[:, None] ** 2 / (2 * s) - b[:, None] ** 2 / (2 * r)
        if weight is not None:
            out = out + np.log(np.maximum(weight(s, r, a[:, None], b[:, None]), 1e-300))
        return out
    y = np.broadcast_to(np.linspace(-45, 45, 301), (len(t), 301))
    f = lf(y)
    mx = f.max(1, keepdims=True)
    on = f > mx - 45
    lo = y[0][np.maximum(on.argmax(1) - 1, 0)]
    hi = y[0][np.minimum(300 - on[:, ::-1].argmax(1) + 1, 300)]
    g = lo[:, None] + (hi - lo)[:, None] * np.linspace(0, 1, 1201)
    d = lf(g)
    d = np.exp(d - d.max(1, keepdims=True))
    c = np.concatenate([np.zeros((len(t), 1)), np.cumsum((d[:, 1:] + d[:, :-1]) / 2, 1)], 1)
    yy = np.log(np.maximum(T / t - 1, 1e-300))
    pos = np.clip((yy - lo) / (hi - lo) * 1200, 0, 1200)
    i = np.minimum(pos.astype(int), 1199)
    r = np.arange(len(t))
    u = (c[r, i] + (c[r, i + 1] - c[r, i]) * (pos - i)) / c[:, -1]
    return 1 - u  # y decreases in t


def draw_check(ctx, t, m, T, x0, x1, lb, ub):
    ok = np.all((t > 0) & (t < T)) and np.all((m >= lb - 1e-9) & (m <= ub + 1e-9))
    ctx.check(ok, 'minimum or its time outside its range', T=T, x0=x0, x1=x1, t=[np.min(t), np.max(t)], m=[np.min(m), np.max(m)], lb=lb, ub=ub)


def joint(ctx, mode):
    """Joint (time, minimum) law of Brownian bridges, at one configuration or pooled over random ones."""
    rng0 = ctx.rng
    fixed = None
    if mode != 'pooled':
        T, x0, x1 = gen.bridge(rng0)
        if mode == 'equal':
            x1 = x0
        if mode == 'far':
            x1 = x0 + 3 * np.sqrt(T)
        if mode == 'down':
            x1 = x0 - 1.5 * np.sqrt(T)
        fixed = (T, x0, x1) + ranges(rng0, T, x0, x1)
        ctx.case(fixed)

    def run(n, rng):
        cfg, res = [], []
        for _ in range(n):
            if fixed is None:
                c = gen.bridge(rng)
                c = c + ranges(rng, *c)
                ctx.case(c)
            else:
                c = fixed
            T, x0, x1, kw, p0, p1 = c
            res.append(H.sample_brownbr_min(T, x0, x1, ome=rng, **kw))
            cfg.append((T, x0, x1, p0, p1))
        T, x0, x1, p0, p1 = np.array(cfg).T
        t, m = np.array(res, float).T
        ctx.event('minima_drawn', n)
        mn = np.minimum(x0, x1)
        lb = np.where(p0 > 0, Q(np.maximum(p0, 1e-300), T, x0, x1), -np.inf)
        draw_check(ctx, t, m, T, x0, x1, lb, np.minimum(Q(p1, T, x0, x1), mn))
        fm = np.where(m < mn, np.exp(-2 * (x0 - m) * (x1 - m) / T), 1.)
        u = np.clip((fm - p0) / (p1 - p0), 0, 1)
        v = time_pit(t, T, x0 - m, x1 - m)
        return {'minimum': O.ks_unif(u), 'time given minimum': O.ks_unif(v), 'independent transforms': O.indep(u, v)}
    ctx.expect('minima_drawn')
    ctx.stat(f'joint law of the minimum ({mode})', run, ctx.n(3000, 12000))


def layered(ctx, k):
    """Minimum of a bridge staying below an upper barrier."""
    rng0 = ctx.rng
    T, x0, x1 = gen.bridge(rng0)
    sd = np.sqrt(T)
    ub = max(x0, x1) + sd * float([.25, .5, .8, 1.5, .35, .6][k])
    kw, lb, um = {}, -np.inf, min(x0, x1)
    if k % 2:
        lb = min(x0, x1) - sd * rng0.uniform(.4, 1.5)
        um = min(x0, x1) - sd * rng0.uniform(.02, .3)
        kw = dict(lb_min_x=lb, ub_min_x=um)
    ctx.case(T, x0, x1, ub, kw)

    def run(n, rng):
        r = np.array([H.sample_layerbr_min(T, x0, x1, ub, ome=rng, **kw) for _ in range(n)], float)
        t, m = r.T
        ctx.event('layered_minima_drawn', n)
        draw_check(ctx, t, m, T, x0, x1, lb, um)
        s_lb = O.stay(x0, x1, T, lb, ub)
        s_um = 0. if um == min(x0, x1) else O.stay(x0, x1, T, um, ub)
        u = (s_lb - O.stay(x0, x1, T, m, ub)) / (s_lb - s_um)
        nn = min(n, 1500)
        K = (ub - m[:nn])[:, None]
        v = time_pit(t[:nn], T, x0 - m[:nn], x1 - m[:nn],
                     lambda s, q, a, b: O.bes_stay(np.zeros_like(s), a, s, K) * O.bes_stay(np.zeros_like(s), b, q, K)) if x0 != x1 or True else None
        return {'minimum': O.ks_unif(1 - u), 'time given minimum': O.ks_unif(v), 'independent transforms': O.indep(u[:nn], v)}
    ctx.stat('minimum below a barrier', run, ctx.n(600, 4000), scale=3)


def free(ctx):
    """Without a barrier the layered sampler is the plain one."""
    T, x0, x1 = gen.bridge(ctx.rng)
    ctx.case(T, x0, x1)

    def run(n, rng):
        t, m = np.array([H.sample_layerbr_min(T, x0, x1, ome=rng) for _ in range(n)], float).T
        draw_check(ctx, t, m, T, x0, x1, -np.inf, min(x0, x1))
        return {'minimum': O.ks_unif(F(m, T, x0, x1)), 'time': O.ks_unif(time_pit(t, T, x0 - m, x1 - m))}
    ctx.stat('minimum without barrier', run, ctx.n(1500, 6000))


def tasks(tier):
    reps = 1 if tier == 'quick' else 4
    out = [(f'det{i}', det, {}) for i in range(4 * reps)]
    for r in range(reps):
        out += [(f'joint-{m}{r}', joint, dict(mode=m)) for m in ('pooled', 'equal', 'far', 'down', 'any')]
        out += [(f'layered-{k}-{r}', layered, dict(k=k)) for k in range(6)]
        out += [(f'free{r}', free, {})]
    return out
