import numpy as np
from toolz import curry

import gen
import mon
import oracle as O
from c14 import DRIFT, SW, VOL, cir_thi
from ctbayes.ito import mcem as imcem
from ctbayes.ito.models import cir, ou
from ctbayes.ea3lib import seed as SD
from ctbayes.mjplib import skeleton as K
from ctbayes.switching import mcem as smcem, static
from ctbayes.switching.models import ou as sou

RULE = ('Observation records of 2 to 6 irregular times, parameters over a decade, regime paths with zero to many jumps between observations, '
        'two to four regimes. Estimates are divided by the exact density of the observations, on fresh augmentations and on augmentations '
        'refined by earlier estimates, coins and evaluations. Non-trivial: every estimate.')
ASSUMPTIONS = ['Configurations are kept to moderate path integrals, so that the ratio has a small variance.',
               'Square-root diffusions are tested where reaching the boundary is negligible (see the listed finding for the rest).']


def log_model():
    """Switching Ornstein-Uhlenbeck on the logarithmic scale, assembled by the user."""
    @curry
    def reduce(v):
        return np.log(v)

    @curry
    def dv_reduce(v):
        return 1 / v

    @curry
    def dereduce(x):
        return np.exp(x)
    names = ('eval_disc', 'eval_biased_log_lik', 'sample_aug', 'gen_normops', 'maximize_posterior', 'sample_posterior')
    fs = static.assemble_model(sou.init_thi, sou.bounds_x, sou.bounds_thi, reduce, dereduce, dv_reduce, sou.eval_drift, sou.sx_eval_drift,
                               sou.dx_eval_drift, sou.eval_vol, sou.eval_bounds_disc, sou.eval_bounds_grad, sou.eval_log_prior)
    rest = {k: getattr(sou, k) for k in ('bounds_thi', 'bounds_x', 'init_thi')}
    rest.update({k: staticmethod(getattr(sou, k)) for k in ('eval_log_prior', 'eval_bounds_disc', 'eval_bounds_grad')})
    return type('LogOu', (), dict(zip(names, (staticmethod(f) for f in fs)), **rest))


LOG = log_model()


def ito_model(m):
    return imcem.Model, (m.bounds_thi, m.eval_log_prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)


def switching_model(m, t, v, hyper=None):
    return smcem.Model(t, v, m.bounds_thi, hyper, m.eval_log_prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)


def ou_path(rng, thi, t):
    b, s = thi
    v = [rng.normal() * s / np.sqrt(2 * b)]
    for d in np.diff(t):
        m, q = O.ou_moments(d, b, s, v[-1])
        v.append(m + np.sqrt(q) * rng.normal())
    return np.array(v) * float(rng.choice([1, 1, 1.6]))


def ito_case(rng, name):
    n = int(rng.integers(2, 6))
    if name == 'ou':
        thi = np.array([float(gen.log_uniform(rng, .3, 2)), float(gen.log_uniform(rng, .2, 5))])
        t = float(rng.normal()) + np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .05, .8, n - 1))])
        v = ou_path(rng, thi, t)
        ex = sum(O.ou_logtrans(d, a, b, *thi) for d, a, b in zip(np.diff(t), v, v[1:]))
        return ou, thi, t, v, float(ex)
    thi = np.array([1., 2., .7]) * np.exp(rng.normal(size=3) * .15)
    t = np.concatenate([[0.], np.cumsum(rng.uniform(.05, .3, n - 1))])
    v = thi[1] * np.exp(rng.normal(size=n) * .1)
    ex = sum(O.cir_logtrans(d, a, b, *thi) for d, a, b in zip(np.diff(t), v, v[1:]))
    return cir, thi, t, v, float(ex)


def ito(ctx, name):
    def run(n, rng):
        acc = {'fresh': [], 'refined': [], 'second estimate': []}
        for _ in range(n):
            m, thi, t, v, ex = ito_case(rng, name)
            mod = imcem.Model(t, v, *ito_model(m)[1])
            ctx.case(name, thi, t, v)
            w = dict(model=name, thi=thi, t=t, v=v)
            try:
                with ctx.affordable():
                    z = m.sample_aug(thi, t, v, rng)
                    if not ctx.check(len(z) == len(t) - 1, 'one latent path per interval', n=len(z), **w):
                        continue
                    le, z2 = imcem.est_aug_lik(thi, z, mod, rng)
                    acc['fresh'].append(np.exp(le - ex))
                    acc['second estimate'].append(np.exp(imcem.est_aug_lik(thi, list(z2), mod, rng)[0] - ex))
                    z = m.sample_aug(thi, t, v, rng)
                    z = [SD.interpolate_seed(z_, gen.times(rng, d, int(rng.integers(1, 4))), *no, rng)[0] for z_, no, d in zip(z, m.gen_normops(thi, t, v), np.diff(t))]
                    acc['refined'].append(np.exp(imcem.est_aug_lik(thi, z, mod, rng)[0] - ex))
                    # midpoint estimate: deterministic given the path
                    st = [np.sort(rng.uniform(0, d, int(rng.integers(1, 5)))) for d in np.diff(t)]
                    a, z3 = imcem.est_log_aug_lik(thi, z, mod, st, rng)
                    b, _ = imcem.est_log_aug_lik(thi, list(z3), mod, st, rng)
                    ctx.close(a, b, 'the estimate on known points changes', rtol=1e-7, atol=1e-7, **w)
                    want = m.eval_biased_log_lik(thi, t, v)
                    for d, s_, z_, no in zip(np.diff(t), st, z3, m.gen_normops(thi, t, v)):
                        want = want - d * np.mean(m.eval_disc(thi, SD.interpolate_seed(z_, s_, *no, rng)[1]))
                    ctx.close(a, want, 'log estimate at given support points', rtol=1e-7, atol=1e-7, **w)
            except mon.TooExpensive:
                continue
            ctx.event('estimates', 3)
        return {k: O.t_mean(x, 1) for k, x in acc.items()}
    ctx.stat(f'{name} likelihood', run, ctx.n(1200, 8000))
    ctx.expect('estimates', 100)


def regime_case(rng, name, drift=(.3, 2)):
    if name == 'log':
        m, thi, y, t, x, ex = regime_case(rng, 'ou', drift)
        return LOG, thi, y, t, np.exp(x), ex - float(np.sum(x[1:]))
    m = SW[name]
    r = int(rng.integers(2, 5))
    b = gen.log_uniform(rng, *drift, r)
    s = gen.log_uniform(rng, .3, 3, r)
    thi = np.array({'ou': np.stack([b, 1 / s]), 'ou2': np.stack([b, b / s]), 'ou3': np.stack([s, b / s])}[name]).T
    n = int(rng.integers(2, 6))
    t = gen.record(rng, n, .08, .7)
    T = float(t[-1])
    k = int(rng.choice([0, 1, 2, 4, 8]))
    jt = gen.times(rng, T, k, edge=False) if k else np.zeros(0)
    if k and np.min(np.abs(jt[:, None] - t)) < 1e-4 * T:
        return regime_case(rng, name, drift)
    x = [int(rng.integers(0, r))]
    for _ in range(k):
        x.append(int(rng.choice([i for i in range(r) if i != x[-1]])))
    y = K.Skeleton(np.concatenate([[0.], jt]), np.array(x), T)
    # observations from the model itself
    v = [float(rng.normal())]
    ex = 0.
    for i in range(n - 1):
        e = np.concatenate([[t[i]], jt[(jt > t[i]) & (jt < t[i + 1])], [t[i + 1]]])
        mean, var = v[-1], 0.
        for a, c in zip(e[:-1], e[1:]):
            q = x[np.searchsorted(y.t, a, 'right') - 1]
            d = c - a
            mean *= np.exp(-b[q] * d)
            var = var * np.exp(-2 * b[q] * d) - s[q] ** 2 * np.expm1(-2 * b[q] * d) / (2 * b[q])
        v.append(mean + np.sqrt(var) * rng.normal() * float(rng.choice([1, 1, 1.5])))
        ex += -.5 * np.log(2 * np.pi * var) - (v[-1] - mean) ** 2 / (2 * var)
    return m, thi, y, t, np.array(v), float(ex)


def given_regimes(thi, y, t, x, name, s0):
    """Exact law of the value at time s0 between two observations x at t, given the regimes: mean and standard deviation."""
    i = int(np.searchsorted(t, s0)) - 1
    drift, vol = [DRIFT[name](p) for p in thi], [VOL[name](p) for p in thi]

    def law(lo, hi):
        e = np.concatenate([[lo], [q for q in y.t if lo < q < hi], [hi]])
        k, q = 1., 0.
        for a, c in zip(e, e[1:]):
            r = int(y.xt[np.searchsorted(y.t, a, 'right') - 1])
            f = np.exp(-drift[r] * (c - a))
            k, q = k * f, q * f * f - vol[r] ** 2 * np.expm1(-2 * drift[r] * (c - a)) / (2 * drift[r])
        return k, q
    (k1, q1), (k2, q2) = law(t[i], s0), law(s0, t[i + 1])
    prec = 1 / q1 + k2 * k2 / q2
    return (k1 * x[i] / q1 + k2 * x[i + 1] / q2) / prec, prec ** -.5


def path_value(m, thi, h, z, j, u, rng):
    no = m.gen_normops(thi, *h)[j]
    return float(SD.interpolate_seed(z[j], np.array([u]), *no, rng)[1][0])


def weighted(acc, key, w, z):
    """Weighted by the estimate, augmentations have their exact law given the observations."""
    acc.setdefault(f'{key}, mean', []).append(w * z)
    acc.setdefault(f'{key}, spread', []).append(w * (z * z - 1) / np.sqrt(2))


def switching(ctx, name, drift=(.3, 2)):
    def run(n, rng):
        acc, wacc = {'fresh': [], 'second estimate': []}, {}
        lname = 'ou' if name == 'log' else name
        for _ in range(n):
            m, thi, y, t, v, ex = regime_case(rng, name, drift)
            mod = switching_model(m, t, v)
            ctx.case(name, thi, y.t, y.xt, t, v)
            w = dict(model=name, thi=thi, path=y, t=t, v=v)
            try:
                with ctx.affordable():
                    z, h = m.sample_aug(thi, y, t, v, rng)
                    le, z2 = smcem.est_aug_lik(thi, z, h, mod, rng)
                    acc['fresh'].append(np.exp(le - ex))
                    x = np.log(v) if name == 'log' else v
                    at = np.flatnonzero(~np.isin(h.t, t))
                    if len(at):
                        j = int(rng.choice(at))
                        c, sd = given_regimes(thi, y, t, x, lname, float(h.t[j]))
                        weighted(wacc, 'value at a jump', np.exp(le - ex), ((np.log(h.vt[j]) if name == 'log' else h.vt[j]) - c) / sd)
                    j = int(rng.integers(0, len(z2)))
                    u = float(np.diff(h.t)[j] * rng.uniform(.05, .95))
                    c, sd = given_regimes(thi, y, t, x, lname, float(h.t[j] + u))
                    xx = path_value(m, thi, h, z2, j, u, rng)
                    weighted(wacc, 'value between jumps', np.exp(le - ex), (xx - c) / sd)
                    acc['second estimate'].append(np.exp(smcem.est_aug_lik(thi, list(z2), h, mod, rng)[0] - ex))
                    if rng.uniform() < .3:
                        st = [np.sort(rng.uniform(0, d, int(rng.integers(1, 4)))) for d in np.diff(h.t)]
                        a, z3 = smcem.est_log_aug_lik(thi, list(z2), h, mod, st, rng)
                        z3 = list(z3)
                        parts = [smcem.est_log_aug_lik(thi, z3, h, mod, st, rng, i)[0] for i in range(len(thi))]
                        b = smcem.est_log_aug_lik(thi, z3, h, mod, st, rng)[0]
                        sc = 1e-9 * (1 + np.sum(np.abs(parts)) + abs(a))
                        ctx.close(a, b, 'the estimate on known points changes', rtol=1e-7, atol=1e-6, **w)
                        ctx.close(sum(parts), b, 'log estimates restricted to the regimes do not add up', rtol=0, atol=max(sc, 1e-6), **w)
                        want = m.eval_biased_log_lik(thi, *h)[0]
                        for d, s_, z_, y0, no in zip(np.diff(h.t), st, z3, h.yt, m.gen_normops(thi, *h)):
                            want = want - d * np.mean(m.eval_disc(thi, int(y0), SD.interpolate_seed(z_, s_, *no, rng)[1]))
                        ctx.close(b, want, 'log estimate at given support points', rtol=1e-7, atol=1e-6, **w)
                        # restricted unbiased estimate: exact where no path integral is left
                        i = int(rng.integers(0, len(thi)))
                        if not np.any(np.asarray(h.yt)[:-1] == i):
                            ctx.close(smcem.est_aug_lik(thi, z3, h, mod, rng, i)[0], sum(m.eval_biased_log_lik(thi, *h, i)), 'estimate restricted to an absent regime', **w)
            except mon.TooExpensive:
                continue
            ctx.event('estimates', 2)
            ctx.event('weighted values')
        return {**{k: O.t_mean(x, 1) for k, x in acc.items()}, **{k: O.t_mean(x, 0) for k, x in wacc.items() if len(x) >= 30}}
    ctx.stat(f"switching {name} likelihood{', slow drift' if drift[1] < 1 else ''}", run, ctx.n(2000 if drift[1] < 1 else 1000, 6000))
    ctx.expect('estimates', 100)


def boundary(ctx):
    """CIR near its boundary with unequal end points: the listed finding. The augmentation should be the bridge conditioned to stay positive."""
    thi, t, v = np.array([1., 1., 1.]), np.array([0., 1.]), np.array([.05, 1.])
    x0, x1 = cir.reduce(thi, v)
    (no, de), = cir.gen_normops(thi, t, v)
    u = []
    F = O.bridge_cdf(.3, 1., float(x0), float(x1), 0., np.inf)
    for _ in range(ctx.n(1500, 8000)):
        z, = cir.sample_aug(thi, t, v, ctx.rng)
        u.append(float(SD.interpolate_seed(z, np.array([.3]), no, de, ctx.rng)[1][0]))
        ctx.event('estimates')
    ctx.case('boundary', thi, v)
    p = O.ks_cdf(u, F)
    ctx.finding('cir-boundary-z-barrier', p < 1e-6, f'mean {np.mean(u):.3f}, p-value {p:.1e}')
    ctx.expect('estimates', 100)


def tasks(tier):
    r = range(1 if tier == 'quick' else 4)
    out = []
    for k in r:
        out += [(f'{n}{k}{i}', ito, dict(name=n)) for n in ('ou', 'cir') for i in range(2)]
        out += [(f'switching-{n}{k}{i}', switching, dict(name=n)) for n in (*SW, 'log') for i in range(2)]
        out += [(f'slow-{n}{k}', switching, dict(name=n, drift=(.02, .2))) for n in (*SW, 'log')]
        out += [(f'boundary{k}', boundary, {})]
    return out
