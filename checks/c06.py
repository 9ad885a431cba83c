import itertools

import numpy as np
from scipy import stats as ss

import gen
import mon
import oracle as O
from c05 import score_tests
from ctbayes.ea3lib import seed as SD
from ctbayes.ito.models import cir, ou

RULE = ('Parameters, horizon, start (and end) value and times are drawn per configuration; a few successive draws are taken from '
        'every stream. Each path is turned into independent scores under the exact transition law. Non-trivial: a path with at '
        'least one value.')
ASSUMPTIONS = ['CIR parameters satisfy 4ab >= 3s^2, where the potential is bounded below with finite bounds.',
               'Horizons and starting values keep the acceptance probability above about 1e-3.',
               'Standardised CIR bridges are tested where leaving the positive half-line has negligible probability (see known findings for the rest).']


def times(rng, T):
    k = int(rng.choice([1, 1, 2, 3, 6]))
    t = gen.times(rng, T, k, edge=False)
    if rng.uniform() < .3:
        t = np.append(t, T)
    return t


def ou_cfg(rng, far=False, horizon=(.1, 2)):
    b, s = float(gen.log_uniform(rng, .3, 3)), float(gen.log_uniform(rng, .3, 3))
    T = float(gen.log_uniform(rng, *horizon)) / b
    sd = s / np.sqrt(2 * b)
    v0, v1 = (rng.normal(size=2) * sd * (1.7 if far else 1)).tolist()
    return np.array([b, s]), T, v0, v1


def ou_scores(thi, T, v0, v1, t, v):
    """Scores of values v at times t of the process from v0 (to v1 at T, unless None)."""
    b, s = thi
    z, pt, pv = [], 0., v0
    for t_, v_ in zip(t, v):
        if v1 is None:
            m, q = O.ou_moments(t_ - pt, b, s, pv)
        elif t_ == T:
            break
        else:
            m, q = O.ou_bridge_moments(t_ - pt, T - pt, pv, v1, b, s)
        z.append((v_ - m) / np.sqrt(q))
        pt, pv = t_, v_
    return np.array(z)


def ou_paths(ctx, cond, far, long=False):
    def run(n, rng):
        z, zz = [], []
        while len(z) < n:
            thi, T, v0, v1 = ou_cfg(rng, far, (1.5, 3.5) if long else (.1, 2))
            fin = v1 if cond else None
            t = np.array([T]) if long and rng.uniform() < .7 else times(rng, T)
            try:
                with ctx.affordable():
                    it = ou.sample_sde(thi, t, T, v0, fin, ome=rng)
                    draws = [np.asarray(v) for v in itertools.islice(it, 4)]
            except mon.TooExpensive:
                continue
            got = []
            for v in draws:
                ctx.check(v.shape == t.shape and np.all(np.isfinite(v)), 'not one value per time', t=t, v=v, thi=thi)
                if cond and t[-1] == T:
                    ctx.close(v[-1], v1, 'the final value is not the one asked for', rtol=1e-9, thi=thi, horizon=T)
                s = ou_scores(thi, T, v0, fin, t, v)
                if len(s):
                    got.append(s)
                    ctx.event('values', len(s))
            z += got
            zz += [(a[0], b[0]) for a, b in zip(got, got[1:])]
            ctx.case(thi, T, v0, fin, t, n=len(draws))
        res = score_tests(z)
        a, b = np.array(zz).T
        res.update({'successive draws': O.z_mean(a * b), 'size of successive draws': O.z_mean((a * a - 1) * (b * b - 1) / 2)})
        return res
    ctx.stat(f"ou paths, conditional {cond}{', long horizons' if long else ''}", run, ctx.n(2500, 20000))
    ctx.expect('values', 100)


def ou_bridges(ctx):
    def run(n, rng):
        z = []
        while len(z) < n:
            thi, T, v0, v1 = ou_cfg(rng)
            op = ou.gen_normops(thi, np.array([0., T]), np.array([v0, v1]))[0]
            try:
                with ctx.affordable():
                    it = SD.sample_bridge(ou.bounds_x, *op, ou.eval_disc(thi), ou.eval_bounds_disc(thi), rng)
                    for sd in itertools.islice(it, 3):
                        t = gen.times(rng, T, int(rng.choice([1, 2, 4])), edge=False)
                        x = sd(t, *op, rng) if rng.uniform() < .5 else SD.interpolate_seed(sd, t, *op, rng)[1]
                        z.append(ou_scores(thi, T, v0, v1, t, ou.dereduce(thi, x)))
                        ctx.event('values', len(t))
            except mon.TooExpensive:
                continue
            ctx.case('bridge', thi, T, v0, v1, n=3)
        return score_tests(z)
    ctx.stat('standardised ou bridges', run, ctx.n(2500, 20000))
    ctx.expect('values', 100)


CIR = [((1., 1., .5), 1., .5), ((1., 1., 1.), .3, .5), ((2., .7, .8), .3, .4), ((.5, 2., 1.), 1.5, 1.), ((3., .5, 1.2), .35, .15)]


def cir_paths(ctx, i, cond):
    thi, v0_, T_ = CIR[i]
    thi = np.array(thi)

    def run(n, rng):
        u, first, pairs = [], [], []
        while len(first) < n:
            T = T_ * float(rng.uniform(.5, 1))
            v0 = v0_ * float(np.exp(rng.normal() * .2))
            t = np.append(gen.times(rng, T, int(rng.choice([1, 2])), edge=False), T)
            v1 = v0_ * float(np.exp(rng.normal() * .2)) if cond else None
            try:
                with ctx.affordable(5_000_000, 3., 12):
                    draws = [np.asarray(v) for v in itertools.islice(cir.sample_sde(thi, t, T, v0, v1, ome=rng), 6)]
            except mon.TooExpensive:
                continue
            ctx.case('cir', thi, T, v0, v1, t, n=len(draws))
            for v in draws:
                ctx.check(v.shape == t.shape and np.all(np.isfinite(v)) and np.all(v > 0), 'not one positive value per time', t=t, v=v, thi=thi)
                ctx.event('values', len(v))
                if cond:
                    ctx.close(v[-1], v1, 'the final value is not the one asked for', rtol=1e-9, thi=thi, horizon=T)
                    g = np.linspace(1e-6, 4 * max(v0, v1, v0_) + 2, 1200) ** 1.0
                    d = np.exp(O.cir_logtrans(t[0], v0, g, *thi) + O.cir_logtrans(T - t[0], g, v1, *thi))
                    us = [float(O.GridCdf(g, d)(v[0]))]
                else:
                    us, pt, pv = [], 0., v0
                    for t_, x_ in zip(t, v):
                        us.append(float(O.cir_cdf(t_ - pt, pv, x_, *thi)))
                        pt, pv = t_, x_
                u += us
                first.append(us[0])
                pairs += list(zip(us, us[1:]))
        res = {'values': O.ks_unif(u), 'first values': O.ks_unif(first), 'spread': O.z_mean((2 * np.array(u) - 1) ** 2, 1 / 3)}
        if pairs:
            res['neighbours'] = O.indep(*np.array(pairs).T)
        a = np.array(first[:len(first) // 2 * 2]).reshape(-1, 2).T
        res['successive draws'] = O.indep(*a)
        return res
    ctx.stat(f'cir paths {thi.tolist()}, conditional {cond}', run, ctx.n(1200, 10000))
    ctx.expect('values', 100)


def cir_bridges(ctx):
    thi = np.array([1., 1., .5])

    def run(n, rng):
        u = []
        while len(u) < n:
            T = float(rng.uniform(.2, .5))
            v0, v1 = (np.exp(rng.normal(size=2) * .15) + .1).tolist()
            op = cir.gen_normops(thi, np.array([0., T]), np.array([v0, v1]))[0]
            t = gen.times(rng, T, 1, edge=False)
            g = np.linspace(.02, 5, 1500)
            c = O.GridCdf(g, np.exp(O.cir_logtrans(t[0], v0, g, *thi) + O.cir_logtrans(T - t[0], g, v1, *thi)))
            try:
                with ctx.affordable(5_000_000, 3., 12):
                    for sd in itertools.islice(SD.sample_bridge(cir.bounds_x, *op, cir.eval_disc(thi), cir.eval_bounds_disc(thi), rng), 4):
                        u.append(float(c(cir.dereduce(thi, SD.interpolate_seed(sd, t, *op, rng)[1])[0])))
                        ctx.event('values')
            except mon.TooExpensive:
                continue
            ctx.case('cir bridge', T, v0, v1, t, n=4)
        return {'values': O.ks_unif(u), 'spread': O.z_mean((2 * np.array(u) - 1) ** 2, 1 / 3)}
    ctx.stat('standardised cir bridges', run, ctx.n(1500, 12000))
    ctx.expect('values', 100)


def tasks(tier):
    reps = 1 if tier == 'quick' else 3
    out = []
    for r in range(reps):
        for cond in (False, True):
            for far in (False, True):
                out += [(f'ou-{cond}-{far}-{r}{k}', ou_paths, dict(cond=cond, far=far)) for k in range(2)]
            if not cond:
                out += [(f'ou-long-{r}{k}', ou_paths, dict(cond=cond, far=False, long=True)) for k in range(2)]
            out += [(f'cir-{i}-{cond}-{r}', cir_paths, dict(i=i, cond=cond)) for i in range(len(CIR))]
        out += [(f'ou_bridges-{r}{k}', ou_bridges, {}) for k in range(2)] + [(f'cir_bridges-{r}', cir_bridges, {})]
    return out
