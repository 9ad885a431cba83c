import numpy as np
from scipy import stats as ss

import gen
import mon
import oracle as O
from c03 import bounds
from ctbayes.ea3lib import seed as SD, skeleton as SK
from ctbayes.ito.models import cir, ou

RULE = ('Every path has its own horizon, endpoints, bounds and history of query batches, drawn within a class (bounds kind, '
        'endpoint geometry, history kind). Revealed values are turned into independent uniform or Gaussian scores under the '
        'exact law and tested per class. Non-trivial: a path with at least one revealed value.')
ASSUMPTIONS = ['Bounds with conditioning probability below 0.03 are left out (rejection cost).',
               'In standardised coordinates finite bounds are only used with equal endpoints, where they are constant barriers.']


def history(rng, T, kind, k):
    """Disjoint sorted batches of query times, k in total."""
    t = gen.times(rng, T, k, edge=False)
    if kind == 'once':
        return [t]
    if kind == 'one by one':
        return [t[[i]] for i in rng.permutation(k)]
    if kind == 'refine':  # ends first, then between
        return [t[::2], t[1::2]] if k > 1 else [t]
    s = np.sort(rng.integers(0, k + 1, 2))
    p = rng.permutation(k)
    return [np.sort(b) for b in np.split(p, s) for b in [t[b]] if len(b)]


def geometry(rng, geo):
    T, x0, x1 = gen.bridge(rng)
    sd = np.sqrt(T)
    if geo == 'level':
        x1 = x0
    elif geo == 'up':
        x1 = x0 + abs(rng.normal()) * sd + .01 * sd
    elif geo == 'down':
        x1 = x0 - abs(rng.normal()) * sd - .01 * sd
    elif geo == 'far':
        x1 = x0 + rng.choice([-1, 1]) * rng.uniform(2, 4) * sd
    return T, float(x0), float(x1)


def score_tests(z, tag=''):
    """z: list of arrays of scores of each path, in time order."""
    fl = np.concatenate(z)
    res = {f'{tag}values': O.ks_norm(fl), f'{tag}first values': O.ks_norm([v[0] for v in z])}
    ss2 = np.array([ss.chi2.cdf(np.sum(v * v), len(v)) for v in z])
    res[f'{tag}energy'] = O.ks_unif(ss2)
    res[f'{tag}average'] = O.ks_norm([np.sum(v) / np.sqrt(len(v)) for v in z])
    pair = [(v[i], v[i + 1]) for v in z for i in range(0, len(v) - 1)]
    if len(pair) > 50:
        a, b = np.array(pair).T
        res[f'{tag}neighbours'] = O.z_mean(a * b)
        res[f'{tag}neighbour sizes'] = O.z_mean((a * a - 1) * (b * b - 1) / 2)
        res[f'{tag}neighbour asymmetry'] = O.z_mean(a * (b * b - 1) / np.sqrt(2))
    return res


def free(ctx, geo, hist):
    def run(n, rng):
        z, up = [], []
        while len(z) < n:
            T, x0, x1 = geometry(rng, geo)
            k = int(rng.choice([1, 2, 3, 5, 9]))
            bb = history(rng, T, hist, k)
            try:
                with ctx.affordable():
                    sk = SK.sample_raw_skeleton(T, x0, x1, (-np.inf, np.inf), rng)
                    val = {}
                    for b in bb:
                        sk, x = SK.interpolate_skeleton(sk, b, rng)
                        val.update(zip(b, x))
            except mon.TooExpensive:
                continue
            t = np.array(sorted(val))
            z.append(O.brownian_whiten(t, np.array([val[v] for v in t]), T, x0, x1)[0])
            ctx.event('values', len(t))
            ctx.event('batches', len(bb))
            ctx.event('upward' if sk.tight_x < sk.loose_x else 'downward')
            ctx.case(geo, hist, T, x0, x1, t)
        return score_tests(z)
    ctx.stat(f'{geo} bridge, {hist}', run, ctx.n(1500, 12000))
    ctx.expect('values', 100)


def shapes(ctx):
    """Functionals of a finely revealed path, ranked among independent Brownian bridges simulated at the same times."""
    def run(n, rng):
        r, m = {}, 24
        kinds = ('whole', 'standardised')
        for _ in range(n):
            kind = kinds[int(rng.uniform() < .5)]
            T, x0, x1 = geometry(rng, str(rng.choice(['any', 'level', 'level'])))
            k = int(rng.integers(12, 48))
            bb = history(rng, T, str(rng.choice(['once', 'refine', 'random'])), k)
            try:
                with ctx.affordable():
                    val = {}
                    if kind == 'whole':
                        sk = SK.sample_raw_skeleton(T, x0, x1, (-np.inf, np.inf), rng)
                        for b in bb:
                            sk, x = SK.interpolate_skeleton(sk, b, rng)
                            val.update(zip(b, (x - x0 - b / T * (x1 - x0)) / np.sqrt(T)))
                    else:
                        op = ou.gen_normops(np.exp(rng.normal(size=2) * .4), np.array([0., T]), rng.normal(size=2))[0]
                        sd = SD.sample_raw_seed(ou.bounds_x, *op, rng)
                        for b in bb:
                            sd, x = SD.interpolate_seed(sd, b, *op, rng)
                            val.update(zip(b, op[0](b, x)[1]))
            except mon.TooExpensive:
                continue
            t = np.array(sorted(val))
            z = np.array([val[v] for v in t])
            u = np.concatenate([[0], t / T, [1]])
            w = np.cumsum(rng.normal(size=(m, k + 1)) * np.sqrt(np.diff(u)), 1)
            w = w[:, :-1] - u[1:-1] * w[:, -1:]
            p = np.vstack([z, w])
            p = np.hstack([np.zeros((m + 1, 1)), p, np.zeros((m + 1, 1))])
            hi, lo = p.max(1), -p.min(1)
            q = np.sqrt(np.diff(u))
            for name, f in {'highest': hi, 'lowest': lo, 'range': hi + lo, 'imbalance': hi - lo, 'smaller excursion': np.minimum(hi, lo),
                            'larger excursion': np.maximum(hi, lo), 'time of the highest': u[p.argmax(1)], 'time of the lowest': u[p.argmin(1)],
                            'roughness': np.sum((np.diff(p) / q) ** 2, 1), 'largest step': np.max(np.abs(np.diff(p) / q), 1),
                            'area': np.sum((p[:, 1:] + p[:, :-1]) * np.diff(u), 1), 'energy': np.sum((p[:, 1:] ** 2 + p[:, :-1] ** 2) * np.diff(u), 1),
                            'time above': np.sum((p[:, 1:] > 0) * np.diff(u), 1)}.items():
                r.setdefault(f'{kind}: {name}', []).append((np.sum(f[1:] < f[0]) + rng.uniform() * (1 + np.sum(f[1:] == f[0]))) / (m + 1))
            ctx.event('values', k)
            ctx.case('shape', kind, T, x0, x1, t)
        res = {k: O.ks_unif(v) for k, v in r.items()}
        res |= {k + ' mean': O.z_mean(v, .5, np.sqrt(1 / 12)) for k, v in r.items()}
        res |= {k + ' spread': O.z_mean((2 * np.array(v) - 1) ** 2, 1 / 3) for k, v in r.items()}
        return res
    ctx.stat('shapes of finely revealed paths', run, ctx.n(3000, 20000))
    ctx.expect('values', 100)


def bounded(ctx, kind, geo):
    def run(n, rng):
        u, first, order = [], [], []
        while len(first) < n:
            T, x0, x1 = geometry(rng, geo)
            lb, ub = bounds(rng, T, x0, x1, kind)
            if O.stay(x0, x1, T, lb, ub) < .03:
                continue
            k = int(rng.choice([1, 2, 2, 3]))
            bb = history(rng, T, str(rng.choice(['once', 'one by one', 'refine'])), k)
            try:
                with ctx.affordable():
                    sk = SK.sample_raw_skeleton(T, x0, x1, (lb, ub), rng)
                    val = {}
                    for b in bb:
                        sk, x = SK.interpolate_skeleton(sk, b, rng)
                        val.update(zip(b, x))
            except mon.TooExpensive:
                continue
            pt, px, us = 0., x0, []
            for t in sorted(val):
                us.append(float(O.bridge_cdf(t - pt, T - pt, px, x1, lb, ub, n=501)(val[t])))
                pt, px = t, val[t]
            u += us
            first.append(us[0])
            order += list(zip(us[:-1], us[1:]))
            ctx.check(min(val.values()) > lb and max(val.values()) < ub, 'a value outside the bounds', bounds=(lb, ub), x=val)
            ctx.event('values', len(us))
            ctx.case(kind, geo, T, x0, x1, lb, ub, sorted(val))
        a, b = np.array(order).T
        return {'values': O.ks_unif(u), 'first values': O.ks_unif(first), 'spread': O.z_mean((2 * np.array(u) - 1) ** 2, 1 / 3),
                'neighbours': O.indep(a, b)}
    ctx.stat(f'{geo} bridge, bounds {kind}', run, ctx.n(1500, 12000))
    ctx.expect('values', 100)


def standard(ctx, hist):
    def run(n, rng):
        z = []
        while len(z) < n:
            T = float(np.exp(rng.uniform(-2, 1)))
            mod = ou if rng.uniform() < .7 else cir
            if mod is ou:
                thi, v = np.exp(rng.normal(size=2) * .7), rng.normal(size=2)
                bx = mod.bounds_x
            else:
                thi, v = np.array([1., 1.5, .7]), np.exp(rng.normal(size=2) * .2)
                bx = (-np.inf, np.inf)
            op = mod.gen_normops(thi, np.array([0., T]), v)[0]
            op2 = mod.gen_normops(thi * np.exp(rng.normal(size=len(thi)) * .3), np.array([0., T]), v)[0]
            bb = history(rng, T, hist, int(rng.choice([1, 2, 4, 7])))
            try:
                with ctx.affordable():
                    sd = SD.sample_raw_seed(bx, *op, rng)
                    val = {}
                    for b in bb:
                        o = op if rng.uniform() < .5 else op2
                        sd, x = SD.interpolate_seed(sd, b, *o, rng)
                        val.update(zip(b, o[0](b, x)[1]))
            except mon.TooExpensive:
                continue
            t = np.array(sorted(val))
            z.append(O.brownian_whiten(t / T, np.array([val[v_] for v_ in t]), 1., 0., 0.)[0])
            ctx.event('values', len(t))
            ctx.case('standard', hist, thi, T, v, t)
        return score_tests(z)
    ctx.stat(f'standardised bridge, {hist}', run, ctx.n(1500, 12000))
    ctx.expect('values', 100)


def standard_bounded(ctx, kind):
    def run(n, rng):
        u, order = [], []
        while len(u) < n:
            T = float(np.exp(rng.uniform(-2, 1)))
            thi, v = np.exp(rng.normal(size=2) * .4), np.repeat(rng.normal(), 2)
            x = v / thi[1]
            lb, ub = bounds(rng, T, x[0], x[0], kind)
            if O.stay(x[0], x[0], T, lb, ub) < .03:
                continue
            op = ou.gen_normops(thi, np.array([0., T]), v)[0]
            t = gen.times(rng, T, 2, edge=False)
            try:
                with ctx.affordable():
                    sd = SD.sample_raw_seed((lb, ub), *op, rng)
                    sd, x1_ = SD.interpolate_seed(sd, t[[1]], *op, rng)
                    sd, x0_ = SD.interpolate_seed(sd, t[[0]], *op, rng)
            except mon.TooExpensive:
                continue
            a = float(O.bridge_cdf(t[1], T, x[0], x[0], lb, ub, n=501)(x1_[0]))
            b = float(O.bridge_cdf(t[0], t[1], x[0], x1_[0], lb, ub, n=501)(x0_[0]))
            u += [a, b]
            order.append((a, b))
            ctx.check(lb < min(x0_[0], x1_[0]) and max(x0_[0], x1_[0]) < ub, 'a value outside the bounds', bounds=(lb, ub), x=(x0_, x1_))
            ctx.event('values', 2)
            ctx.case('standard', kind, thi, T, v, lb, ub, t)
        a, b = np.array(order).T
        return {'values': O.ks_unif(u), 'spread': O.z_mean((2 * np.array(u) - 1) ** 2, 1 / 3), 'first': O.ks_unif(a), 'second': O.ks_unif(b), 'neighbours': O.indep(a, b)}
    ctx.stat(f'standardised bridge, bounds {kind}', run, ctx.n(2500, 20000))
    ctx.expect('values', 100)


def tasks(tier):
    reps = 1 if tier == 'quick' else 3
    out = []
    for r in range(reps):
        for geo in ('any', 'level', 'up', 'down', 'far'):
            for h in ('once', 'one by one', 'refine', 'random'):
                out.append((f'free-{geo}-{h}-{r}', free, dict(geo=geo, hist=h)))
            for k in range(1, 6):
                out.append((f'bounded-{geo}-{k}-{r}', bounded, dict(kind=k, geo=geo)))
        out += [(f'shapes{r}{k}', shapes, {}) for k in range(4)]
        for h in ('once', 'one by one', 'refine', 'random'):
            out.append((f'standard-{h}-{r}', standard, dict(hist=h)))
        for k in range(1, 6):
            out.append((f'standard_bounded-{k}-{r}', standard_bounded, dict(kind=k)))
    return out
