import numpy as np

import gen
import mon
import oracle as O

from c06 import ou_cfg
from ctbayes.ea3lib import seed as SD, skeleton as SK
from ctbayes.ito.models import cir, ou

RULE = ('Paths of random Ornstein-Uhlenbeck, square-root and bounded sine potentials. Fresh paths: weighted coin outcomes and estimates '
        'against the closed form of the expected exponential functional. Densely revealed paths: every coin outcome against its '
        'own success probability. Non-trivial: a coin or estimate with at least one point to inspect, or a closed-form case.')
ASSUMPTIONS = ['The path integral of a densely revealed path (240 points) is taken by the trapezoid rule; its error is far below the statistical one.',
               'Coins in original coordinates are relative to the global minimum of the potential, coins in standardised coordinates to its minimum over the recorded edges.']


def log_mean_ou(b, T, x0, x1):
    """log E exp(-int phi) over the unit volatility Brownian bridge x0 -> x1, phi = (b^2 x^2 - b) / 2."""
    m, v = O.ou_moments(T, b, 1., x0)
    lp = -.5 * np.log(2 * np.pi * v) - (x1 - m) ** 2 / (2 * v)
    ln = -.5 * np.log(2 * np.pi * T) - (x1 - x0) ** 2 / (2 * T)
    return lp - ln + b * (x1 ** 2 - x0 ** 2) / 2


class Sine:
    """Drift sin(x): a bounded potential given by the user."""

    @staticmethod
    def eval_disc(x):
        return (np.square(np.sin(x)) + np.cos(x)) / 2

    @staticmethod
    def eval_bounds_disc(le, ue):
        return -.5, -.5, .625


def case(rng, kind=None):
    """A random model instance: name, T, x0, x1 on the unit volatility scale, potential, bounds, normalising maps."""
    kind = kind or rng.choice(['ou', 'ou', 'cir', 'sine'])
    if kind == 'cir':
        thi = np.array([1., 1.5, .7]) * np.exp(rng.normal(size=3) * .1)
        T = float(rng.uniform(.2, .8))
        v = 1.2 * np.exp(rng.normal(size=2) * .2)
        mod = cir
    else:
        thi, T, v0, v1 = ou_cfg(rng)
        v = np.array([v0, v1])
        mod = ou
    x0, x1 = mod.reduce(thi, v)
    norm, denorm = mod.gen_normops(thi, np.array([0., T]), v)[0]
    f, g = (Sine.eval_disc, Sine.eval_bounds_disc) if kind == 'sine' else (mod.eval_disc(thi), mod.eval_bounds_disc(thi))
    bx = mod.bounds_x
    return dict(kind=kind, thi=thi, horizon=T, v=v, x=(x0, x1), f=f, g=g, norm=norm, denorm=denorm, bx=bx)


def dense_seed(sd, c, rng, m=240):
    t = np.linspace(0, c['horizon'], m + 1)[1:-1]
    sd, x = SD.interpolate_seed(sd, t, c['norm'], c['denorm'], rng)
    s, z = np.asarray(sd.s), np.asarray(sd.z)
    x = z * np.sqrt(c['horizon']) + c['x'][0] + s * (c['x'][1] - c['x'][0])
    return sd, s * c['horizon'], x


def trapz(y, t):
    return float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(t)))



def refined(ctx, old, new, what, **w):
    t0, x0, t1, x1 = (np.asarray(v, float) for v in (old[0], old[1], new[0], new[1]))
    p = np.clip(np.searchsorted(t1, t0 - 1e-13 * t0[-1]), 0, len(t1) - 1)
    sc = 1e-9 * (np.ptp(x0) + abs(old[2] - old[3]) + np.max(np.abs(x0)))
    ctx.check(np.all(np.abs(t1[p] - t0) <= 1e-12 * t0[-1]) and np.all(np.abs(x1[p] - x0) <= sc), f'{what}: the returned path is not a refinement of the given one', t0=t0, x0=x0, t1=t1, x1=x1, **w)
    ctx.check(all(abs(old[i] - new[i]) <= sc for i in (2, 3, 4)), f'{what}: the returned path has other edges', old=old[2:5], new=new[2:5], **w)


def wit(c):
    return {k: c[k] for k in ('kind', 'thi', 'horizon', 'v')}


def fresh(ctx):
    """Closed form: E[1{heads} e^offset] and E[e^(estimate + offset)] over fresh paths, per configuration."""
    def run(n, rng):
        res = {}
        acc = {'coin': [], 'estimate': [], 'direct coin': [], 'direct estimate': [], 'restricted': []}
        for _ in range(n):
            c = case(rng, 'ou')
            (b, _), T, (x0, x1) = c['thi'], c['horizon'], c['x']
            want = np.exp(log_mean_ou(b, T, x0, x1))
            k = int(rng.choice([1, 2, 3, 10, 100]))
            base = np.exp(T * b / 2)  # relative to the global minimum -b/2
            ctx.case('fresh', c['thi'], T, x0, x1, k)
            try:
                with ctx.affordable():
                    sd = SD.sample_raw_seed(c['bx'], c['norm'], c['denorm'], rng)
                    heads, off, new = SD.flip_poisson_coin(sd, c['norm'], c['denorm'], c['f'], c['g'], rng, batch_size=k)
                    refined(ctx, sd, new, 'coin', **wit(c))
                    acc['coin'].append(heads * np.exp(off) / want - 1)
                    sd = SD.sample_raw_seed(c['bx'], c['norm'], c['denorm'], rng)
                    le, off, new = SD.est_poisson_coin(sd, c['norm'], c['denorm'], c['f'], c['g'], rng)
                    refined(ctx, sd, new, 'estimator', **wit(c))
                    acc['estimate'].append(np.exp(le + off) / want - 1)
                    sk = SK.sample_raw_skeleton(T, x0, x1, (-np.inf, np.inf), rng)
                    heads, new = SK.flip_poisson_coin(sk, c['f'], c['g'], rng, batch_size=k)
                    refined(ctx, sk, new, 'direct coin', **wit(c))
                    acc['direct coin'].append(heads * base / want - 1)
                    sk = SK.sample_raw_skeleton(T, x0, x1, (-np.inf, np.inf), rng)
                    le, new = SK.est_poisson_coin(sk, c['f'], c['g'], rng)
                    refined(ctx, sk, new, 'direct estimator', **wit(c))
                    acc['direct estimate'].append(np.exp(le) * base / want - 1)
            except mon.TooExpensive:
                continue
            ctx.event('coins', 4)
        return {k: O.t_mean(v) for k, v in acc.items() if v}
    ctx.stat('expected exponential functional', run, ctx.n(2500, 20000))
    ctx.expect('coins', 100)


def dense(ctx):
    """Coins and estimates on densely revealed paths, each against its own probability."""
    def run(n, rng):
        acc = {}

        def put(name, got, p):
            acc.setdefault(name, []).append((float(got), p))
        pairs = []
        for _ in range(n):
            c = case(rng)
            T = c['horizon']
            w = wit(c)
            ctx.case('dense', c['kind'], c['thi'], T, c['v'])
            try:
                with ctx.affordable():
                    sd = SD.sample_raw_seed(c['bx'], c['norm'], c['denorm'], rng)
                    sd, t, x = dense_seed(sd, c, rng)
                    phi = c['f'](x)
                    integral = trapz(phi, t)
                    off0 = float(SD.integrate_disc_bound(sd, c['norm'], c['denorm'], c['g']))
                    p, prev = np.exp(-integral - off0), None
                    ctx.check(-off0 / T <= np.min(phi) + 1e-9 * (1 + np.max(np.abs(phi))), 'the potential is below its reported lower bound along the path', low=-off0 / T, phi=np.min(phi), **w)
                    for _ in range(3):
                        heads, off, new = SD.flip_poisson_coin(sd, c['norm'], c['denorm'], c['f'], c['g'], rng, batch_size=int(rng.choice([1, 2, 3, 10, 50])))
                        ctx.close(off, off0, 'offset of the coin', **w)
                        refined(ctx, sd, new, 'coin', **w)
                        sd = new
                        put('coin', heads, p)
                        if prev is not None:
                            pairs.append((prev - p) * (heads - p))
                        prev = heads
                        ctx.event('coins')
                    le, off, new = SD.est_poisson_coin(sd, c['norm'], c['denorm'], c['f'], c['g'], rng)
                    ctx.close(off, off0, 'offset of the estimator', **w)
                    refined(ctx, sd, new, 'estimator', **w)
                    put('estimate', np.exp(le), p)
                    # path bounds over sub-intervals
                    k = int(rng.choice([1, 2, 5, 12]))
                    arg = k if rng.uniform() < .5 else np.concatenate([[0.], gen.times(rng, T, k, edge=False), [T]])
                    tt, lo, hi = SD.bound_disc_path(sd, c['norm'], c['denorm'], c['g'], arg)
                    i = np.clip(np.searchsorted(tt, t, 'right') - 1, 0, len(lo) - 1)
                    tol = 1e-9 * (1 + np.max(np.abs(phi)))
                    ctx.check(len(lo) == len(hi) == len(tt) - 1 and np.all(phi >= lo[i] - tol) and np.all(phi <= hi[i] + tol), 'the potential leaves its reported bounds along the path', arg=arg, **w)
                    # original coordinates
                    sk = SK.sample_raw_skeleton(T, *c['x'], c['bx'], rng)
                    sk, _ = SK.interpolate_skeleton(sk, np.linspace(0, T, 241)[1:-1], rng)
                    cent = c['g'](*sorted((sk.tight_x, sk.loose_x)))[0]
                    p = np.exp(-trapz(c['f'](np.asarray(sk.x)) - cent, np.asarray(sk.t)))
                    for _ in range(2):
                        heads, new = SK.flip_poisson_coin(sk, c['f'], c['g'], rng, batch_size=int(rng.choice([1, 2, 3, 10, 50])))
                        refined(ctx, sk, new, 'direct coin', **w)
                        sk = new
                        put('direct coin', heads, p)
                        ctx.event('coins')
                    le, new = SK.est_poisson_coin(sk, c['f'], c['g'], rng)
                    refined(ctx, sk, new, 'direct estimator', **w)
                    put('direct estimate', np.exp(le), p)
            except mon.TooExpensive:
                continue
        res = {}
        for k, v in acc.items():
            a, p = np.array(v).T
            res[k] = O.t_mean(a - p)
            if 'coin' in k:
                q = np.clip(p, 0, 1)
                res[k + ' when unlikely'] = O.z_bernoulli(np.sum(a[q < .3]), q[q < .3])
                res[k + ' when likely'] = O.z_bernoulli(np.sum(a[q > .7]), q[q > .7])
        res['repeated coins'] = O.t_mean(pairs)
        return res
    ctx.stat('densely revealed paths', run, ctx.n(260, 2500))
    ctx.expect('coins', 50)


def dual(ctx):
    def run(n, rng):
        acc = {True: [], False: []}
        nil_pairs = []
        for _ in range(n):
            c = case(rng, str(rng.choice(['ou', 'ou', 'cir'])))
            T, v = c['horizon'], c['v']
            mod = ou if c['kind'] == 'ou' else cir
            i = int(rng.integers(0, len(c['thi'])))
            thi2 = c['thi'].copy()
            thi2[i] *= np.exp(rng.normal() * (.4 if mod is ou else .05))
            ops2 = mod.gen_normops(thi2, np.array([0., T]), v)[0]
            y0, y1 = mod.reduce(thi2, v)
            w = wit(c)
            ctx.case('dual', c['kind'], c['thi'], thi2, T, v)
            try:
                with ctx.affordable():
                    sd = SD.sample_raw_seed(c['bx'], c['norm'], c['denorm'], rng)
                    sd, t, x = dense_seed(sd, c, rng)
                    s, z = t / T, np.asarray(sd.z)
                    y = z * np.sqrt(T) + y0 + s * (y1 - y0)
                    if mod is cir and min(x.min(), y.min()) < .2:
                        continue
                    gap = mod.eval_disc(thi2, y) - mod.eval_disc(c['thi'], x)
                    if mod is ou:  # the intensity the library itself uses, or a more generous one
                        lo, hi = sorted((sd.tight_z, sd.loose_z))
                        bound = mod.eval_bounds_grad(c['thi'], thi2, T, v[0], v[1], lo, hi)[i]
                        inten = float(abs(thi2[i] - c['thi'][i]) * bound) * float(rng.choice([1, 1, 3]))
                    else:
                        inten = 30 * float(np.max(np.abs(gap))) + .1
                    if inten * T > 400:
                        continue
                    up = bool(rng.uniform() < .5)
                    prev = None
                    p = np.exp(-trapz(np.maximum(gap if up else -gap, 0), t))
                    for _ in range(2):
                        heads, new = SD.flip_dual_coin(sd, inten, c['norm'], c['denorm'], mod.eval_disc(c['thi']), *ops2, mod.eval_disc(thi2), up, rng, batch_size=int(rng.choice([1, 2, 3, 10, 50])))
                        refined(ctx, sd, new, 'two-parameter coin', thi2=thi2, **w)
                        sd = new
                        acc[up].append((float(heads), p))
                        if prev is not None:
                            nil_pairs.append((prev - p) * (heads - p))
                        prev = float(heads)
                        ctx.event('coins')
            except mon.TooExpensive:
                continue
        res = {}
        for up, v in acc.items():
            a, p = np.array(v).T
            res[f'upside {up}'] = O.t_mean(a - p)
            res[f'upside {up} when contested'] = O.z_bernoulli(np.sum(a[p < .9]), p[p < .9])
        res['repeated coins'] = O.t_mean(nil_pairs)
        return res
    ctx.stat('two-parameter coin', run, ctx.n(400, 4000))
    ctx.expect('coins', 50)


def remote(ctx):
    """Paths kept away from the minimum of the potential, where the floor of the potential over the path matters."""
    def run(n, rng):
        acc = {'coin': [], 'estimate': [], 'direct coin': [], 'direct estimate': []}
        for _ in range(n):
            b, x0 = float(np.exp(rng.normal() * .3)), float(rng.uniform(1.5, 4)) * rng.choice([-1, 1])
            T = float(rng.uniform(.1, 1.2)) / (b * b * x0 * x0)
            x1 = x0 + rng.normal() * np.sqrt(T)
            s = float(np.exp(rng.normal() * .3))
            thi, v = np.array([b, s]), np.array([x0, x1]) * s
            want = np.exp(log_mean_ou(b, T, x0, x1))
            norm, denorm = ou.gen_normops(thi, np.array([0., T]), v)[0]
            f, g = ou.eval_disc(thi), ou.eval_bounds_disc(thi)
            k = int(rng.choice([1, 2, 10]))
            base = np.exp(T * b / 2)
            ctx.case('remote', b, T, x0, x1, s)
            try:
                with ctx.affordable():
                    for _ in range(2):
                        sd = SD.sample_raw_seed(ou.bounds_x, norm, denorm, rng)
                        heads, off, _n = SD.flip_poisson_coin(sd, norm, denorm, f, g, rng, batch_size=k)
                        acc['coin'].append(heads * np.exp(off) / want - 1)
                        sd = SD.sample_raw_seed(ou.bounds_x, norm, denorm, rng)
                        le, off, _n = SD.est_poisson_coin(sd, norm, denorm, f, g, rng)
                        acc['estimate'].append(np.exp(le + off) / want - 1)
                        sk = SK.sample_raw_skeleton(T, x0, x1, (-np.inf, np.inf), rng)
                        heads, _n = SK.flip_poisson_coin(sk, f, g, rng, batch_size=k)
                        acc['direct coin'].append(heads * base / want - 1)
                        sk = SK.sample_raw_skeleton(T, x0, x1, (-np.inf, np.inf), rng)
                        le, _n = SK.est_poisson_coin(sk, f, g, rng)
                        acc['direct estimate'].append(np.exp(le) * base / want - 1)
            except mon.TooExpensive:
                continue
            ctx.event('coins', 8)
        return {k: O.t_mean(v) for k, v in acc.items()}
    ctx.stat('paths away from the minimum of the potential', run, ctx.n(1500, 12000))
    ctx.expect('coins', 100)


def tasks(tier):
    reps = 1 if tier == 'quick' else 3
    out = []
    for r in range(reps):
        out += [(f'fresh{r}{k}', fresh, {}) for k in range(4)] + [(f'remote{r}{k}', remote, {}) for k in range(3)] + [(f'dense{r}{k}', dense, {}) for k in range(8)] + [(f'dual{r}{k}', dual, {}) for k in range(6)]
    return out
