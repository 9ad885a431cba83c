import numpy as np
import scipy.stats as ss
from joblib import Parallel

import gen
import mon
import oracle as O
from c07 import trapz
from c15 import ou_path
from ctbayes.ea3lib import seed as SD
from ctbayes.ito import mcmc
from ctbayes.ito.models import ou
from ctbayes.misc import adapt, bfactories

RULE = ('Exact joint draws of parameters from the prior, data given parameters and latent bridges given both; then a few updates with fresh '
        'proposal scales; then the joint law is tested again (parameters, residuals of the data, latent path given both). Early rejection on '
        'and off, portkey probabilities 0 to 0.9, batch sizes 1 to 50. Non-trivial: every chain.')
ASSUMPTIONS = ['The shipped prior is used as is, and log-normal and box priors are given by the user to sample tighter and bounded problems.',
               'Adaptation between updates is switched off by fresh proposal objects, because adaptive chains are not exactly invariant.']


class Prior:
    """The model's own prior, a tighter log-normal one, or a box."""

    def __init__(self, kind):
        self.kind = kind
        self.c = np.zeros(2)
        self.s = {'own': np.array([1., .5]), 'tight': np.array([.5, .35]), 'box': np.array([.5, .35])}[kind]

    def draw(self, rng):
        while True:
            th = np.exp(rng.normal(size=2) * self.s)
            if self.inside(th) and th[0] < (20 if self.kind == 'own' else 1e9):
                return th

    def inside(self, th):
        return self.kind != 'box' or bool(.6 < th[0] < 1.7 and .75 < th[1] < 1.5)

    def log(self, th):
        if not self.inside(th) or np.any(np.asarray(th) <= 0):
            return -np.inf
        return float(-np.sum(np.log(th) + np.log(th) ** 2 / (2 * self.s ** 2)))

    def pit(self, th):
        u = ss.norm.cdf(np.log(th) / self.s)
        if self.kind == 'box':
            lo, hi = ss.norm.cdf(np.log([.6, .75]) / self.s), ss.norm.cdf(np.log([1.7, 1.5]) / self.s)
            u = (u - lo) / (hi - lo)
        return u


def model(t, v, prior):
    return mcmc.Model(t, v, ou.bounds_thi, ou.eval_log_prior if prior.kind == 'own' else prior.log, ou.sample_aug, ou.gen_normops,
                      ou.eval_biased_log_lik, ou.eval_disc, ou.eval_bounds_disc, ou.eval_bounds_grad)


def bridges(thi, t, v, rng):
    return [next(SD.sample_bridge(ou.bounds_x, *no, ou.eval_disc(thi), ou.eval_bounds_disc(thi), rng)) for no in ou.gen_normops(thi, t, v)]


def joint_draw(rng, prior, span=(.08, .8)):
    while True:
        thi = prior.draw(rng)
        n = int(rng.integers(2, 5)) if span[1] < 1 else 3
        t = float(rng.choice([0., 0., 1.7])) + np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, *span, n - 1))])
        v = np.array([float(rng.normal() * .7)])  # the first value carries no information
        for d in np.diff(t):
            m, q = O.ou_moments(d, thi[0], thi[1], v[-1])
            v = np.append(v, m + np.sqrt(q) * rng.normal())
        return thi, t, v


def scores(thi, t, v, x, s, k):
    """Independent uniforms/normals under the joint law: data residuals, and the latent value x at time s of interval k."""
    m, q = O.ou_moments(np.diff(t), thi[0], thi[1], v[:-1])
    r = (v[1:] - m) / np.sqrt(q)
    bm, bv = O.ou_bridge_moments(s, t[k + 1] - t[k], v[k], v[k + 1], *thi)
    return float(ss.chi2.cdf(np.sum(r ** 2), len(r))), r[k], float((x - bm) / np.sqrt(bv))


def wellformed(ctx, thi, z, t, v, **w):
    thi = np.asarray(thi, float)
    ok = ctx.check(thi.shape == (2,) and np.all(np.isfinite(thi)) and np.all(thi > 0), 'parameters outside of their space', thi=thi, **w)
    ok = ok and ctx.check(len(z) == len(t) - 1, 'one latent path per interval', n=len(z), record=t, **w)
    for z_ in z:
        s = np.asarray(z_.s)
        ok = ok and ctx.check(s[0] == 0 and s[-1] == 1 and np.all(np.diff(s) > 0), 'a latent path is malformed', s=s, **w)
    return ok


def controls(rng, precoin, portkey=None):
    return mcmc.Controls(pr_portkey=float(rng.choice([0, .01, .3, .9])) if portkey is None else portkey, ea_batch_size=int(rng.choice([1, 3, 10, 50])), precoin=precoin)


def kernel(ctx, kind, which, precoin, steps, span=(.08, .8)):
    prior = Prior(kind)

    def run(n, rng):
        acc = {k: [] for k in ('mean reversion', 'volatility', 'residuals', 'one residual', 'latent value')}
        moved = tried = 0
        for _ in range(n):
            thi0, t, v = joint_draw(rng, prior, span)
            mod = model(t, v, prior)
            ctrl = controls(rng, precoin)
            ctx.case(kind, which, precoin, thi0, t, v)
            w = dict(kernel=which, controls=tuple(ctrl), prior=kind, start=thi0, times=t, data=v)
            scale = float(rng.choice([-1., -1., 0., -2.]))
            try:
                with ctx.affordable():
                    z = bridges(thi0, t, v, rng)
                    thi = thi0
                    if which == 'first yield':
                        calls = []

                        def aug(*a):
                            calls.append(1)
                            return z0 if len(calls) == 1 else ou.sample_aug(*a)
                        z0 = z
                        it = mcmc.sample_posterior(thi0, mod._replace(sample_aug=aug), ctrl, rng)
                        thi, z = next(it)
                        tried += 1
                        moved += bool(np.any(thi != thi0))
                    else:
                        for _ in range(steps):
                            if 'params' in which:
                                smp = [adapt.MyopicRwSampler(thi[i], (0., np.inf), .2) for i in range(2)]
                                for s_ in smp:
                                    s_.log_prop_scale = [scale]
                                new, z = mcmc.update_params(thi, z, mod, ctrl, smp, rng)
                                new = np.asarray(new, float)
                                tried += 1
                                ch = np.sum(new != thi)
                                moved += ch > 0
                                ctx.check(ch <= 1, 'more than one parameter changed in one update', before=thi, after=new, **w)
                                ctx.check(all(smp[i].state == new[i] for i in range(2)), 'the proposal object was not given the current parameter', states=[s_.state for s_ in smp], after=new, **w)
                                thi = new
                            if 'sde' in which:
                                with Parallel(1, 'loky') as pool:
                                    z = list(mcmc.update_sde(thi, z, mod, ctrl, rng, pool))
                    if not wellformed(ctx, thi, z, t, v, **w):
                        continue
                    ctx.check(prior.inside(thi), 'a proposal outside of the parameter space was accepted', thi=thi, **w)
                    ctx.check('params' in which or which == 'first yield' or thi is thi0, 'path update changed the parameters', **w)
                    k = int(rng.integers(0, len(z)))
                    d = t[k + 1] - t[k]
                    s = d * float(rng.choice([.5, .5, .2, .8]))
                    x = float(ou.dereduce(thi, SD.interpolate_seed(z[k], np.array([s]), *ou.gen_normops(thi, t, v)[k], rng)[1])[0])
            except mon.TooExpensive:
                continue
            u = prior.pit(thi)
            a, b, c = scores(thi, t, v, x, s, k)
            for key, val in zip(acc, (u[0], u[1], a, float(ss.norm.cdf(b)), float(ss.norm.cdf(c)))):
                acc[key].append(val)
            ctx.event('chains')
            ctx.event('updates', steps)
        ctx.event('moves', moved)
        res = {k: O.ks_unif(x) for k, x in acc.items()}
        res.update({k + ' (mean)': O.z_mean(np.array(x) - .5, 0, np.sqrt(1 / 12)) for k, x in acc.items()})
        res.update({k + ' (spread)': O.z_mean((np.array(x) - .5) ** 2 - 1 / 12, 0, np.sqrt(1 / 180)) for k, x in acc.items()})
        x = {k: np.array(x) for k, x in acc.items()}
        res['parameters jointly'] = O.indep(x['mean reversion'], x['volatility'])
        res['volatility and residuals'] = O.indep(x['volatility'], x['residuals'])
        res['mean reversion and residual'] = O.indep(x['mean reversion'], x['one residual'])
        res['latent value and parameters'] = O.indep(x['latent value'], x['mean reversion'])
        if which != 'sde' and tried > 200 and moved == 0:
            ctx.violate('no update ever changed a parameter', kernel=which, precoin=precoin, tried=tried)
        return res
    # the shipped prior is truncated in the draw above only where its mass is below 0.2 percent
    ctx.stat(f'{which} kernel, {kind} prior, early rejection {precoin}', run, ctx.n(900, 6000) if kind != 'own' and span[1] < 1 else ctx.n(600, 4000))
    ctx.expect('chains', 100)


def coins(ctx):
    """The coins of whole updates on densely revealed paths over several intervals, against the probability of each."""
    def run(n, rng):
        acc = {'parameter coin, upside': [], 'parameter coin, downside': [], 'path coin': []}
        for _ in range(n):
            prior = Prior('tight')
            thi, t, v = joint_draw(rng, prior, (.4, 1.2))
            thi2 = thi.copy()
            i = int(rng.integers(0, 2))
            thi2[i] *= np.exp(rng.normal() * .5)
            mod, ctrl = model(t, v, prior), controls(rng, True)
            ctx.case('coins', thi, thi2, t, v)
            w = dict(start=thi, proposal=thi2, times=t, data=v)
            try:
                with ctx.affordable():
                    z = [SD.interpolate_seed(z_, np.linspace(0, d, 242)[1:-1], *no, rng)[0]
                         for z_, no, d in zip(bridges(thi, t, v, rng), ou.gen_normops(thi, t, v), np.diff(t))]
                    up, down, path = 0., 0., 0.
                    for z_, no, no2, d in zip(z, ou.gen_normops(thi, t, v), ou.gen_normops(thi2, t, v), np.diff(t)):
                        s = np.asarray(z_.s)
                        f, f2 = ou.eval_disc(thi, no[1](s, np.asarray(z_.z))[1]), ou.eval_disc(thi2, no2[1](s, np.asarray(z_.z))[1])
                        up += trapz(np.maximum(f2 - f, 0), s * d)
                        down += trapz(np.maximum(f - f2, 0), s * d)
                        path += trapz(f, s * d) + SD.integrate_disc_bound(z_, *no, ou.eval_bounds_disc(thi))
                    if max(up, down, path) > 8:
                        continue
                    acc['parameter coin, upside'].append((mcmc.flip_param_coins(thi, thi2, z, mod, ctrl, True, rng)[0], np.exp(-up)))
                    acc['parameter coin, downside'].append((mcmc.flip_param_coins(thi, thi2, z, mod, ctrl, False, rng)[0], np.exp(-down)))
                    heads, new = mcmc.flip_sde_coins(thi, z, mod, ctrl, rng)
                    acc['path coin'].append((heads, np.exp(-path)))
                    wellformed(ctx, thi, new, t, v, **w)
            except mon.TooExpensive:
                continue
            ctx.event('coins', 3)
        res = {}
        for k, x in acc.items():
            a, p = np.array(x, float).T
            p = np.clip(p, 0, 1)
            res[k] = O.t_mean(a - p)
            q = p < .9
            res[k + ' (contested)'] = O.z_bernoulli(np.sum(a[q]), p[q])
        return res
    ctx.stat('coins over several intervals', run, ctx.n(250, 2500))
    ctx.expect('coins', 50)


def lazy_chain(ctx):
    """The two-coin update on lazily revealed configurations with an enumerable target: three bits, revealed one at a time."""
    K = 3
    from math import comb
    p = np.array([comb(K, j) * (1 - .9 * j / K) for j in range(K + 1)])
    p /= p.sum()

    def coin(z, rng):
        z = dict(z)
        while True:
            i = int(rng.integers(0, K))
            if i not in z:
                z[i] = rng.uniform() < .5
            yield bool((not z[i]) or rng.uniform() < .1), dict(z)

    def run(n, rng):
        res = {}
        for q in (0., .01, .5, .9):
            cnt = np.zeros(K + 1)
            m = n // 40
            for _ in range(m):
                # exact start: rejection with one coin, then ten updates
                while True:
                    ok, z = next(coin({}, rng))
                    if ok:
                        break
                for _ in range(10):
                    _, _, z = bfactories.sample_twocoin(0., 0., coin({}, rng), coin(z, rng), q, z, rng)
                cnt[sum(z[i] if i in z else bool(rng.uniform() < .5) for i in range(K))] += 1
                ctx.event('chains')
            ctx.case('lazy', q, n=m)
            res[f'portkey {q}'] = O.chi2_counts(cnt, p)
        return res
    ctx.stat('lazily revealed chain', run, ctx.n(100000, 800000))


def long_chains(ctx):
    """The public sampler from its own start: time averages of many short chains against the exact posterior, by quadrature."""
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(7, 30)):
        t = np.concatenate([[0.], np.cumsum(rng.uniform(.2, .5, 5))])
        thi = np.array([1.3, .8]) * np.exp(rng.normal(size=2) * .2)
        v = ou_path(rng, thi, t)
        it = ou.sample_posterior(t, v, ome=rng, precoin=bool(rng.uniform() < .5), pr_portkey=.01)
        draws = []
        n_it = ctx.n(130, 500)
        try:
            with ctx.affordable(budget=20_000_000, after=20., limit=10):
                for i in range(n_it):
                    thi_, z = next(it)
                    if i % 20 == 0:
                        wellformed(ctx, thi_, z, t, v)
                    if i >= 30:
                        draws.append(np.log(thi_))
                    ctx.event('updates')
        except mon.TooExpensive:
            continue
        # exact posterior on a grid
        lb, ls = np.linspace(-4.5, 4, 240), np.linspace(-2.2, 2.2, 200)
        B, S = np.meshgrid(lb, ls, indexing='ij')
        lp = -B ** 2 / 2 - (2 * S) ** 2 / 2
        for d, a, b in zip(np.diff(t), v, v[1:]):
            lp = lp + O.ou_logtrans(d, a, b, np.exp(B), np.exp(S))
        wt = np.exp(lp - lp.max())
        wt /= wt.sum()
        m = np.array([np.sum(wt * B), np.sum(wt * S)])
        sd = np.sqrt(np.array([np.sum(wt * (B - m[0]) ** 2), np.sum(wt * (S - m[1]) ** 2)]))
        out.append((np.mean(draws, 0) - m) / sd)
        ctx.case('long', thi, t, v)
        ctx.event('chains')
    out = np.array(out)
    ctx.notes.append(dict(standardised_errors=out.mean(0).tolist(), spread=out.std(0).tolist()))
    for i, nm in enumerate(('mean reversion', 'volatility')):
        if len(out) >= 5:
            p = O.t_mean(out[:, i])
            ctx.check(not (p < 1e-4 and abs(out[:, i].mean()) > .4), f'posterior mean of the {nm} is off', standardised_errors=out[:, i], p=p)
            ctx.check(np.mean(np.abs(out[:, i])) < 1.5, f'time averages of the {nm} are far from the posterior', standardised_errors=out[:, i])
    ctx.expect('chains', 3)


def tasks(tier):
    out = []
    for k in range(1 if tier == 'quick' else 4):
        for pc in (True, False):
            s = f'{"pre" if pc else "no-pre"}{k}'
            out += [(f'params-tight-{s}{i}', kernel, dict(kind='tight', which='params', precoin=pc, steps=6)) for i in range(2)]
            out += [(f'params-box-{s}', kernel, dict(kind='box', which='params', precoin=pc, steps=6)),
                    (f'params-own-{s}', kernel, dict(kind='own', which='params', precoin=pc, steps=4)),
                    (f'both-tight-{s}', kernel, dict(kind='tight', which='params and sde', precoin=pc, steps=3)),
                    (f'first-{s}', kernel, dict(kind='tight', which='first yield', precoin=pc, steps=1))]
        if all(hasattr(mcmc, f) for f in ('flip_param_coins', 'flip_sde_coins')):
            out += [(f'coins{k}{i}', coins, {}) for i in range(2)]
        if tier != 'quick':
            out += [(f'params-wide-{k}', kernel, dict(kind='tight', which='params', precoin=True, steps=5, span=(.6, 1.6)))]
        out += [(f'sde-{k}{i}', kernel, dict(kind='tight', which='sde', precoin=True, steps=4)) for i in range(2)]
        out += [(f'lazy{k}', lazy_chain, {})] + [(f'long{k}{i}', long_chains, {}) for i in range(4)]
    return out
