import numpy as np
import scipy.stats as ss
from joblib import Parallel

import gen
import mon
import oracle as O
from c07 import trapz
from c11 import Scores, rpit, stationary
from c13 import off
from c14 import DRIFT, SW, VOL
from ctbayes.ea3lib import seed as SD
from ctbayes.misc import adapt
from ctbayes.mjplib import inference as mjp_inf, skeleton as K
from ctbayes.switching import mcmc, types

RULE = ('Exact joint draws of generator, regime path, parameters per regime, data and latent bridges of switching Ornstein-Uhlenbeck models in '
        'all shipped parametrisations; then a few updates; then the joint law is tested again. Two and three regimes, visited and unvisited '
        'ones, early rejection on and off, portkey probabilities 0 to 0.9, batch sizes 1 to 50, random cut points. Non-trivial: every chain.')
ASSUMPTIONS = ['The conjugate generator update is conditional on the initial regime; it is tested from initial regimes drawn independently of the generator.',
               'Whole iterations are tested with nearly fixed jump rates, where the conditional and the stationary treatment of the initial regime agree.',
               'Adaptation between updates is switched off by fresh proposal objects, because adaptive chains are not exactly invariant.']
SD_PRIOR = np.array([.5, .35])


def log_prior(thi):
    thi = np.asarray(thi)
    if np.any(thi <= 0):
        return -np.inf
    return float(-np.sum(np.log(thi) + np.log(thi) ** 2 / (2 * SD_PRIOR ** 2)))


def own_sd(name):
    return np.array([1., .5])


class State:
    """An exact joint draw (or what an update made of it)."""

    def __init__(self, rng, name, own=False, lam=None, start='stationary', own_rates=None):
        self.name, self.m = name, SW[name]
        self.sd = own_sd(name) if own else SD_PRIOR
        self.own = own
        r = self.r = int(rng.integers(2, 4)) if lam is None else len(lam)
        n = int(rng.integers(2, 5))
        self.t = gen.record(rng, n, .1, .7)
        self.lam = lam if lam is not None else gen.generator(rng, r, spread=.5) * float(rng.uniform(.5, 2))
        x0 = None if start == 'stationary' else int(rng.integers(0, r))
        while True:
            self.thi = np.exp(rng.normal(size=(r, 2)) * self.sd)
            if np.all(self.rates() < 12):
                break
        self.y = K.sample_forwards(float(self.t[-1]), x0, self.lam, ome=rng)
        self.data(rng)

    def rates(self):
        return np.array([DRIFT[self.name](th) for th in self.thi])

    def piece(self, thi, a, c, v, y):
        """Mean multiplier and variance over the exact switching path from a to c, given the regime path."""
        jt = np.asarray(y.t, float)
        e = np.concatenate([[a], jt[(jt > a) & (jt < c)], [c]])
        k, var = 1., 0.
        for p, q in zip(e[:-1], e[1:]):
            i = int(np.asarray(y.xt)[np.searchsorted(jt, p, 'right') - 1])
            b, s, d = DRIFT[self.name](thi[i]), VOL[self.name](thi[i]), q - p
            k *= np.exp(-b * d)
            var = var * np.exp(-2 * b * d) - s * s * np.expm1(-2 * b * d) / (2 * b)
        return k * v, var, k

    def data(self, rng):
        v = [float(rng.normal() * .7)]
        for a, c in zip(self.t, self.t[1:]):
            mu, var, _ = self.piece(self.thi, a, c, v[-1], self.y)
            v.append(mu + np.sqrt(var) * rng.normal())
        self.v = np.array(v)

    def anchor_law(self, thi, y, a, va, s, c, vc):
        """Exact law of the path at s between known points (a, va) and (c, vc)."""
        m1, q1, _ = self.piece(thi, a, s, va, y)
        _, q2, k = self.piece(thi, s, c, 1., y)
        prec = 1 / q1 + k * k / q2
        return (m1 / q1 + k * vc / q2) / prec, 1 / prec

    def augment(self, rng):
        """Exact anchors at the jump times and exact latent bridges."""
        tt, yt, vt = [], [], []
        jt, jx = np.asarray(self.y.t, float), np.asarray(self.y.xt)
        for i, (a, c) in enumerate(zip(self.t, self.t[1:])):
            at, va = a, self.v[i]
            tt.append(a)
            yt.append(jx[np.searchsorted(jt, a, 'right') - 1])
            vt.append(va)
            for s, x in zip(jt, jx):
                if a < s < c:
                    mu, var = self.anchor_law(self.thi, self.y, at, va, s, c, self.v[i + 1])
                    at, va = s, mu + np.sqrt(var) * rng.normal()
                    tt.append(s)
                    yt.append(x)
                    vt.append(va)
        tt.append(self.t[-1])
        yt.append(jx[-1])
        vt.append(self.v[-1])
        h = types.Anchorage(np.array(tt), np.array(yt), np.array(vt))
        z = [next(SD.sample_bridge(self.m.bounds_x, *no, self.m.eval_disc(self.thi, int(y0)), self.m.eval_bounds_disc(self.thi, int(y0)), rng))
             for no, y0 in zip(self.m.gen_normops(self.thi, *h), h.yt)]
        return z, h

    def model(self, hyper=None):
        m = self.m
        return mcmc.Model(self.t, self.v, m.bounds_thi, hyper, m.eval_log_prior if self.own else log_prior, m.sample_aug, m.gen_normops,
                          m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc, m.eval_bounds_grad)


def wellformed(ctx, st, thi, z, h, **w):
    t, yt, vt = (np.asarray(x) for x in h)
    thi = np.asarray(thi, float)
    w = dict(w, obs_t=st.t, obs_v=st.v, anchors=h)
    ok = ctx.check(thi.shape == (st.r, 2) and np.all(np.isfinite(thi)) and np.all(thi > 0), 'parameters outside of their space', thi=thi, **w)
    ok = ok and ctx.check(len(t) == len(yt) == len(vt) and len(z) == len(t) - 1, 'one latent path per interval between anchors', paths=len(z), **w)
    ok = ok and ctx.check(t[0] == 0 and t[-1] == st.t[-1] and np.all(np.diff(t) > 0), 'anchor times do not increase from start to end of the record', **w)
    p = np.clip(np.searchsorted(t, st.t), 0, len(t) - 1)
    ok = ok and ctx.check(np.array_equal(t[p], st.t) and np.array_equal(vt[p], st.v), 'an observation is missing or changed', **w)
    if ok:
        is_obs = np.isin(t, st.t)
        ok = ctx.check(np.all((np.diff(yt) == 0) == is_obs[1:]), 'regimes do not change exactly at the other anchors', **w)
    for z_ in z:
        s = np.asarray(z_.s)
        ok = ok and ctx.check(s[0] == 0 and s[-1] == 1 and np.all(np.diff(s) > 0), 'a latent path is malformed', s=s, **w)
    return ok


def scores(acc, st, thi, z, h, rng, regime=None):
    """Scores of parameters, data given regimes, anchors given data, latent values given anchors, and (optionally) the regime path."""
    y = K.Skeleton(np.asarray(h.t)[np.concatenate([[True], np.diff(h.yt) != 0])], np.asarray(h.yt)[np.concatenate([[True], np.diff(h.yt) != 0])], float(st.t[-1]))
    u = ss.norm.cdf(np.log(thi) / st.sd)
    here = int(rng.choice(np.asarray(h.yt)[:-1]))
    put = lambda k, x: acc.setdefault(k, []).append(float(x))
    put('first parameter', u[here, 0])
    put('second parameter', u[here, 1])
    away = [i for i in range(st.r) if i not in set(np.asarray(h.yt)[:-1].tolist())]
    if away:
        put('parameters of absent regimes', u[away[0], int(rng.integers(0, 2))])
    chi, res = 0., []
    for i, (a, c) in enumerate(zip(st.t, st.t[1:])):
        mu, var, _ = st.piece(thi, a, c, st.v[i], y)
        res.append((st.v[i + 1] - mu) / np.sqrt(var))
    put('residuals', ss.chi2.cdf(np.sum(np.square(res)), len(res)))
    put('one residual', ss.norm.cdf(res[int(rng.integers(0, len(res)))]))
    j = np.where(~np.isin(h.t, st.t))[0]
    if len(j):
        k = int(rng.choice(j))
        nxt = st.t[np.searchsorted(st.t, h.t[k])]
        vn = st.v[np.searchsorted(st.t, h.t[k])]
        mu, var = st.anchor_law(thi, y, h.t[k - 1], h.vt[k - 1], h.t[k], nxt, vn)
        put('anchor', ss.norm.cdf((h.vt[k] - mu) / np.sqrt(var)))
    k = int(rng.integers(0, len(z)))
    d = h.t[k + 1] - h.t[k]
    s = d * float(rng.choice([.5, .5, .2, .8]))
    x = float(SD.interpolate_seed(z[k], np.array([s]), *st.m.gen_normops(thi, *h)[k], rng)[1][0])
    i = int(h.yt[k])
    mu, var = O.ou_bridge_moments(s, d, h.vt[k], h.vt[k + 1], DRIFT[st.name](thi[i]), VOL[st.name](thi[i]))
    put('latent value', ss.norm.cdf((x - mu) / np.sqrt(var)))
    if regime is not None:
        put('initial regime', rpit(rng, int(y.xt[0]), stationary(regime) if st.start == 'stationary' else np.ones(st.r)))
        sc = Scores()
        sc.path(rng, y, float(st.t[-1]), regime, most=3)
        for lab, vals in sc.s.items():
            put('regimes, ' + lab, vals[0])


def verdicts(acc):
    res = {}
    for k, x in acc.items():
        x = np.array(x)
        if len(x) < 40:
            continue
        res[k] = O.ks_unif(x)
        res[k + ' (mean)'] = O.z_mean(x - .5, 0, np.sqrt(1 / 12))
        res[k + ' (spread)'] = O.z_mean((x - .5) ** 2 - 1 / 12, 0, np.sqrt(1 / 180))
    for a, b in (('first parameter', 'second parameter'), ('second parameter', 'residuals'), ('first parameter', 'one residual'), ('first parameter', 'latent value')):
        if a in acc and b in acc:
            res[f'{a} and {b}'] = O.indep(np.array(acc[a]), np.array(acc[b]))
    return res


def controls(rng, precoin, portkey=None):
    return mcmc.Controls(pr_portkey=float(rng.choice([0, .02, .1, .3, .9])) if portkey is None else portkey, ea_batch_size=int(rng.choice([1, 3, 10, 50])), precoin=precoin)


def fresh_params(st, thi, rng):
    smp = [adapt.MyopicMvRwSampler(thi[i], st.m.bounds_thi, .2) for i in range(st.r)]
    sc = float(rng.choice([-2., -3.] if st.own else [-1., -2., 0.]))
    for s_ in smp:
        s_.log_prop_scale = [sc]
    return smp


def fresh_regimes(y, rng):
    s = adapt.MyopicMjpSampler(y, .2)
    s.log_prop_scale = [float(rng.choice([-2., 0., 1.]))]
    return s


def kernel(ctx, name, which, precoin, steps, own=False):
    def run(n, rng):
        acc = {}
        moved = tried = 0
        for _ in range(n):
            st = State(rng, name, own)
            st.start = 'stationary'
            mod, ctrl = st.model(), controls(rng, precoin)
            thi, lam = st.thi, st.lam
            ctx.case(name, which, precoin, thi, lam, st.t, st.v)
            w = dict(kernel=which, model=name, controls=tuple(ctrl), start=st.thi, rates=lam)
            try:
                with ctx.affordable():
                    z, h = st.augment(rng)
                    for _ in range(steps):
                        with Parallel(1, 'loky') as pool:
                            if 'params' in which:
                                smp = fresh_params(st, thi, rng)
                                new, z = mcmc.update_params(thi, z, h, mod, ctrl, smp, rng, pool)
                                new = np.asarray(new, float)
                                tried += st.r
                                moved += int(np.sum(np.any(new != thi, 1)))
                                ctx.check(all(np.array_equal(smp[i].state, new[i]) for i in range(st.r)), 'a proposal object was not given the current parameter', after=new, **w)
                                thi = new
                            if 'hidden' in which:
                                smp = fresh_regimes(types.prune_anchorage(h), rng)
                                h0 = h
                                z, h = mcmc.update_hidden(thi, lam, z, h, mod, ctrl, smp, rng, pool)
                                tried += 1
                                moved += len(h0.t) != len(h.t) or not np.array_equal(h0.t, h.t)
                                y = types.prune_anchorage(h)
                                ctx.check(np.array_equal(smp.state.t, y.t) and np.array_equal(smp.state.xt, y.xt), 'the proposal object was not given the current regime path', **w)
                        z = list(z)
                        if not wellformed(ctx, st, thi, z, h, **w):
                            break
                    else:
                        scores(acc, st, thi, z, h, rng, lam if 'hidden' in which else None)
                        ctx.event('chains')
                        ctx.event('updates', steps)
            except mon.TooExpensive:
                continue
        ctx.event('moves', moved)
        if tried > 200 and moved == 0:
            ctx.violate('no update ever changed the state', kernel=which, precoin=precoin, tried=tried)
        return verdicts(acc)
    ctx.stat(f'{which} kernel, {name}, early rejection {precoin}', run, ctx.n(300 if name == 'ou' or own else 450, 4000))
    ctx.expect('chains', 100)


def generator(ctx):
    """Rates from the conjugate prior, an initial regime independent of them, a path, an update: rates and path keep their joint law."""
    def run(n, rng):
        acc = {}
        for _ in range(n):
            r = int(rng.integers(2, 5))
            a, b = gen.log_uniform(rng, 1, 6, (r, r)), gen.log_uniform(rng, .5, 3, (r, r))
            np.fill_diagonal(a, np.nan)
            np.fill_diagonal(b, np.nan)
            q = rng.gamma(np.where(np.isnan(a), 1, a)) / b
            np.fill_diagonal(q, 0)
            np.fill_diagonal(q, -q.sum(1))
            T = float(rng.uniform(.5, 3))
            y = K.sample_forwards(T, int(rng.integers(0, r)), q, ome=rng)
            # observations between the jumps, as anchors that keep the regime
            obs = gen.times(rng, T, int(rng.integers(0, 5)), edge=False) if rng.uniform() < .8 else np.zeros(0)
            tt = np.unique(np.concatenate([[0.], np.asarray(y.t, float), obs, [T]]))
            yt = np.asarray(y.xt)[np.searchsorted(np.asarray(y.t, float), tt, 'right') - 1]
            h = types.Anchorage(tt, yt, rng.normal(size=len(tt)))
            g = np.asarray(mcmc.update_generator(h, (a, b), rng))
            ctx.case('generator', q, tt, yt)
            if not ctx.check(g.shape == (r, r) and np.all(off(g) > 0) and np.allclose(g.sum(1), 0), 'the update does not give a generator', got_gen=g):
                continue
            u = ss.gamma.cdf(off(g), off(a), scale=1 / off(b))
            acc.setdefault('rates', []).append(u[int(rng.integers(0, len(u)))])
            sc = Scores()
            sc.path(rng, y, T, g, most=3)
            for k, v in sc.s.items():
                acc.setdefault('path, ' + k, []).append(v[0])
            n_jump, hold = np.zeros((r, r)), np.zeros(r)
            e = np.append(np.asarray(y.t, float), T)
            for k, x in enumerate(np.asarray(y.xt)):
                hold[x] += e[k + 1] - e[k]
                if k:
                    n_jump[y.xt[k - 1], x] += 1
            u = ss.gamma.cdf(off(g), off(a + n_jump), scale=1 / off(b + hold[:, None]))
            acc.setdefault('conditional law', []).append(u[int(rng.integers(0, len(u)))])
            ctx.event('chains')
        return {k: O.ks_unif(v) for k, v in acc.items() if len(v) > 40}
    ctx.stat('generator update', run, ctx.n(4000, 30000))
    ctx.expect('chains', 100)


def whole(ctx, name, precoin):
    """Complete iterations through the public entry point, from a saved exact state, with nearly fixed symmetric rates."""
    def run(n, rng):
        acc = {}
        for _ in range(n):
            r, rate = int(rng.integers(2, 4)), float(rng.uniform(.5, 2))
            lam = np.full((r, r), rate)
            np.fill_diagonal(lam, -rate * (r - 1))
            st = State(rng, name, own=True, lam=lam)
            st.start = 'stationary'
            portkey = float(rng.choice([.01, .3]))
            ctx.case('whole', name, precoin, st.thi, rate, st.t, st.v)
            w = dict(kernel='whole iteration', model=name, start=st.thi, rates=lam)
            try:
                with ctx.affordable():
                    z, h = st.augment(rng)
                    state = dict(thi=st.thi, lam=lam, z=z, h=h, param_samplers=fresh_params(st, st.thi, rng), regime_sampler=fresh_regimes(types.prune_anchorage(h), rng), ome=rng)
                    it = st.m.sample_posterior(st.t, st.v, r, a0=1e5 * rate, b0=1e5, ome=np.random.default_rng(1), state=state, precoin=precoin, pr_portkey=portkey)
                    thi, lam2, z, h = next(it)
                    ctx.check(np.allclose(lam2, lam, rtol=.1), 'generator far from its nearly fixed prior', got_gen=lam2, **w)
                    if wellformed(ctx, st, thi, z, h, **w):
                        scores(acc, st, np.asarray(thi), list(z), h, rng, lam)
                        ctx.event('chains')
                        ctx.event('updates', 3)
            except mon.TooExpensive:
                continue
        return verdicts(acc)
    ctx.stat(f'whole iteration, {name}, early rejection {precoin}', run, ctx.n(450, 4000))
    ctx.expect('chains', 100)


def resume(ctx):
    """Stopping and resuming from the saved state gives the chain that was not interrupted."""
    rng = ctx.rng
    for k in range(ctx.n(6, 30)):
        name = str(rng.choice(list(SW)))
        lam = gen.generator(rng, 2, spread=.3)
        st = State(rng, name, own=True, lam=lam)
        st.start = 'stationary'
        pc = bool(k % 2)
        n1, n2 = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        sd_ = int(rng.integers(0, 2 ** 31))
        ctx.case('resume', name, st.thi, st.t, st.v, n1, n2)
        out = []
        try:
            with ctx.affordable(budget=30_000_000, after=15.):
                z, h = st.augment(rng)
                for cut in (None, n1):
                    ome = np.random.default_rng(sd_)
                    aux = np.random.default_rng(sd_)
                    state = dict(thi=st.thi, lam=lam, z=z, h=h, param_samplers=fresh_params(st, st.thi, aux), regime_sampler=fresh_regimes(types.prune_anchorage(h), aux), ome=ome)
                    it = st.m.sample_posterior(st.t, st.v, 2, state=state, precoin=pc, pr_portkey=.05)
                    chain = []
                    for i in range(n1 + n2):
                        if i == cut:
                            state = dict(state, **dict(zip(('thi', 'lam', 'z', 'h'), chain[-1])))
                            it = st.m.sample_posterior(st.t, st.v, 2, state=state, precoin=pc, pr_portkey=.05)
                        chain.append(next(it))
                    out.append(chain)
        except mon.TooExpensive:
            continue
        for i, (a, b) in enumerate(zip(*out)):
            same = np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and all(np.array_equal(p, q) for p, q in zip(a[3], b[3])) \
                and all(np.array_equal(p.s, q.s) and np.array_equal(p.z, q.z) for p, q in zip(a[2], b[2]))
            if not ctx.check(same, 'the resumed chain differs from the uninterrupted one', iteration=i, resumed_after=n1, model=name):
                break
        ctx.event('chains', 2)
    ctx.expect('chains', 4)


def coins(ctx, name):
    """The coins of whole updates on densely revealed paths, against the probability of each."""
    m = SW[name]

    def run(n, rng):
        acc = {k: [] for k in ('parameter coin, upside', 'parameter coin, downside', 'path coin')}
        for _ in range(n):
            st = State(rng, name)
            thi, k = st.thi, int(rng.integers(0, st.r))
            thi2 = thi.copy()
            thi2[k, int(rng.integers(0, 2))] *= np.exp(rng.normal() * .5)
            if rng.uniform() < .5:
                thi2[k] *= np.exp(rng.normal(size=2) * .3)
            mod, ctrl = st.model(), controls(rng, True)
            ctx.case('coins', name, thi, thi2, st.t, st.v)
            try:
                with ctx.affordable():
                    z, h = st.augment(rng)
                    z = [SD.interpolate_seed(z_, np.linspace(0, d, 202)[1:-1], *no, rng)[0] for z_, no, d in zip(z, m.gen_normops(thi, *h), np.diff(h.t))]
                    up = down = path = 0.
                    for z_, y0, no, no2, d in zip(z, h.yt, m.gen_normops(thi, *h), m.gen_normops(thi2, *h), np.diff(h.t)):
                        s, zz = np.asarray(z_.s), np.asarray(z_.z)
                        f, f2 = m.eval_disc(thi, int(y0), no[1](s * 1., zz)[1]), m.eval_disc(thi2, int(y0), no2[1](s * 1., zz)[1])
                        up += trapz(np.maximum(f2 - f, 0), s * d)
                        down += trapz(np.maximum(f - f2, 0), s * d)
                        path += trapz(f, s * d) + SD.integrate_disc_bound(z_, *no, m.eval_bounds_disc(thi, int(y0)))
                    if max(up, down, path) > 8:
                        continue
                    acc['parameter coin, upside'].append((mcmc.flip_param_coins(thi, thi2, z, h, mod, ctrl, True, rng, k)[0], np.exp(-up)))
                    acc['parameter coin, downside'].append((mcmc.flip_param_coins(thi, thi2, z, h, mod, ctrl, False, rng, k)[0], np.exp(-down)))
                    heads, new = mcmc.flip_hidden_coins(thi, z, h, mod, ctrl, rng)
                    acc['path coin'].append((heads, np.exp(-path)))
                    wellformed(ctx, st, thi, new, h)
            except mon.TooExpensive:
                continue
            ctx.event('coins', 3)
        res = {}
        for key, x in acc.items():
            a, p = np.array(x, float).T
            p = np.clip(p, 0, 1)
            res[key] = O.t_mean(a - p)
            q = p < .9
            res[key + ' (contested)'] = O.z_bernoulli(np.sum(a[q]), p[q])
        return res
    ctx.stat(f'coins over several intervals, {name}', run, ctx.n(200, 2000))
    ctx.expect('coins', 50)


def tasks(tier):
    out = []
    for k in range(1 if tier == 'quick' else 4):
        for i, name in enumerate(SW):
            for pc in (True, False):
                s = f'{name}-{"pre" if pc else "no-pre"}{k}'
                out += [(f'params-{s}', kernel, dict(name=name, which='params', precoin=pc, steps=5)),
                        (f'hidden-{s}', kernel, dict(name=name, which='hidden', precoin=pc, steps=5)),
                        (f'whole-{s}', whole, dict(name=name, precoin=pc))]
                if tier != 'quick' or i == 0:
                    out += [(f'both-{s}', kernel, dict(name=name, which='params and hidden', precoin=pc, steps=3))]
                    if pc:
                        out += [(f'params-own-{s}', kernel, dict(name=name, which='params', precoin=pc, steps=3, own=True))]
            if all(hasattr(mcmc, f) for f in ('flip_param_coins', 'flip_hidden_coins')):
                out += [(f'coins-{name}{k}', coins, dict(name=name))]
        out += [(f'generator{k}', generator, {}), (f'resume{k}', resume, {})]
    return out
