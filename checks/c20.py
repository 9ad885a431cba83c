import copy

import numpy as np
import scipy.stats as ss

import gen
import oracle as O
from ctbayes.misc import adapt
from ctbayes.mjplib import skeleton as K

RULE = ('Scalar, vector and regime-path proposal objects with no, lower, upper and two-sided bounds, states close to and far from their bounds, '
        'histories of accepted and rejected outcomes (0/1 and averages), desired rates, decays and schedules. A reference model runs alongside '
        'every history; every proposal is mapped to the unconstrained scale and scored. Non-trivial: every history and every proposal.')
ASSUMPTIONS = ['With two finite bounds the walk is on the original scale (the model then rejects what leaves the bounds).',
               'The moments start from two pseudo observations with mean zero and identity covariance, as in the library.']


def bounds(rng):
    k = int(rng.integers(0, 4))
    a = float(rng.normal() * 3)
    return [(-np.inf, np.inf), (a, np.inf), (-np.inf, a), (a, a + float(gen.log_uniform(rng, .5, 5)))][k]


def point(rng, lb, ub):
    d = float(gen.log_uniform(rng, 1e-3, 50))
    if np.isinf(lb) and np.isinf(ub):
        return float(rng.normal() * 3)
    if np.isinf(ub):
        return lb + d
    if np.isinf(lb):
        return ub - d
    return lb + (ub - lb) * float(rng.uniform(.05, .95))


def real(x, lb, ub):
    """Unconstrained coordinate and log of its derivative."""
    one = np.isinf(lb) != np.isinf(ub)
    if not one:
        return float(x), 0.
    d = (x - lb) if np.isinf(ub) else (ub - x)
    return float(np.log(d)), float(-np.log(d))


def weights(ctx, lb, ub, state, prop, f, b, **w):
    """Forward and backward log densities differ by the Jacobian of the unconstrained scale (where this can be told from rounded values)."""
    for x in (prop, state):
        for v, l, u in zip(x, lb, ub):
            if min(abs(v - l), abs(v - u)) < 1e-8 * (1 + abs(v)) or not abs(v) < 1e100:
                return
    jf = sum(real(x, *bd)[1] for x, bd in zip(prop, zip(lb, ub)))
    jb = sum(real(x, *bd)[1] for x, bd in zip(state, zip(lb, ub)))
    ctx.close(f - b, jf - jb, 'reported log densities are not those of a symmetric walk', rtol=1e-6, atol=1e-6, state=state, proposal=prop, lower=lb, upper=ub, **w)
    one = np.isinf(lb) != np.isinf(ub)
    ctx.check(np.all(np.asarray(prop)[one] >= np.asarray(lb)[one]) and np.all(np.asarray(prop)[one] <= np.asarray(ub)[one]), 'a proposal is outside of a one-sided bound', proposal=prop, lower=lb, upper=ub, **w)


def outcomes(rng, n):
    """A history of outcomes: iid, blocks of one kind, or averages."""
    k = int(rng.integers(0, 4))
    if k == 0:
        return (rng.uniform(size=n) < rng.uniform()).astype(float)
    if k == 1:
        return np.repeat(float(rng.integers(0, 2)), n)
    if k == 2:
        return np.repeat((rng.uniform(size=n // 5 + 1) < .4).astype(float), 5)[:n]
    return rng.uniform(size=n)


class Reference:
    """Schedule: the k-th adaptation after 1 + 2^air + ... + k^air outcomes; step (k + 1)^-decay times the excess acceptance."""

    def __init__(self, opt, decay, air, scale, latest):
        self.opt, self.decay, self.air, self.latest = opt, decay, air, latest
        self.probs, self.k, self.due, self.prev, self.scale = [opt], 0, 1, 0, scale

    def adapt(self, prob):
        self.probs.append(prob)
        if len(self.probs) - 1 == self.due:
            self.k += 1
            excess = (prob if self.latest else np.mean(self.probs[self.prev:])) - self.opt
            step = (self.k + 1) ** -self.decay * excess
            self.scale += step
            self.prev, self.due = self.due, self.due + (self.k + 1) ** self.air
            return True, step
        return False, 0.


def setup(rng):
    return float(rng.choice([.234, .2, .05, .6])), float(rng.choice([.66, .5, 1., .9])), int(rng.choice([1, 1, 1, 0, 2]))


def histories(ctx, kind):
    rng = ctx.rng
    for _ in range(ctx.n(150, 1500)):
        opt, decay, air = setup(rng)
        d = int(rng.integers(1, 5)) if kind == 'vector' else 1
        bd = [bounds(rng) for _ in range(d)]
        lb, ub = np.array([b[0] for b in bd]), np.array([b[1] for b in bd])
        x = np.array([point(rng, *b) for b in bd])
        if kind == 'vector':
            s = adapt.MyopicMvRwSampler(x, (lb, ub), opt, decay, air)
        elif kind == 'scalar':
            s = adapt.MyopicRwSampler(float(x[0]), bd[0], opt, decay, air)
        else:
            g = gen.generator(rng, 3)
            y = K.sample_forwards(1., None, g, ome=rng)
            s = adapt.MyopicMjpSampler(y, opt, decay, air)
        ref = Reference(opt, decay, air, s.log_prop_scale[-1], kind == 'regimes')
        n = int(rng.choice([1, 3, 10, 40]))
        ctx.case(kind, opt, decay, air, bd, n)
        seen, cov = [], np.identity(d)
        for i, prob in enumerate(outcomes(rng, n)):
            w = dict(kind=kind, step=i, opt=opt, decay=decay, air=air, history=np.array(ref.probs[1:]))
            if kind == 'regimes':
                new = K.sample_forwards(1., None, g, ome=rng)
            else:
                before = np.array(x)
                prop, f, b = s.propose(rng)
                prop = np.atleast_1d(prop)
                ctx.check(prop.shape == (d,), 'shape of a proposal', proposal=prop, **w)
                weights(ctx, lb, ub, x, prop, f, b)
                ctx.check(np.array_equal(np.atleast_1d(s.state), before), 'proposing changed the state', **w)
                ok = prob > .5 and all(p[0] < v < p[1] and min(v - p[0], p[1] - v) > 1e-8 * (1 + abs(v)) and abs(v) < 1e6 for p, v in zip(bd, prop))
                new = np.array(prop) if ok else x
            out = new if kind != 'scalar' else float(new[0])
            old_scale = s.log_prop_scale[-1]
            s.adapt(out, float(prob))
            did, step = ref.adapt(float(prob))
            ctx.check(s.state is out or np.array_equal(s.state, out), 'the latest state is not kept', state=s.state, given=out, **w)
            ctx.close(s.log_prop_scale[-1], ref.scale, 'proposal scale', rtol=1e-9, atol=1e-9, adapts=did, **w)
            ctx.close(s.log_prop_scale[-1] - old_scale, step, 'change of the proposal scale', rtol=1e-7, atol=1e-9, adapts=did, **w)
            if kind == 'vector':
                seen.append([real(v, *p)[0] for v, p in zip(new, bd)])
                N, a = len(seen), np.array(seen)
                m = a.sum(0) / (N + 2)
                c = (np.identity(d) + a.T @ a - (N + 2) * np.outer(m, m)) / (N + 1)
                ctx.close(s.adapt_mean, m, 'running mean', rtol=1e-7, atol=1e-8, **w)
                ctx.close(s.adapt_cov, c, 'running covariance', rtol=1e-7, atol=1e-8, **w)
                if did:
                    cov = c
                ctx.close(s.prop_cov, cov, 'covariance of the proposals', rtol=1e-7, atol=1e-8, adapts=did, **w)
            x = new if kind != 'regimes' else x
            ctx.event('outcomes')
            ctx.event('adaptations', did)
    ctx.expect('adaptations', 50)


def laws(ctx):
    """Proposals on the unconstrained scale: Gaussian around the state with the current covariance."""
    def run(n, rng):
        one, vec, pair, u = [], [], [], []
        for _ in range(n):
            bd = bounds(rng)
            x = point(rng, *bd)
            s = adapt.MyopicRwSampler(x, bd)
            s.log_prop_scale = [0., float(rng.normal())]
            p, f, b = s.propose(rng)
            weights(ctx, np.array([bd[0]]), np.array([bd[1]]), [x], [p], f, b)
            one.append((real(p, *bd)[0] - real(x, *bd)[0]) / np.exp(s.log_prop_scale[-1]))
            ctx.case('scalar', x, bd)
            d = int(rng.integers(2, 5))
            bd = [bounds(rng) for _ in range(d)]
            x = np.array([point(rng, *q) for q in bd])
            s = adapt.MyopicMvRwSampler(x, (np.array([q[0] for q in bd]), np.array([q[1] for q in bd])))
            s.log_prop_scale = [0., float(rng.normal())]
            a = rng.normal(size=(d, d))
            s.prop_cov = a @ a.T + .1 * np.identity(d)
            p, f, b = s.propose(rng)
            weights(ctx, s.bounds[0], s.bounds[1], x, p, f, b)
            dy = np.array([real(v, *q)[0] - real(o, *q)[0] for v, o, q in zip(p, x, bd)])
            z = np.linalg.solve(np.linalg.cholesky(s.prop_cov * np.exp(s.log_prop_scale[-1])), dy)
            vec.append(float(ss.chi2.cdf(z @ z, d)))
            k = rng.permutation(d)
            u.append(z[k[0]])
            pair.append(z[k[:2]])
            ctx.event('proposals', 2)
        v = ss.norm.cdf(np.array(pair))
        one = np.array(one)
        return {'scalar proposals': O.ks_norm(one), 'spread of scalar proposals': O.z_mean(one ** 2 - 1, 0, np.sqrt(2)), 'vector proposals': O.ks_unif(vec), 'coordinates': O.ks_norm(u), 'independent coordinates': O.indep(v[:, 0], v[:, 1]),
                'independent draws': O.indep(ss.norm.cdf(one[:-1]), ss.norm.cdf(one[1:]))}
    ctx.stat('proposal law', run, ctx.n(3000, 30000))
    ctx.expect('proposals', 500)


def chains(ctx):
    """Metropolis chains driven by the reported densities of non-adapting proposals keep a target on a bounded support."""
    def run(n, rng):
        res = {'gamma on a lower bound': [], 'reflected gamma on an upper bound': [], 'bivariate': [], 'bivariate, other': []}
        for _ in range(n):
            a, sh = 2., float(rng.normal())
            tgt = {0: ss.gamma(a, sh), 1: None}
            x = float(ss.gamma(a).rvs(random_state=rng))
            for k, (key, bd, to, logp) in enumerate((('gamma on a lower bound', (sh, np.inf), lambda v: v - sh, None), ('reflected gamma on an upper bound', (-np.inf, sh), lambda v: sh - v, None))):
                st = sh + x if k == 0 else sh - x
                for _ in range(3):
                    s = adapt.MyopicRwSampler(st, bd)
                    s.log_prop_scale = [.3]
                    p, f, b = s.propose(rng)
                    lr = ss.gamma.logpdf(to(p), a) + b - ss.gamma.logpdf(to(st), a) - f
                    if np.log(rng.uniform()) < lr:
                        st = p
                res[key].append(float(ss.gamma.cdf(to(st), a)))
            lb, ub = np.array([0., -np.inf]), np.array([np.inf, 1.])
            st = np.array([ss.gamma(a).rvs(random_state=rng), 1 - ss.gamma(3.).rvs(random_state=rng)])
            lp = lambda v: ss.gamma.logpdf(v[0], a) + ss.gamma.logpdf(1 - v[1], 3.)
            for _ in range(4):
                s = adapt.MyopicMvRwSampler(st, (lb, ub))
                s.prop_cov = np.array([[1., .5], [.5, 1.]])
                p, f, b = s.propose(rng)
                if np.log(rng.uniform()) < lp(p) + b - lp(st) - f:
                    st = p
            res['bivariate'].append(float(ss.gamma.cdf(st[0], a)))
            res['bivariate, other'].append(float(ss.gamma.cdf(1 - st[1], 3.)))
            ctx.event('chains', 3)
        ctx.case('chains', n)
        out = {k: O.ks_unif(v) for k, v in res.items()}
        out.update({k + ' (mean)': O.z_mean(np.array(v) - .5, 0, np.sqrt(1 / 12)) for k, v in res.items()})
        return out
    ctx.stat('Metropolis chains', run, ctx.n(1200, 10000))
    ctx.expect('chains', 500)


def moments(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        d, n, k = int(rng.integers(1, 5)), int(rng.integers(2, 12)), int(rng.integers(1, 10))
        y = rng.normal(size=(n + k, d)) * gen.log_uniform(rng, .1, 10, d) + rng.normal(size=d) * 5
        mean, cov = np.mean(y[:n], 0), np.cov(y[:n].T).reshape(d, d)
        keep = (mean.copy(), cov.copy())
        m0, c0 = mean, cov
        for i in range(n, n + k):
            mean, cov = adapt.seq_update_normal(y[i], i, mean, cov)
            ctx.event('updates')
        ctx.case('moments', y[:2], n, k)
        ctx.close(mean, np.mean(y, 0), 'sequential mean', rtol=1e-8, atol=1e-8)
        ctx.close(cov, np.cov(y.T).reshape(d, d), 'sequential covariance', rtol=1e-7, atol=1e-7)
        ctx.check(np.array_equal(m0, keep[0]) and np.array_equal(c0, keep[1]), 'moments were modified in place')
    # transforms are inverse to each other and report their log Jacobians
    for _ in range(ctx.n(1000, 10000)):
        bd = bounds(rng)
        x = point(rng, *bd)
        y, lj = adapt.transform_to_reals(x, *bd)
        x2, lj2 = adapt.transform_to_const(y, *bd)
        ctx.case('transform', x, bd)
        want = real(x, *bd)
        ctx.close([y, lj], list(want), 'unconstrained coordinate and log Jacobian', rtol=1e-9, atol=1e-9, x=x, bound=bd)
        ctx.close(x2, x, 'transforms are not inverse to each other', rtol=1e-8, atol=1e-8, x=x, bound=bd)
        ctx.close(lj2, lj, 'log Jacobians of the two directions disagree', rtol=1e-8, atol=1e-8, x=x, bound=bd)
        ctx.event('updates')
    ctx.expect('updates', 500)


def tasks(tier):
    out = []
    for k in range(1 if tier == 'quick' else 4):
        out += [(f'{kind}{k}', histories, dict(kind=kind)) for kind in ('scalar', 'vector', 'regimes')] + [(f'laws{k}', laws, {}), (f'chains{k}', chains, {}), (f'moments{k}', moments, {})]
    return out
