import numpy as np
import scipy.stats as ss

import gen
import oracle as O
from ctbayes.mjplib import inference as I, skeleton as K

from c12 import path as any_path

RULE = ('Jump paths with and without jumps and with states never visited, prior shapes and rates over several decades that differ by entry, '
        'generators of dimension 2 to 5. Each return value against a loop-based reference. Non-trivial: every path, prior pair.')
ASSUMPTIONS = ['Hyperparameters have missing values on the diagonal, as in the library\'s own usage; only off-diagonal entries are compared.',
               'Log priors are compared up to the additive constant of the gamma densities.']


def prior(rng, d, lo=.3, rate=(.05, 20)):
    a, b = gen.log_uniform(rng, lo, 20, (d, d)), gen.log_uniform(rng, *rate, (d, d))
    if rng.uniform() < .3:
        a[:], b[:] = a[0, 0], b[0, 0]
    np.fill_diagonal(a, np.nan)
    np.fill_diagonal(b, np.nan)
    return a, b


def off(m):
    m = np.asarray(m, float)
    return m[~np.eye(len(m), dtype=bool)]


def reference(sk, d):
    n, h = np.zeros((d, d)), np.zeros(d)
    t = list(sk.t) + [sk.fin_t]
    for k, x in enumerate(sk.xt):
        h[x] += t[k + 1] - t[k]
        if k:
            n[sk.xt[k - 1], x] += 1
    return n, h


def rates(rng, d):
    return gen.generator(rng, d, spread=float(rng.choice([.3, 1.5])))


def zero_rows(ctx, g, what):
    g = np.asarray(g, float)
    ok = ctx.check(np.all(np.isfinite(g)) and np.all(off(g) >= 0), f'{what}: not a generator', gen=g)
    return ok and ctx.close(g.sum(1), np.zeros(len(g)), f'{what}: rows do not sum to zero', rtol=0, atol=1e-9 * (1 + np.max(np.abs(g))), gen=g)


def reference_checks(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(3000, 20000)):
        sk = any_path(rng)
        if len(sk.t) > 1 and rng.uniform() < .1:
            sk = K.Skeleton(sk.t[:1], sk.xt[:1], sk.fin_t)
        d = max(int(np.max(sk.xt)) + 1, 2) + int(rng.choice([0, 0, 1, 2]))
        a0, b0 = prior(rng, d)
        keep = (a0.copy(), b0.copy())
        n, h = reference(sk, d)
        w = dict(path=sk, dim=d)
        ctx.case('path', sk.t, sk.xt, sk.fin_t, d)
        a1, b1 = I.update(sk, a0, b0)
        ctx.close(off(a1), off(a0 + n), 'posterior shapes', counts=n, **w)
        ctx.close(off(b1), off(b0 + h[:, None]), 'posterior rates', times=h, **w)
        ctx.check(np.array_equal(a0, keep[0], equal_nan=True) and np.array_equal(b0, keep[1], equal_nan=True), 'hyperparameters were modified in place', **w)
        g, g2 = rates(rng, d), rates(rng, d)
        ll = []
        for q in (g, g2):
            want = sum(np.log(q[sk.xt[k - 1], sk.xt[k]]) for k in range(1, len(sk.xt))) + float(np.diag(q) @ h)
            got = I.eval_loglik(sk, q)
            ctx.close(got, want, 'log density of the path', rtol=1e-9, gen=q, **w)
            ll.append(got)

        def lp(q, a, b):
            with np.errstate(all='ignore'):
                return np.nansum(ss.gamma.logpdf(off(q), off(a), scale=1 / off(b)))
        d0 = I.eval_logprior(g, a0, b0) - I.eval_logprior(g2, a0, b0)
        d1 = I.eval_logprior(g, a1, b1) - I.eval_logprior(g2, a1, b1)
        ctx.close(d0, lp(g, a0, b0) - lp(g2, a0, b0), 'log prior differences', rtol=1e-8, atol=1e-7, alp=a0, bet=b0)
        ctx.close(d1, d0 + ll[0] - ll[1], 'prior times likelihood is not the updated density', rtol=1e-8, atol=1e-7, alp=a0, bet=b0, **w)
        ev, mo = I.get_ev(a1, b1), I.get_mode(a1 + 1, b1)
        zero_rows(ctx, ev, 'posterior mean')
        zero_rows(ctx, mo, 'posterior mode')
        ctx.close(off(ev), off(a1) / off(b1), 'posterior mean')
        ctx.close(off(mo), off(a1) / off(b1), 'posterior mode')
        s = rng.permutation(d)[:int(rng.integers(1, d + 1))]
        ctx.close(K.est_stat(sk, s), h[s] / sk.fin_t, 'occupation fractions', states=s, **w)
        ctx.event('paths')
    ctx.expect('paths', 200)


def posterior_scores(ctx):
    """Gamma law of sampled generators; and simulation-based calibration: rates from the prior, path from the rates."""
    def run(n, rng):
        u, pair, sbc, by = [], [], [], {}
        for _ in range(n):
            d = int(rng.integers(2, 5))
            a, b = prior(rng, d) if rng.uniform() < .5 else prior(rng, d, .05, (1e-4, 1e4))
            g = I.sample_param(a, b, ome=rng)
            ctx.case('rates', a, b)
            if not zero_rows(ctx, g, 'sampled generator'):
                continue
            v = ss.gamma.cdf(off(g), off(a), scale=1 / off(b))
            k = rng.integers(0, len(v))
            u.append(v[k])
            m = (off(a) / off(b))[k]
            by.setdefault('small' if m < .01 else 'moderate' if m < 100 else 'large', []).append(v[k])
            pair.append(v[:2] if rng.uniform() < .5 else v[[0, -1]])
            ctx.event('generators')
            a, b = prior(rng, d, lo=1.5)
            b[:] = np.nanmean(b)
            np.fill_diagonal(b, np.nan)
            g = I.sample_param(a, b, ome=rng)
            T = 6 / float(np.max(-np.diag(g)))
            T = 3. / float(np.nanmean(a / b))
            sk = K.sample_forwards(T, int(rng.integers(0, d)), g, ome=rng)
            g2 = I.sample_param(*I.update(sk, a, b), ome=rng)
            a1, b1 = I.update(sk, a, b)
            v = ss.gamma.cdf(off(g), off(a1), scale=1 / off(b1))
            sbc.append(v[rng.integers(0, len(v))])
            v2 = ss.gamma.cdf(off(g2), off(a1), scale=1 / off(b1))
            u.append(v2[rng.integers(0, len(v2))])
        return {**{f'gamma law, {k} rates': O.ks_unif(v) for k, v in by.items() if len(v) >= 30}, 'gamma law': O.ks_unif(u), 'independent rates': O.indep(*np.array(pair).T), 'calibrated posterior': O.ks_unif(sbc),
                'independent draws': O.indep(u[:-1], u[1:])}
    ctx.stat('sampled generators', run, ctx.n(4000, 30000))
    ctx.expect('generators', 200)


def tasks(tier):
    r = range(2 if tier == 'quick' else 8)
    return [(f'reference{k}', reference_checks, {}) for k in r] + [(f'sample{k}', posterior_scores, {}) for k in r]
