import numpy as np
from scipy import stats as ss

import gen
import oracle as O
from c25 import min_time_cdf
from ctbayes.sdelib import moments as M, paths as P, transforms as X

RULE = ('Horizons over several decades, one to eight times (some nearly equal or near the ends), endpoints, drifts, one to six dimensions. Draws are '
        'whitened time by time under independent conditional laws; moments and transforms are compared with independent formulas. Non-trivial: every draw.')
ASSUMPTIONS = ['Bessel processes with drift are only judged at single times (they are not Markov).']


def grid(rng, T):
    return gen.times(rng, T, int(rng.choice([1, 2, 3, 5, 8])))


def moments(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1500, 20000)):
        T, x0, x1 = gen.bridge(rng, wild=True)
        t = grid(rng, T)
        mu = float(rng.normal() * 3)
        w = dict(T=T, x0=x0, x1=x1, t=t, mu=mu)
        ctx.case('moments', w)
        keep = t.copy()
        m, c = M.moments_wiener(t, x0, mu)
        A = np.tril(np.ones((len(t),) * 2)) * np.sqrt(np.diff(np.concatenate([[0.], t])))
        ctx.close(m, [x0 + mu * v for v in t], 'mean of a Wiener process', **w)
        ctx.close(c, A @ A.T, 'covariance of a Wiener process', atol=1e-12 * T, **w)
        m, c = M.moments_brownbr(t, T, x0, x1)
        ctx.close(m, [(x0 * (T - v) + x1 * v) / T for v in t], 'mean of a Brownian bridge', atol=1e-9 * (1 + abs(x0)), **w)
        ctx.close(c, [[min(a, b) - a * b / T for a in t] for b in t], 'covariance of a Brownian bridge', atol=1e-9 * T, **w)
        ctx.check(np.array_equal(keep, t), 'times modified', **w)
        # Gaussian bridges: any covariance, against conditioning by the precision matrix
        n = int(rng.integers(2, 6))
        um, B = rng.normal(size=n) * 2, rng.normal(size=(n, n + 1))
        uc = B @ B.T + .05 * np.eye(n)
        keep = um.copy(), uc.copy()
        cm, cc = M.moments_gaussian_bridge(x1, um, uc)
        K = np.linalg.inv(uc)
        ctx.close(cc, np.linalg.inv(K[:-1, :-1]), 'covariance of a Gaussian bridge', rtol=1e-5, atol=1e-6, cov=uc)
        ctx.close(cm, um[:-1] - np.linalg.solve(K[:-1, :-1], K[:-1, -1]) * (x1 - um[-1]), 'mean of a Gaussian bridge', rtol=1e-5, atol=1e-6 * (1 + abs(x1)), cov=uc, mean=um, fin_x=x1)
        ctx.check(np.array_equal(keep[0], um) and np.array_equal(keep[1], uc), 'inputs modified')
        # an Ornstein-Uhlenbeck bridge from its unconditional moments
        b, s = gen.log_uniform(rng, .3, 3, 2)
        tt = np.append(t, T)
        um = x0 * np.exp(-b * tt)
        uc = s * s / (2 * b) * (np.exp(-b * np.abs(tt[:, None] - tt)) - np.exp(-b * (tt[:, None] + tt)))
        cm, cc = M.moments_gaussian_bridge(x1, um, uc)
        em, ev = O.ou_bridge_moments(t, T, x0, x1, b, s)
        if b * T < 20:
            ctx.close(cm, em, 'mean of an Ornstein-Uhlenbeck bridge', rtol=1e-6, atol=1e-6 * (1 + abs(x0) + abs(x1)), **w)
            ctx.close(np.diag(cc), ev, 'variance of an Ornstein-Uhlenbeck bridge', rtol=1e-5, atol=1e-9 * s * s / b + 1e-12, **w)
        ctx.event('moments')
    ctx.expect('moments', 100)


def transforms(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2500, 30000)):
        T, x0, x1 = gen.bridge(rng, wild=True)
        n = int(rng.choice([0, 1, 2, 5, 9]))
        t = gen.times(rng, T, n)
        if n and rng.uniform() < .3:
            t = np.unique(np.concatenate([[0.], t, [T]]))
        x = rng.normal(size=len(t)) * 2
        r = float(rng.normal() * 2)
        keep = t.copy(), x.copy()
        w = dict(T=T, t=t, x=x)
        ctx.case('transforms', w, r)
        rt, rx = X.reverse(t, x, T)
        ctx.check(len(rt) == len(t) == len(rx), 'reversal changed the number of points', **w)
        ctx.close(np.sort(rt), rt, 'reversed times do not increase', rtol=0, atol=0, **w)
        ctx.close(rt, [T - v for v in reversed(t.tolist())], 'reversed times', **w)
        ctx.check(np.array_equal(rx, np.array(x.tolist()[::-1])), 'reversed values', got=rx, **w)
        bt, bx = X.reverse(rt, rx, T)
        ctx.close(bt, t, 'reversing twice changes the times', atol=1e-12 * T, **w)
        ctx.check(np.array_equal(bx, x), 'reversing twice changes the values', **w)
        if n:
            ft, fx = X.reflect(t, x, r)
            ctx.check(np.array_equal(ft, t), 'reflection changed the times', **w)
            ctx.close(np.asarray(fx) + x, np.full(len(x), 2 * r), 'reflected values are not mirrored at the level', level=r, **w)
            ctx.close(X.reflect(ft, fx, r)[1], x, 'reflecting twice changes the values', level=r, **w)
            ctx.check(X.reflect(None, x, r)[0] is None, 'reflection without times invents times', **w)
            ctx.close(X.reflect(None, x, r)[1], 2 * r - x, 'reflection without times', level=r, **w)
        # pivoting standard coordinates: linear, and with a clock
        s = np.unique(np.concatenate([rng.uniform(0, 1, 4), [0., 1.]]))
        z = np.concatenate([[0.], rng.normal(size=len(s) - 2), [0.]])
        pt, px = X.pivot_brownbr(s, z, T, x0, x1)
        ctx.close(pt, T * s, 'pivoted times', atol=1e-12 * T, s=s)
        ctx.close(px, np.sqrt(T) * z + x0 * (1 - s) + x1 * s, 'pivoted values', s=s, z=z, T=T, x0=x0, x1=x1, atol=1e-9 * (1 + abs(x0)))
        a = float(gen.log_uniform(rng, .1, 2)) / T
        clock, back = (lambda v: np.expm1(a * v)), (lambda v: np.log1p(v) / a)
        pt, px = X.pivot_brownbr(s, z, T, x0, x1, clock, back)
        ctx.close(clock(np.asarray(pt)), clock(T) * s, 'pivoted times with a clock', atol=1e-9 * clock(T), s=s, T=T, rate=a)
        ctx.close(px, np.sqrt(clock(T)) * z + x0 * (1 - s) + x1 * s, 'pivoted values with a clock', s=s, z=z, T=T, x0=x0, x1=x1, rate=a, atol=1e-9 * (1 + abs(x0)))
        # Bessel coupling
        zz = rng.normal(size=(len(s) - 2, 3))
        y = abs(x1 - x0) + .01
        bt, bx = X.gen_seeded_bessel3br(s[1:-1], zz, T, y)
        v = np.sqrt(T) * zz + np.outer(s[1:-1], [y, 0, 0])
        ctx.close(bt, T * s[1:-1], 'times of the coupled Bessel bridge', atol=1e-12 * T)
        ctx.close(bx, np.sqrt((v * v).sum(1)), 'values of the coupled Bessel bridge', s=s, z=zz, T=T, fin_x=y)
        ctx.check(np.array_equal(keep[0], t) and np.array_equal(keep[1], x), 'inputs modified', **w)
        ctx.event('transforms')
    ctx.expect('transforms', 100)


def put(s, key, u):
    for i, v in enumerate(u):
        s.setdefault(f'{key}: value {min(i, 2) + 1}', []).append(float(v))


def tests(s):
    return {k: O.ks_unif(v) for k, v in s.items() if len(v) >= 30}


def gaussian(ctx):
    def run(n, rng):
        s, pair, comp = {}, [], []
        for _ in range(n):
            T, x0, x1 = gen.bridge(rng, wild=True)
            t = grid(rng, T)
            d = int(rng.integers(1, 5))
            init, mu = rng.normal(size=d) * 2, (None if rng.uniform() < .4 else rng.normal(size=d) * 2)
            keep = t.copy(), init.copy()
            ctx.case('wiener', t, init, mu)
            w = P.sample_wiener(t, init, mu, rng)
            if not ctx.check(np.shape(w) == (len(t), d), 'shape of a Wiener path', got=np.shape(w)):
                continue
            dt = np.diff(np.concatenate([[0.], t]))
            inc = np.diff(np.vstack([init, w]), axis=0) - (0 if mu is None else dt[:, None] * mu)
            ok = dt > 1e-7 * T  # closer times lose the increment to rounding
            u = ss.norm.cdf(inc / np.sqrt(dt)[:, None])
            put(s, 'Wiener' if mu is None else 'Wiener with drift', u[ok][:, int(rng.integers(0, d))])
            if d > 1:
                comp.append(u[-1, :2] if ok[-1] else u[0, :2])
            if len(t) > 1 and ok[:2].all():
                pair.append(u[:2, 0])
            x = P.sample_brownbr(t, T, x0, x1, rng)
            if not ctx.check(np.shape(x) == np.shape(t), 'shape of a Brownian bridge', got=np.shape(x)):
                continue
            far = np.minimum(dt, T - t) > 1e-7 * T
            if far.all():
                put(s, 'Brownian bridge', ss.norm.cdf(O.brownian_whiten(t, x, T, x0, x1)[0]))
            ctx.check(np.array_equal(keep[0], t) and np.array_equal(keep[1], init), 'inputs modified')
            ctx.event('draws', 2)
        r = tests(s)
        r['components are independent'] = O.indep(*np.array(comp).T)
        r['increments are independent'] = O.indep(*np.array(pair).T)
        return r
    ctx.stat('Gaussian samplers', run, ctx.n(5000, 50000))
    ctx.expect('draws', 100)


def bessel(ctx):
    def run(n, rng):
        s = {}
        for _ in range(n):
            T, _, _ = gen.bridge(rng, wild=True)
            t = gen.times(rng, T, int(rng.choice([1, 2, 3, 5])), edge=False)
            dim = int(rng.integers(1, 7))
            x0 = 0. if rng.uniform() < .25 else float(abs(rng.normal())) * np.sqrt(T) * 2
            x1 = float(abs(rng.normal())) * np.sqrt(T) * 2 + 1e-3 * np.sqrt(T)
            keep = t.copy()
            ctx.case('bessel', t, dim, x0, x1)
            x = np.asarray(P.sample_bessel(t, x0, dim, ome=rng))
            if not ctx.check(x.shape == t.shape and np.all(x >= 0), 'shape or sign of a Bessel path', got=x):
                continue
            px, pt, u = x0, 0., []
            for a, b in zip(t, x):
                u.append(ss.ncx2.cdf(b * b / (a - pt), dim, px * px / (a - pt)) if px > 0 else ss.chi2.cdf(b * b / (a - pt), dim))
                px, pt = b, a
            put(s, 'Bessel' + (' from the origin' if x0 == 0 else ''), u)
            mu = float(rng.normal() * 2) / np.sqrt(T)
            x = np.asarray(P.sample_bessel(t, x0, dim, mu, ome=rng))
            k = int(rng.integers(0, len(t)))
            nc = (x0 + mu * t[k]) ** 2 / t[k]
            s.setdefault('Bessel with drift', []).append(float(ss.ncx2.cdf(x[k] ** 2 / t[k], dim, nc)))
            y = np.asarray(P.sample_besselbr(t, T, x1, dim, rng))
            if not ctx.check(y.shape == t.shape and np.all(y >= 0), 'shape or sign of a Bessel bridge', got=y):
                continue
            nx, nt, u = x1, T, []
            for a, b in zip(t[::-1], y[::-1]):  # Markov backwards, towards the origin
                v = a * (nt - a) / nt
                u.append(ss.ncx2.cdf(b * b / v, dim, (nx * a / nt) ** 2 / v))
                nx, nt = b, a
            put(s, 'Bessel bridge', u)
            s.setdefault(f'Bessel bridge of dimension {dim}', []).append(float(u[0]))
            ctx.check(np.array_equal(keep, t), 'times modified')
            ctx.event('draws', 3)
        return tests(s)
    ctx.stat('Bessel samplers', run, ctx.n(2500, 25000))
    ctx.expect('draws', 100)


def couplings(ctx):
    def run(n, rng):
        s = {}
        for _ in range(n):
            T, x0, x1 = gen.bridge(rng, wild=True)
            u, r2 = rng.uniform(size=3), float(rng.chisquare(1))
            w = dict(T=T, x0=x0, x1=x1, u=u, r2=r2)
            ctx.case('coupling', w)
            mt, mx = X.gen_seeded_brownbr_min(u, r2, T, x0, x1)
            ctx.check((mt, mx) == tuple(X.gen_seeded_brownbr_min(u, r2, T, x0, x1)), 'the coupled minimum is not a function of its seeds', **w)
            if not ctx.check(0 <= mt <= T and mx <= min(x0, x1), 'minimum outside its range', got=(mt, mx), **w):
                continue
            d = min(x0, x1) - mx
            ctx.close(-np.expm1(-2 * (x0 - mx) * (x1 - mx) / T), 1 - u[0], 'the minimum is not the quantile of its seed', rtol=1e-5, atol=1e-7, at=mx, **w)
            if d > 1e-3 * np.sqrt(T) and 0 < mt < T:
                v = min_time_cdf(T, x0, x1, mx, (np.inf,), 500)(mt)
                s.setdefault('time of the minimum', []).append(v)
                s.setdefault('time of the minimum, ' + ('equal ends' if x0 == x1 else 'down' if x1 < x0 else 'up'), []).append(v)
            # same seeds, other ends: the mirrored path has its minimum time mirrored in law, the shifted one moves along
            a = float(rng.normal())
            st, sx = X.gen_seeded_brownbr_min(u, r2, T, x0 + a, x1 + a)
            ctx.close(sx - a, mx, 'shifting the ends does not shift the minimum', rtol=1e-6, atol=1e-7 * (1 + abs(a) + abs(x0)), **w)
            # Bessel coupling under random seeds
            k = gen.times(rng, 1., int(rng.integers(1, 4)), edge=False)
            z = np.array([P.sample_brownbr(k, 1., 0., 0., rng) for _ in range(3)]).T
            y = abs(x1 - x0) + .01 * np.sqrt(T)
            t, b = X.gen_seeded_bessel3br(k, z, T, y)
            nx, nt, u = y, T, []
            for p, q in zip(t[::-1], b[::-1]):
                v = p * (nt - p) / nt
                u.append(ss.ncx2.cdf(q * q / v, 3, (nx * p / nt) ** 2 / v))
                nx, nt = q, p
            put(s, 'coupled Bessel bridge', u)
            ctx.event('draws', 2)
        return tests(s)
    ctx.stat('seeded couplings', run, ctx.n(2000, 20000))
    ctx.expect('draws', 100)


def tasks(tier):
    out = [('moments', moments, {}), ('transforms', transforms, {})]
    for k in range(1 if tier == 'quick' else 4):
        out += [(f'gaussian{k}{i}', gaussian, {}) for i in range(2)] + [(f'bessel{k}{i}', bessel, {}) for i in range(2)] + [(f'couplings{k}{i}', couplings, {}) for i in range(2)]
    return out
