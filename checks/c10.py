import numpy as np
import scipy.stats as ss

import gen
import oracle as O
from ctbayes.mjplib import skeleton as K

RULE = ('Boxes of one to three dimensions with sides over two decades, mean counts from 0.1 to 300, batch sizes from 1 to beyond the count, and '
        'batches read completely or only in part. Scores of every draw: count, order statistics, gaps (also across batch borders), coordinates. '
        'Non-trivial: a draw with at least one point.')
ASSUMPTIONS = []


def box(rng):
    d = int(rng.integers(1, 4))
    b = tuple(float(v) for v in gen.log_uniform(rng, .1, 10, d))
    mean = float(gen.log_uniform(rng, .1, 300)) if rng.uniform() < .3 else float(gen.log_uniform(rng, 1, 20))
    return mean / float(np.prod(b)), b, mean


class Acc:
    def __init__(self):
        self.s, self.xy, self.pair = {}, [], []

    def put(self, k, v):
        self.s.setdefault(k, []).append(float(v))

    def points(self, rng, p, b, mean, border=()):
        """Scores that are independent uniforms for a Poisson process on the box."""
        n = len(p)
        self.put('count', ss.poisson.cdf(n - 1, mean) + rng.uniform() * ss.poisson.pmf(n, mean))
        if n == 0:
            return
        f = p / np.array(b)
        i = int(rng.integers(0, n))
        for j in range(len(b)):
            self.put('location' if j == 0 else 'other coordinates', f[i, j])
        m = int(rng.choice([0, n - 1, n // 2]))
        self.put('order statistic', ss.beta.cdf(f[m, 0], m + 1, n - m))
        if n >= 2:
            e = np.concatenate([[0], f[:, 0], [1]])
            k = int(rng.choice(border)) if len(border) and rng.uniform() < .6 else int(rng.integers(0, n))
            g1, g2 = e[k + 1] - e[k], e[k + 2] - e[k + 1]
            u1, u2 = -np.expm1(n * np.log1p(-min(g1, 1))), -np.expm1((n - 1) * np.log1p(-min(g2 / max(1 - g1, 1e-300), 1)))
            self.put('gap', u1)
            self.put('next gap', u2)
            self.pair.append((u1, u2))
            k = int(rng.binomial(1, .5))
            h = int(np.sum(f[:, 0] < .3))
            self.put('left part', ss.binom.cdf(h - 1, n, .3) + rng.uniform() * ss.binom.pmf(h, n, .3))
        if len(b) > 1:
            self.xy.append((f[i, 0], f[i, 1]))

    def tests(self):
        r = {k: O.ks_unif(v) for k, v in self.s.items()}
        r['independent coordinates'] = O.indep(*np.array(self.xy).T)
        r['independent gaps'] = O.indep(*np.array(self.pair).T)
        c = np.array(self.s['count'])
        r['independent draws'] = O.indep(c[:-1], c[1:])
        return r


def inside(ctx, p, b, **w):
    p = np.asarray(p)
    ok = ctx.check(p.ndim == 2 and p.shape[1] == len(b), 'shape of the points', shape=p.shape, bound=b, **w)
    ok = ok and ctx.check(np.all(p >= 0) and np.all(p <= np.array(b)), 'points outside of the box', points=p, bound=b, **w)
    return ok and ctx.check(np.all(np.diff(p[:, 0]) >= 0), 'points are not sorted', points=p, bound=b, **w)


def at_once(ctx):
    def run(n, rng):
        a = Acc()
        for _ in range(n):
            lam, b, mean = box(rng)
            p = K.sample_ppp(lam, b, ome=rng)
            ctx.case('once', lam, b)
            if inside(ctx, p, b, intensity=lam):
                a.points(rng, p, b, mean)
                ctx.event('points', len(p))
        return a.tests()
    ctx.stat('points drawn at once', run, ctx.n(4000, 40000))
    ctx.expect('points', 100)


def batches(ctx):
    def run(n, rng):
        a = Acc()
        part = []
        for _ in range(n):
            lam, b, mean = box(rng)
            k = int(rng.choice([1, 2, 3, 5, 10, 50, 1000]))
            it = K.sample_batch_ppp(lam, b, batch_size=k, ome=rng)
            ctx.case('batch', lam, b, k)
            w = dict(intensity=lam, bound=b, batch_size=k)
            got, last = [], 0.
            stop = int(rng.integers(1, 4)) if rng.uniform() < .2 else None
            for p in it:
                p = np.asarray(p)
                if not inside(ctx, p, **dict(b=b, intensity=lam, batch_size=k)):
                    break
                ctx.check(len(p) >= 1 and p[0, 0] >= last, 'batches are not in order', first=p[0, 0], before=last, **w)
                last = p[-1, 0]
                if got:
                    ctx.check(len(got[-1]) == k, 'a batch that is not the last one has another size than requested', sizes=[len(g) for g in got], **w)
                ctx.check(len(p) <= k, 'a batch is too large', size=len(p), **w)
                got.append(p)
                ctx.event('batches')
                if stop is not None and len(got) >= stop:
                    break
            else:
                stop = None
            if stop is not None:
                # only a part was read: waiting time of the k-th point, in a process that may end before
                if len(got[0]) == k:
                    u = got[0][-1, 0] / b[0] * mean
                    top = ss.gamma.cdf(mean, k)
                    part.append(ss.gamma.cdf(u, k) / top)
                continue
            p = np.vstack(got) if got else np.zeros((0, len(b)))
            a.points(rng, p, b, mean, [j for j in range(k - 1, len(p) - 1, k)] + [j for j in range(k, len(p) - 1, k)])
            ctx.event('points', len(p))
        r = a.tests()
        if len(part) > 50:
            r['first full batch'] = O.ks_unif(part)
        return r
    ctx.stat('points drawn in batches', run, ctx.n(4000, 40000))
    ctx.expect('batches', 100)


def tasks(tier):
    r = range(2 if tier == 'quick' else 6)
    return [(f'once{k}', at_once, {}) for k in r] + [(f'batch{k}', batches, {}) for k in range(2 * len(r))]
