import numpy as np
from scipy.linalg import expm

import gen
import mon
import oracle as O
from ctbayes.mjplib import skeleton as K

RULE = ('Irreducible generators of dimension 2 to 5 with rates over several decades and structural zeros, horizons from a fraction of to many '
        'mean holding times, initial states given or stationary, every pair of end states of probability at least 1e-6. Every jump time '
        'and destination is scored under its exact conditional law given the past of the path (and the end state). Non-trivial: each path.')
ASSUMPTIONS = ['scipy expm is trusted as the oracle for transition matrices down to entries of 1e-6; get_trans is also compared with a uniformisation series.']


def config(rng, absorbing=False):
    dim = int(rng.integers(2, 6))
    g = gen.generator(rng, dim, spread=float(rng.choice([.3, 1., 2.])), sparse=float(rng.choice([0, 0, .4])) if dim > 2 else 0.)
    if absorbing:
        g[rng.integers(0, dim)] = 0.
    T = float(gen.log_uniform(rng, .05, 12)) / float(np.mean(-np.diag(g)))
    return g, T


def stationary(g):
    u, s, vt = np.linalg.svd(g.T)
    v = vt[-1]
    return v / v.sum()


def wellformed(ctx, sk, T, g, first=None, last=None, what='path', **w):
    t, x = np.asarray(sk.t, float), np.asarray(sk.xt)
    w = dict(w, t=t, x=x, horizon=T, gen=g)
    ok = ctx.check(t.ndim == 1 and x.shape == t.shape and len(t) >= 1 and t[0] == 0 and sk.fin_t == T, f'{what}: does not start at time zero or end at the horizon', **w)
    ok = ok and ctx.check(np.all(np.diff(t) > 0) and t[-1] < T, f'{what}: jump times not increasing inside the horizon', **w)
    ok = ok and ctx.check(np.issubdtype(x.dtype, np.integer) and np.all((x >= 0) & (x < len(g))), f'{what}: invalid states', **w)
    ok = ok and ctx.check(np.all(x[1:] != x[:-1]) and np.all(g[x[:-1], x[1:]] > 0), f'{what}: virtual jump or jump along a zero rate', **w)
    ok = ok and ctx.check(first is None or x[0] == first, f'{what}: initial state', wanted=first, **w)
    return ok and ctx.check(last is None or x[-1] == last, f'{what}: final state', wanted=last, **w)


def rpit(rng, k, prob):
    """Randomised probability integral transform of a discrete outcome."""
    prob = np.asarray(prob, float) / np.sum(prob)
    return float(np.sum(prob[:k]) + rng.uniform() * prob[k])


class Scores:
    def __init__(self):
        self.s = {}

    def put(self, k, v):
        self.s.setdefault(k, []).append(v)

    def path(self, rng, sk, T, g, fin=None, most=5):
        """Conditional scores of jumps; given the end state, rates are tilted by the probability of still getting there."""
        t, x = np.asarray(sk.t, float), np.asarray(sk.xt)
        h = None if fin is None else (lambda s: expm(g * s)[:, fin])
        at, hx = 0., (None if fin is None else h(T)[x[0]])
        for k in range(min(len(t), most)):
            i = x[k]
            q = -g[i, i]
            lab = f'jump {k + 1}' if k < 3 else 'later jumps'
            if k + 1 < len(t):
                hs = None if fin is None else h(T - t[k + 1])
                surv = np.exp(-q * (t[k + 1] - at)) * (1 if fin is None else hs[i] / hx)
                self.put(f'{lab}: time', 1 - surv)
                rate = g[i].copy()
                rate[i] = 0
                if fin is not None:
                    rate = rate * hs
                self.put(f'{lab}: destination', rpit(rng, x[k + 1], rate))
                at = t[k + 1]
                hx = None if fin is None else hs[x[k + 1]]
            else:
                surv = np.exp(-q * (T - at)) * (1 if fin is None else float(i == fin) / hx)
                self.put(f'{lab}: time', 1 - surv * rng.uniform())

    def tests(self):
        r = {k: O.ks_unif(v) for k, v in self.s.items() if len(v) >= 30}
        v = np.array(self.s['jump 1: time'])
        r['independent draws'] = O.indep(v[:-1], v[1:])
        return r


def forwards(ctx):
    def run(n, rng):
        a = Scores()
        for _ in range(n):
            free = rng.uniform() < .4
            g, T = config(rng, absorbing=not free and rng.uniform() < .1)
            x0 = None if free else int(rng.integers(0, len(g)))
            sk = K.sample_forwards(T, x0, g, ome=rng)
            ctx.case('forwards', g, T, x0)
            ctx.event('paths')
            if wellformed(ctx, sk, T, g, x0):
                if free:
                    a.put('initial state', rpit(rng, int(sk.xt[0]), stationary(g)))
                a.path(rng, sk, T, g)
                a.put('final state', rpit(rng, int(sk.xt[-1]), expm(g * T)[int(sk.xt[0])]))
                ctx.event('jumps', len(sk.t) - 1)
        return a.tests()
    ctx.stat('forward paths', run, ctx.n(4000, 30000))
    ctx.expect('jumps', 100)


def count_moments(g, T, x0, x1, p):
    """Mean and variance of the number of jumps of a bridge."""
    d = len(g)
    B, Z = g - np.diag(np.diag(g)), np.zeros((d, d))
    E = expm(T * np.block([[g, B, Z], [Z, g, B], [Z, Z, g]]))
    m1, m2 = E[x0, d + x1] / p, 2 * E[x0, 2 * d + x1] / p
    return m1, max(m2 + m1 - m1 ** 2, 1e-12)


def direct_move(g, T, i, j):
    return expm(T * np.array([[g[i, i], g[i, j]], [0, g[j, j]]]))[0, 1]


def single_excursion(g, T, i):
    r = 0.
    for j in range(len(g)):
        if j != i:
            r += expm(T * np.array([[g[i, i], g[i, j], 0], [0, g[j, j], g[j, i]], [0, 0, g[i, i]]]))[0, 2]
    return r


def bridges(ctx):
    def run(n, rng):
        a = Scores()
        m = 0
        still, moves, equal, once, excursion = [], [], [], [], []
        while m < n:
            g, T = config(rng)
            P = expm(g * T)
            x0, x1 = (int(v) for v in rng.integers(0, len(g), 2))
            if rng.uniform() < .25:
                x1 = x0
            if P[x0, x1] < 1e-6:
                continue
            m += 1
            with mon.step_guard(5_000_000):
                sk = K.sample_bridge(T, x0, x1, g, ome=rng)
            ctx.case('bridge', g, T, x0, x1)
            ctx.event('paths')
            if wellformed(ctx, sk, T, g, x0, x1):
                a.path(rng, sk, T, g, x1)
                k = len(sk.t) - 1
                ctx.event('jumps', k)
                if x0 == x1:
                    still.append((k == 0, np.exp(g[x0, x0] * T) / P[x0, x0]))
                    if len(g) == 2 or still[-1][1] > .1:  # a single excursion, given the end state
                        excursion.append((k == 2, single_excursion(g, T, x0) / P[x0, x0]))
                else:
                    once.append((k == 1, direct_move(g, T, x0, x1) / P[x0, x1]))
                (equal if x0 == x1 else moves).append((k, *count_moments(g, T, x0, x1, P[x0, x1])))
                # state at a random time
                s = float(rng.uniform(0, T))
                a.put('state at a random time', rpit(rng, int(np.asarray(sk.xt)[np.searchsorted(np.asarray(sk.t, float), s, 'right') - 1]), expm(g * s)[x0] * expm(g * (T - s))[:, x1]))
        res = a.tests()
        for k, v in {'no jump': still, 'one jump': once, 'one excursion': excursion}.items():
            c, p = np.array(v, float).T
            res[k] = O.z_bernoulli(np.sum(c), p)
        for k, v in {'number of jumps between different states': moves, 'number of jumps between equal states': equal}.items():
            c, m1, m2 = np.array(v, float).T
            keep = m1 > .05
            res[k] = O.t_mean(((c - m1) / np.sqrt(m2))[keep])
        return res
    ctx.stat('bridges', run, ctx.n(6000, 40000))
    ctx.expect('jumps', 100)


def backwards(ctx):
    def run(n, rng):
        a = Scores()
        m = 0
        while m < n:
            g, T = config(rng)
            x1 = int(rng.integers(0, len(g)))
            P = expm(g * T)[:, x1]
            if stationary(g)[x1] < 1e-4:
                continue
            m += 1
            with mon.step_guard(5_000_000):
                sk = K.sample_backwards(T, x1, g, ome=rng)
            ctx.case('backwards', g, T, x1)
            ctx.event('paths')
            if wellformed(ctx, sk, T, g, None, x1):
                i = int(sk.xt[0])
                a.put('initial state', rpit(rng, i, stationary(g) * P))
                if P[i] > 1e-7:
                    a.path(rng, sk, T, g, x1)
                ctx.event('jumps', len(sk.t) - 1)
        return a.tests()
    ctx.stat('paths with stationary start and given end', run, ctx.n(3000, 20000))
    ctx.expect('jumps', 100)


def long_bridges(ctx):
    """Horizons of hundreds of jumps: number of jumps along each edge against its exact mean and variance."""
    def run(n, rng):
        z = []
        for _ in range(n):
            g, _ = config(rng)
            T = float(rng.uniform(50, 300)) / float(np.max(-np.diag(g)))
            P = expm(g * T)
            x0, x1 = (int(v) for v in rng.integers(0, len(g), 2))
            if P[x0, x1] < 1e-6:
                continue
            with mon.step_guard(20_000_000):
                sk = K.sample_bridge(T, x0, x1, g, ome=rng)
            ctx.case('long', g, T, x0, x1)
            if not wellformed(ctx, sk, T, g, x0, x1):
                continue
            d = len(g)
            i, j = (int(v) for v in rng.integers(0, d, 2))
            B = np.zeros((d, d))  # counts of i->j, or time spent in i
            B[i, j] = g[i, j] if i != j else 1.
            Z = np.zeros((d, d))
            E = expm(T * np.block([[g, B, Z], [Z, g, B], [Z, Z, g]]))
            m1, m2 = E[x0, d + x1] / P[x0, x1], 2 * E[x0, 2 * d + x1] / P[x0, x1]
            t, x = np.append(np.asarray(sk.t, float), T), np.asarray(sk.xt)
            if i != j:
                c = np.sum((x[:-1] == i) & (x[1:] == j))
                var = m2 + m1 - m1 ** 2
            else:
                c = np.sum(np.diff(t)[x == i])
                var = m2 - m1 ** 2
            if var > 1e-6 * max(1, m1 ** 2) and m1 > 1:
                z.append((c - m1) / np.sqrt(var))
            ctx.event('jumps', len(x) - 1)
        z = np.array(z)
        return {'mean': O.t_mean(z), 'variance': O.t_mean(z ** 2, 1)}
    ctx.stat('long bridges', run, ctx.n(700, 5000))
    ctx.expect('jumps', 1000)


def series(g, T):
    lam = np.max(-np.diag(g))
    n = max(1, int(np.ceil(lam * T / 4)))
    A = np.eye(len(g)) + g / lam
    w, p, out = np.exp(-lam * T / n), np.eye(len(g)), 0
    for k in range(1, 60):
        out = out + w * p
        p, w = p @ A, w * lam * T / n / k
    return np.linalg.matrix_power(out, n)


def laws(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1500, 10000)):
        g, T = config(rng)
        ctx.case('laws', g, T)
        ctx.close(K.get_trans(T, g), series(g, T), 'transition matrix', rtol=1e-8, atol=1e-12, gen=g, horizon=T)
        s = np.asarray(K.get_stat(g))
        ctx.close(s, stationary(g), 'stationary law', rtol=1e-6, atol=1e-9, gen=g)
        d = int(rng.integers(2, 6))
        q = K.sample_trial_generator(d, ome=rng)
        ctx.check(q.shape == (d, d) and np.all(q[~np.eye(d, dtype=bool)] > 0) and np.allclose(q.sum(1), 0), 'random generator is not a valid one', gen=q)
        ctx.event('matrices', 3)
    ctx.expect('matrices', 100)


def tasks(tier):
    r = range(1 if tier == 'quick' else 4)
    out = []
    for k in r:
        out += [(f'forwards{k}{i}', forwards, {}) for i in range(2)] + [(f'bridges{k}{i}', bridges, {}) for i in range(4)] \
            + [(f'backwards{k}{i}', backwards, {}) for i in range(3)] + [(f'long{k}', long_bridges, {}), (f'laws{k}', laws, {})]
    return out
