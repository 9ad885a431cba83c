import itertools

import numpy as np
from scipy import stats as ss

import gen
import mon
import oracle as O
from ctbayes.misc import ars

RULE = ('Targets from 13 log-concave families with random shape, location and scale, on finite, half-infinite and infinite supports, '
        'truncated or not; starts left to the library or generated; hull limits 2 to 100. Every draw is checked for support; hulls '
        'are checked at generated points. Non-trivial: a stream with at least 10 draws.')
ASSUMPTIONS = ['Scales within 1e-2 to 1e2 and modes within 20 scales of the library\'s starting point when the start is left to it.',
               'Generated starts have the mode strictly inside, except on supports that end at the mode.']


def family(rng, name):
    """f, df, lb, ub, cdf, ppf (of the untruncated distribution)."""
    loc, sc = float(rng.normal() * 3), float(gen.log_uniform(rng, .03, 30))
    if name == 'normal':
        d = ss.norm(loc, sc)
        return (lambda x: -((x - loc) / sc) ** 2 / 2), (lambda x: -(x - loc) / sc ** 2), -np.inf, np.inf, d
    if name == 'gamma':
        a = float(rng.uniform(1.05, 8))
        d = ss.gamma(a, scale=sc)
        return (lambda x: (a - 1) * np.log(x) - x / sc), (lambda x: (a - 1) / x - 1 / sc), 0., np.inf, d
    if name == 'shifted gamma':
        a = float(rng.uniform(1.5, 8))
        d = ss.gamma(a, loc=loc, scale=sc)
        return (lambda x: (a - 1) * np.log(x - loc) - (x - loc) / sc), (lambda x: (a - 1) / (x - loc) - 1 / sc), loc, np.inf, d
    if name == 'beta':
        a, b = rng.uniform(1.2, 12, 2)
        d = ss.beta(a, b)
        return (lambda x: (a - 1) * np.log(x) + (b - 1) * np.log1p(-x)), (lambda x: (a - 1) / x - (b - 1) / (1 - x)), 0., 1., d
    if name == 'logistic':
        d = ss.logistic(loc, sc)
        return (lambda x: -(x - loc) / sc - 2 * np.logaddexp(0, -(x - loc) / sc)), (lambda x: (-1 + 2 / (1 + np.exp((x - loc) / sc))) / sc), -np.inf, np.inf, d
    if name == 'gumbel':
        d = ss.gumbel_r(loc, sc)
        return (lambda x: -(x - loc) / sc - np.exp(-(x - loc) / sc)), (lambda x: (-1 + np.exp(-(x - loc) / sc)) / sc), -np.inf, np.inf, d
    if name == 'laplace':
        d = ss.laplace(loc, sc)
        return (lambda x: -np.abs(x - loc) / sc), (lambda x: -np.sign(x - loc) / sc), -np.inf, np.inf, d
    if name == 'exponential':
        d = ss.expon(0, sc)
        return (lambda x: -x / sc), (lambda x: -1 / sc + 0 * x), 0., np.inf, d
    if name == 'half normal':
        d = ss.halfnorm(0, sc)
        return (lambda x: -(x / sc) ** 2 / 2), (lambda x: -x / sc ** 2), 0., np.inf, d
    if name == 'uniform':
        d = ss.uniform(loc, sc)
        return (lambda x: 0. * x), (lambda x: 0. * x), loc, loc + sc, d
    if name == 'tails':  # flat top with gaussian tails
        m = sc
        mass = 2 * m + np.sqrt(2 * np.pi) * sc

        class D:
            @staticmethod
            def cdf(x):
                x = np.asarray(x, float) - loc
                lo = np.sqrt(2 * np.pi) * sc * ss.norm.cdf(np.minimum(x + m, 0) / sc)
                mid = np.clip(x + m, 0, 2 * m)
                hi = np.sqrt(2 * np.pi) * sc * (ss.norm.cdf(np.maximum(x - m, 0) / sc) - .5)
                return (lo + mid + hi) / mass

            @staticmethod
            def ppf(u):
                g = np.linspace(loc - m - 9 * sc, loc + m + 9 * sc, 20001)
                return np.interp(u, D.cdf(g), g)

            @staticmethod
            def std():
                return m + sc
        return (lambda x: -(np.maximum(np.abs(x - loc) - m, 0) / sc) ** 2 / 2), (lambda x: -np.sign(x - loc) * np.maximum(np.abs(x - loc) - m, 0) / sc ** 2), -np.inf, np.inf, D
    raise KeyError(name)


NAMES = ['normal', 'gamma', 'shifted gamma', 'beta', 'logistic', 'gumbel', 'laplace', 'exponential', 'half normal', 'uniform', 'tails']


def target(rng, name):
    f, df, lb, ub, d = family(rng, name)
    w = dict(family=name)
    cut = int(rng.integers(0, 4))
    if cut and name not in ('uniform', 'exponential', 'half normal', 'laplace', 'tails'):
        a, b = np.sort(rng.uniform(size=2))
        if cut == 1 or (cut == 3 and b - a > .05):
            lb = max(lb, float(d.ppf(a)))
        if cut == 2 or (cut == 3 and b - a > .05):
            ub = min(ub, float(d.ppf(b)))
    pa, pb = (float(d.cdf(v)) if np.isfinite(v) else float(v > 0) for v in (lb, ub))
    w.update(support=(lb, ub))

    def cdf(x):
        return np.clip((np.asarray(d.cdf(x)) - pa) / (pb - pa), 0, 1)
    return f, df, lb, ub, cdf, d, (pa, pb), w


def start(rng, f, df, lb, ub, d, pr, name, own=None):
    """None, or increasing hull points around the mode."""
    if own or (own is None and rng.uniform() < .5) or name in ('uniform', 'exponential', 'half normal'):
        return None
    for _ in range(200):
        k = int(rng.integers(2, 6))
        x = np.unique(d.ppf(pr[0] + (pr[1] - pr[0]) * np.clip(rng.uniform(size=k), .01, .99)))
        s = df(x)
        if len(x) > 1 and np.all(np.diff(x) > 1e-6 * d.std()) and np.all(np.isfinite(f(x))) and (s[0] > 0 or np.isfinite(lb)) and (s[-1] < 0 or np.isfinite(ub)) and s[0] > 0 > s[-1]:
            return x
    return None


def own_start(d, pr, lb, ub, lim, name):
    """Is leaving the start to the library reasonable: it looks for the mode from a fixed point and steps by one."""
    if name in ('uniform', 'exponential', 'half normal'):
        return lim > 5 or name == 'uniform' or .2 < d.std() < 5
    if name == 'tails':  # steps of one stay on the flat top, which braces nothing
        return False
    m = float(d.ppf(.5))
    if np.isfinite(lb) and np.isfinite(ub):
        return lim > 5 or pr[1] - pr[0] > .1
    if np.isfinite(lb) or np.isfinite(ub):  # looked for from far out in the tail: the first hull is poor
        if lim <= 5 or (name == 'gumbel' and np.isinf(lb)):
            return False
    if not .2 < d.std() < 30 or abs(m) > 10 * d.std():
        return False
    return lim > 5 or .3 < d.std() < 3


def streams(ctx, name):
    def run(n, rng):
        u, uv, used = [], [], 0
        late = []
        while len(u) < n:
            f, df, lb, ub, cdf, d, pr, w = target(rng, name)
            x0 = start(rng, f, df, lb, ub, d, pr, name)
            lim = int(rng.choice([2, 3, 5, 20, 100]))
            if x0 is None and not own_start(d, pr, lb, ub, lim, name):
                continue
            k = int(rng.choice([25, 60, 60, 150]))
            w.update(init=x0, max_points=lim, n=k)
            x0c = None if x0 is None else x0.copy()
            with mon.step_guard(8_000_000, 6.):
                y = np.array(list(ars.sample(f, df, lb, ub, x0 if x0 is None or rng.uniform() < .7 else rng.permutation(x0), lim, rng, k)), float)
            ctx.check(len(y) == k, 'not the requested number of draws', got=len(y), **w)
            ctx.check(np.all(np.isfinite(y)) and np.all(y >= lb) and np.all(y <= ub), 'a draw outside the support', y=y, **w)
            ctx.check(x0 is None or np.array_equal(x0, x0c), 'the starting points were modified', **w)
            v = cdf(y)
            u += v.tolist()
            late += v[len(v) // 2:].tolist()
            uv += list(zip(v, v[1:]))
            ctx.event('draws', len(y))
            ctx.event('library starts' if x0 is None else 'given starts')
            ctx.case(name, lb, ub, x0, lim, k)
        a, b = np.array(uv).T
        u = np.array(u)
        return {'values': O.ks_unif(u), 'values after growth': O.ks_unif(late), 'spread': O.z_mean((2 * u - 1) ** 2, 1 / 3), 'successive draws': O.indep(a, b)}
    ctx.stat(f'{name} target', run, ctx.n(20000, 120000))
    ctx.expect('draws', 100)


def one_stream(ctx, name):
    """A single long stream: the limit on hull points is reached, later draws keep the law."""
    def run(n, rng):
        while True:
            lim = int(rng.choice([2, 2, 3, 6]))
            f, df, lb, ub, cdf, d, pr, w = target(rng, name)
            x0 = start(rng, f, df, lb, ub, d, pr, name)
            if x0 is not None or own_start(d, pr, lb, ub, lim, name):
                break
        with mon.step_guard(40_000_000, 20.):
            y = np.array(list(itertools.islice(ars.sample(f, df, lb, ub, x0, lim, rng), n)), float)
        ctx.check(len(y) == n, 'an endless stream ended', got=len(y), **w)
        ctx.check(np.all(np.isfinite(y)) and np.all(y >= lb) and np.all(y <= ub), 'a draw outside the support', **w)
        ctx.event('draws', len(y))
        ctx.case('long', name, lb, ub, lim)
        u = cdf(y)
        return {'values': O.ks_unif(u), 'second half': O.ks_unif(u[n // 2:]), 'successive draws': O.indep(u[1:], u[:-1])}
    ctx.stat(f'{name} long stream', run, ctx.n(4000, 40000), scale=3)
    ctx.expect('draws', 100)


def hulls(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(700, 7000)):
        name = str(rng.choice(['normal', 'gamma', 'beta', 'logistic', 'gumbel', 'shifted gamma']))
        f, df, lb, ub, cdf, d, pr, w = target(rng, name)
        x = None
        while x is None:
            k = int(rng.integers(2, 12))
            x = np.unique(d.ppf(pr[0] + (pr[1] - pr[0]) * np.clip(rng.uniform(size=k), .003, .997)))
            if len(x) < 2 or np.any(np.diff(x) < 1e-4 * d.std()) or np.any(np.diff(df(x)) > -1e-7 / d.std()) \
                    or (np.isinf(lb) and df(x[0]) <= 0) or (np.isinf(ub) and df(x[-1]) >= 0):
                x = None
                if rng.uniform() < .02:
                    f, df, lb, ub, cdf, d, pr, w = target(rng, name)
        fx, dfx = f(x), df(x)
        w.update(x=x)
        y = np.asarray(ars.gen_upper(x, fx, dfx), float)
        tol = 1e-6 * d.std()
        ctx.check(len(y) == len(x) - 1 and np.all(y >= x[:-1] - tol) and np.all(y <= x[1:] + tol), 'breakpoints are not between the hull points', y=y, **w)
        ctx.close(fx[:-1] + (y - x[:-1]) * dfx[:-1], fx[1:] + (y - x[1:]) * dfx[1:], 'neighbouring segments do not meet at the breakpoint', rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(fx))), **w)
        yy = np.array([lb, *y, ub])
        pts = d.ppf(pr[0] + (pr[1] - pr[0]) * rng.uniform(.0005, .9995, size=20))
        for p in pts:
            if not lb < p < ub or np.min(np.abs(y - p)) < tol or np.min(np.abs(x - p)) < tol:
                continue
            hi, lo, v = float(ars.eval_upper(x, fx, dfx, yy, p)), float(ars.eval_lower(x, fx, p)), float(f(p))
            e = 1e-7 * (1 + abs(v) + np.max(np.abs(fx)))
            ctx.check(hi >= v - e, 'the upper hull is below the target', at=p, hull=hi, f=v, **w)
            ctx.check(lo <= v + e, 'the lower hull is above the target', at=p, hull=lo, f=v, **w)
            want = np.min(fx + (p - x) * dfx)
            ctx.close(hi, want, 'the upper hull is not the least tangent', rtol=1e-7, atol=e, at=p, **w)
            ctx.close(lo, -np.inf if p < x[0] or p > x[-1] else np.interp(p, x, fx), 'the lower hull is not the chord', rtol=1e-7, atol=e, at=p, **w)
            ctx.event('hull points')
        ctx.case('hull', name, lb, ub, x)
    ctx.expect('hull points', 500)


def hull_cdf(x, fx, dfx, y, v):
    """CDF of the exponentiated upper hull, by fine integration per segment."""
    off = np.max(fx)

    def seg(i, a, b):
        s, h = dfx[i], fx[i] - off
        if abs(s) * (min(b, 1e300) - max(a, -1e300)) < 1e-9:
            return np.exp(h + s * (a - x[i])) * (b - a)
        return (np.exp(h + s * (b - x[i])) - np.exp(h + s * (a - x[i]))) / s
    vol = np.array([seg(i, y[i], y[i + 1]) for i in range(len(x))])
    c = np.concatenate([[0.], np.cumsum(vol)])
    i = np.clip(np.searchsorted(y, v) - 1, 0, len(x) - 1)
    return np.array([(c[j] + seg(j, y[j], u)) / c[-1] for j, u in zip(i, v)])


def envelope(ctx):
    def run(n, rng):
        u, first = [], []
        while len(u) < n:
            name = str(rng.choice(['normal', 'gamma', 'beta', 'logistic', 'gumbel']))
            f, df, lb, ub, cdf, d, pr, w = target(rng, name)
            x = start(rng, f, df, lb, ub, d, pr, name)
            if x is None:
                continue
            fx, dfx = f(x), df(x)
            if np.any(np.diff(dfx) >= 0) or np.any(np.abs(dfx) * d.std() < 1e-6):
                continue
            y = np.array([lb, *ars.gen_upper(x, fx, dfx), ub])
            v = np.array([ars.sample_envelope(x, fx, dfx, y, rng) for _ in range(40)])
            ctx.check(np.all(v >= lb) and np.all(v <= ub), 'a draw from the hull is outside the support', v=v, x=x, **w)
            u += hull_cdf(x, fx, dfx, y, v).tolist()
            ctx.event('envelope draws', len(v))
            ctx.case('envelope', name, x, lb, ub)
        return {'values': O.ks_unif(u), 'spread': O.z_mean((2 * np.array(u) - 1) ** 2, 1 / 3)}
    ctx.stat('draws from the hull', run, ctx.n(15000, 100000))
    ctx.expect('envelope draws', 100)


def tasks(tier):
    reps = 1 if tier == 'quick' else 3
    out = []
    for r in range(reps):
        out += [(f'streams-{n}-{r}{k}', streams, dict(name=n)) for n in NAMES for k in range(2)]
        out += [(f'long-{n}-{r}', one_stream, dict(name=n)) for n in NAMES]
        out += [(f'hulls{r}{k}', hulls, {}) for k in range(3)] + [(f'envelope{r}{k}', envelope, {}) for k in range(2)]
    return out
