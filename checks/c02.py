import itertools

import numpy as np

import gen
import mon
import oracle as O
from ctbayes.sdelib import hitting as H

RULE = ('Inputs span T over six decades, barriers from nearly touching an endpoint to far away, outer barriers from equal to far, '
        'and Bessel starting points at zero, near zero and high. Each input is decided at seeds just below and above the exact '
        'probability and at random seeds; non-trivial when the exact probability is strictly between 1e-6 and 1-1e-6.')
ASSUMPTIONS = ['Conditioning events have probability at least 1e-9; seeds are at least 1e-6 (scaled up by the rounding amplification) away from the exact probability.']


def seeds(rng, p, tol):
    s = [p - 1.5 * tol, p + 1.5 * tol, p - 30 * tol, p + 30 * tol, 0., 1., p / 2, (1 + p) / 2, rng.uniform()]
    return [float(v) for v in s if 0 <= v <= 1 and abs(v - p) > tol]


def decide(ctx, f, args, kw, seed, p, what, **w):
    with mon.step_guard(3_000_000, 2.):
        got = f(*args, seed=seed, **kw)
    ctx.event('decisions')
    ctx.check(isinstance(got, (bool, np.bool_)), f'{what}: the answer is not a truth value', args=args, kw=kw, seed=seed, got=got, **w)
    ctx.check(bool(got) == (seed < p), f'{what}: wrong decision', args=args, kw=kw, seed=seed, exact=p, got=got, **w)


def brown_case(rng):
    ue = float(gen.log_uniform(rng, .05, 20))
    k = rng.integers(0, 6)
    T = ue ** 2 * float(gen.log_uniform(rng, 1e-2, 30 if k else 1e4))
    w = [rng.uniform(-1, 1, 2), rng.uniform(-.2, .2, 2), np.sign(rng.normal(size=2)) * (1 - gen.log_uniform(rng, 1e-6, .3, 2)),
         np.repeat(rng.uniform(-1, 1), 2), np.array([0., 0.]), rng.uniform(.5, 1, 2) * np.sign(rng.normal())][rng.integers(0, 6)]
    return T, float(w[0] * ue), float(w[1] * ue), ue


def outer(rng, ue):
    k = rng.integers(0, 5)
    if k < 2:
        return None
    if rng.uniform() < .05:
        return ue  # nothing is left to escape from
    return float(ue * (1 + [gen.log_uniform(rng, 1e-6, 1e-2), gen.log_uniform(rng, 1e-2, 1), gen.log_uniform(rng, .2, 5)][k - 2]))


def brownian(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(8000, 80000)):
        T, x0, x1, ue = brown_case(rng)
        ub = outer(rng, ue)
        num = float(O.stay(x0, x1, T, -ue, ue))
        den = 1. if ub is None else float(O.stay(x0, x1, T, -ub, ub))
        if den < 1e-9:
            ctx.event('skipped_improbable_condition')
            continue
        p = 1 - num / den
        tol = 1e-6 + 1e-13 / den
        ctx.case('brownian', T, x0, x1, ue, ub)
        if 1e-6 < p < 1 - 1e-6:
            ctx.event('nontrivial_probabilities')
        kw = {} if ub is None else dict(ub_x=ub)
        for s in seeds(rng, p, tol):
            decide(ctx, H.sample_brownbr_esc, (T, x0, x1, ue), kw, s, p, 'interval escape')
        # symmetry: time reversal and reflection do not change the decision
        s = rng.uniform()
        if abs(s - p) > tol:
            for a, b in ((x1, x0), (-x0, -x1)):
                decide(ctx, H.sample_brownbr_esc, (T, a, b, ue), kw, s, p, 'interval escape, transformed path')
    ctx.expect('nontrivial_probabilities', 50)


def bessel_case(rng):
    ue = float(gen.log_uniform(rng, .05, 20))
    T = ue ** 2 * float(gen.log_uniform(rng, 1e-2, 30 if rng.integers(0, 6) else 3e3))
    k = rng.integers(0, 6)
    x1 = float(ue * [rng.uniform(1e-3, 1), rng.uniform(.9, 1 - 1e-6), gen.log_uniform(rng, 1e-4, .1), 1 - gen.log_uniform(rng, 1e-6, .1), rng.uniform(.3, .7), rng.uniform(0.01, 1)][k])
    j = rng.integers(0, 4)
    x0 = 0. if j < 2 else float(ue * (rng.uniform(0.01, 1) if j == 2 else 1 - gen.log_uniform(rng, 1e-6, .3)))
    return T, x0, x1, ue


def bessel(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(8000, 80000)):
        T, x0, x1, ue = bessel_case(rng)
        ub = outer(rng, ue)
        amp = 1. if x0 == 0 else -np.expm1(-2 * x0 * x1 / T)
        if amp < 1e-5:
            ctx.event('skipped_ill_conditioned')
            continue
        num = float(O.bes_stay(x0, x1, T, ue))
        den = 1. if ub is None else float(O.bes_stay(x0, x1, T, ub))
        if den < 1e-9:
            ctx.event('skipped_improbable_condition')
            continue
        p = 1 - num / den
        # from the origin the terms are of size T/ue^2 * ue/x1
        tol = 1e-6 + 1e-13 / den / amp + (1e-14 * ue / x1 / den)
        ctx.case('bessel', T, x0, x1, ue, ub)
        if 1e-6 < p < 1 - 1e-6:
            ctx.event('nontrivial_probabilities')
        kw = {} if ub is None else dict(ub_x=ub)
        for s in seeds(rng, p, tol):
            decide(ctx, H.sample_bessel3br_esc, (T, x0, x1, ue), kw, s, p, 'level crossing')
    ctx.expect('nontrivial_probabilities', 50)


def trivial(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2000, 20000)):
        T, x0, x1, ue = brown_case(rng)
        s = float(rng.uniform())
        ctx.case('trivial', T, x0, x1, ue)
        hi = max(abs(x0), abs(x1))
        if hi > 0:
            for e in (hi, hi * rng.uniform(.1, 1)):
                ctx.check(H.sample_brownbr_esc(T, x0, x1, e, seed=s) == True, 'an endpoint at or beyond the barrier must be an escape', T=T, x0=x0, x1=x1, ue=e, seed=s)
                ctx.check(H.sample_brownbr_esc(T, x0, x1, e, ub_x=hi * 2, seed=s) == True, 'an endpoint at or beyond the barrier must be an escape', T=T, x0=x0, x1=x1, ue=e, seed=s)
        ctx.check(H.sample_brownbr_esc(T, x0, x1, ue, ub_x=(ue + hi) / 2, seed=s) == False, 'escape although the outer barrier is tighter', T=T, x0=x0, x1=x1, ue=ue, seed=s)
        T, x0, x1, ue = bessel_case(rng)
        hi = max(x0, x1)
        for e in (hi, hi * rng.uniform(.1, 1)):
            for kw in ({}, dict(ub_x=2 * hi)):
                ctx.check(H.sample_bessel3br_esc(T, x0, x1, e, seed=s, **kw) == True, 'an endpoint at or above the level must be a crossing', T=T, x0=x0, x1=x1, ue=e, seed=s)
        ctx.check(H.sample_bessel3br_esc(T, x0, x1, ue, ub_x=(ue + hi) / 2, seed=s) == False, 'crossing although the outer level is lower', T=T, x0=x0, x1=x1, ue=ue, seed=s)


def series(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2500, 20000)):
        for f, case, st in ((H.series_brownbr_esc, brown_case, lambda T, a, b, e: O.stay(a, b, T, -e, e)),
                            (H.series_bessel3br_esc, bessel_case, lambda T, a, b, e: O.bes_stay(a, b, T, e))):
            T, x0, x1, ue = case(rng)
            bes = f is H.series_bessel3br_esc
            amp = -np.expm1(-2 * x0 * x1 / T) if bes and x0 > 0 else 1.
            ub = outer(rng, ue)
            den = 1. if ub is None else float(st(T, x0, x1, ub))
            if den < 1e-9 or amp < 1e-5 or T / ue ** 2 > 100:
                continue
            p = 1 - float(st(T, x0, x1, ue)) / den
            ctx.case('series', bes, T, x0, x1, ue, ub)
            seq = list(itertools.islice(f(T, x0, x1, ue, *(() if ub is None else (ub,))), 80, 84))
            ctx.event('series_terms', 84)
            ctx.check(len(seq) == 4 and np.allclose(seq, p, atol=1e-7 + 1e-13 / den / amp * (1 + (ue / x1 if bes else 0))), 'partial sums do not converge to the escape probability',
                      bessel=bes, T=T, x0=x0, x1=x1, ue=ue, ub=ub, tail=seq, exact=p)


def drawn(ctx, bes):
    """Decisions with the generator's own seed: frequencies over random inputs and at one input."""
    cases = []
    while len(cases) < 40:
        T, x0, x1, ue = (bessel_case if bes else brown_case)(ctx.rng)
        ub = outer(ctx.rng, ue)
        st = (lambda e: float(O.bes_stay(x0, x1, T, e))) if bes else (lambda e: float(O.stay(x0, x1, T, -e, e)))
        den = 1. if ub is None else st(ub)
        if den < 1e-9 or (bes and 0 < x0 * x1 / T < 1e-5):
            continue
        p = 1 - st(ue) / den
        if .03 < p < .97:
            cases.append((T, x0, x1, ue, ub, p))
            ctx.case('drawn', cases[-1])
    f = H.sample_bessel3br_esc if bes else H.sample_brownbr_esc

    def run(n, rng):
        k, a, b, prev, d = [], [], [], None, []
        for T, x0, x1, ue, ub, p in cases:
            r = np.array([f(T, x0, x1, ue, **({} if ub is None else dict(ub_x=ub)), ome=rng) for _ in range(n // 40)], float)
            k.append(r.sum())
            a += [(r - p) / np.sqrt(p * (1 - p))]
        z = np.concatenate(a)
        ctx.event('drawn_decisions', len(z))
        x2 = float(np.sum([(ki - n // 40 * c[-1]) ** 2 / (n // 40 * c[-1] * (1 - c[-1])) for ki, c in zip(k, cases)]))
        from scipy.stats import chi2
        return {'total frequency': O.z_mean(z, 0, 1.), 'per input frequencies': chi2.sf(x2, len(cases)), 'serial dependence': O.z_mean(z[1:] * z[:-1], 0)}
    ctx.stat('escape frequency', run, ctx.n(60000, 300000))


def tasks(tier):
    reps = 1 if tier == 'quick' else 4
    out = []
    for r in range(reps):
        out += [(f'brownian{r}{i}', brownian, {}) for i in range(3)] + [(f'bessel{r}{i}', bessel, {}) for i in range(3)]
        out += [(f'trivial{r}', trivial, {}), (f'series{r}', series, {}), (f'drawn-brownian{r}', drawn, dict(bes=False)), (f'drawn-bessel{r}', drawn, dict(bes=True))]
    return out
