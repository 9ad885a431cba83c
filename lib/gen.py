"""Input generators shared by the checks."""
import numpy as np


def bridge(rng, wild=False):
    """A bridge (T, x0, x1): horizons over several decades, endpoints equal, close or far apart on the scale of T."""
    T = float(np.exp(rng.uniform(-4, 4) if wild else rng.uniform(-1.5, 1.5)))
    k = rng.integers(0, 6)
    off = float(rng.normal() * (10 if rng.uniform() < .2 else 1)) if k else 0.
    d = [0., rng.normal(), rng.normal() * .1, rng.normal() * 2.5, abs(rng.normal()), -abs(rng.normal())][rng.integers(0, 6)]
    x0 = off
    x1 = float(off + d * np.sqrt(T))
    return T, x0, x1


def times(rng, T, n, edge=True):
    """n distinct increasing times inside (0, T), sometimes very close to each other or to the ends."""
    if n == 0:
        return np.zeros(0)
    while True:
        t = rng.uniform(0, T, n)
        if edge and rng.uniform() < .3:
            t[rng.integers(0, n)] = T * (1e-6 if rng.uniform() < .5 else 1 - 1e-6)
        if edge and n > 1 and rng.uniform() < .3:
            t[0] = min(t[1] * (1 + 1e-7), T * (1 - 1e-9))
        t = np.unique(t)
        if len(t) == n and t[0] > 0 and t[-1] < T:
            return t


def generator(rng, dim, spread=1., sparse=0.):
    """A jump rate matrix, irreducible, with optional zero rates."""
    while True:
        g = np.exp(rng.normal(size=(dim, dim)) * spread)
        if sparse:
            g = np.where(rng.uniform(size=g.shape) < sparse, 0., g)
        np.fill_diagonal(g, 0.)
        reach = np.linalg.matrix_power(np.eye(dim) + (g > 0), dim) > 0
        if np.all(reach):
            np.fill_diagonal(g, -g.sum(1))
            return g


def log_uniform(rng, lo, hi, size=None):
    return np.exp(rng.uniform(np.log(lo), np.log(hi), size))


def record(rng, n, lo, hi):
    """n increasing observation times from zero: irregular, on a decimal grid (whose differences do not add up exactly), or sorted."""
    k = rng.integers(0, 4)
    if k == 0 and lo < .3 and hi > .1:
        step = float(rng.choice([x for x in (.1, .2, .3, .7, .07) if lo <= x <= hi]))
        return np.arange(n) * step
    gaps = log_uniform(rng, lo, hi, n - 1)
    if k == 1:  # times with full mantissas
        return np.concatenate([[0.], np.cumsum(gaps) * (1 + 1e-3 * rng.uniform())])
    return np.concatenate([[0.], np.cumsum(gaps)])
