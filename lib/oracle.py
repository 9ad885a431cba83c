"""Independent oracles: theta functions for Brownian bridges in strips, grid CDFs, exact transition laws, tests."""
import numpy as np
from scipy import stats as ss
from scipy.special import logsumexp

_NI = np.arange(-12, 13)
_NE = np.arange(1, 60)


def stay(a, b, T, lo=-np.inf, hi=np.inf):
    """P(Brownian bridge from a to b over T stays inside (lo, hi)), vectorised over all arguments."""
    a, b, T, lo, hi = np.broadcast_arrays(*(np.asarray(v, float) for v in (a, b, T, lo, hi)))
    res = np.ones(a.shape)
    if a.size == 0:
        return res
    ok = (a > lo) & (b > lo) & (a < hi) & (b < hi)
    fl, fh = np.isfinite(lo), np.isfinite(hi)
    with np.errstate(all='ignore'):
        res = np.where(fl & ~fh, -np.expm1(-2 * (a - lo) * (b - lo) / T), res)
        res = np.where(~fl & fh, -np.expm1(-2 * (hi - a) * (hi - b) / T), res)
        both = fl & fh & ok
        if np.any(both):
            a_, b_, T_, lo_, hi_ = (v[both] for v in (a, b, T, lo, hi))
            L = (hi_ - lo_)
            short = T_ < .4 * L * L
            out = np.empty(L.shape)
            for sel, fn in ((short, _stay_img), (~short, _stay_eig)):
                if np.any(sel):
                    out[sel] = fn((a_ - lo_)[sel, None], (b_ - lo_)[sel, None], T_[sel, None], L[sel, None])
            res[both] = out
    return np.where(ok, np.clip(res, 0, 1), 0.)


def _stay_img(x, y, T, L):
    return np.sum(np.exp(-((y - x + 2 * _NI * L) ** 2 - (y - x) ** 2) / (2 * T)) - np.exp(-((y + x + 2 * _NI * L) ** 2 - (y - x) ** 2) / (2 * T)), -1)


def _stay_eig(x, y, T, L):
    return np.sum(2 / L * np.sin(_NE * np.pi * x / L) * np.sin(_NE * np.pi * y / L)
                  * np.exp(-_NE ** 2 * np.pi ** 2 * T / (2 * L * L) + (y - x) ** 2 / (2 * T)), -1) * np.sqrt(2 * np.pi * T[..., 0])


def bes_stay(a, b, T, K):
    """P(Bessel(3) bridge from a >= 0 to b > 0 over T stays below K), vectorised."""
    with np.errstate(all='ignore'):
        return _bes_stay(a, b, T, K)


def _bes_stay(a, b, T, K):
    a, b, T, K = np.broadcast_arrays(*(np.asarray(v, float) for v in (a, b, T, K)))
    ok = (a < K) & (b < K)
    x, y, T_, L = a[..., None], b[..., None], T[..., None], K[..., None]
    # from the origin: derivative of the strip kernel in the starting point
    img0 = np.sum((y + 2 * _NI * L) / y * np.exp(-((y + 2 * _NI * L) ** 2 - y * y) / (2 * T_)), -1)
    eig0 = 2 / K * np.sum(_NE * np.pi / L * np.sin(_NE * np.pi * y / L)
                          * np.exp(-_NE ** 2 * np.pi ** 2 * T_ / (2 * L * L) + y * y / (2 * T_)), -1) * np.sqrt(2 * np.pi * T) / (2 * b / T)
    p0 = np.where(T < .4 * K * K, img0, eig0)
    img = np.sum(np.exp(-((y - x + 2 * _NI * L) ** 2 - (y - x) ** 2) / (2 * T_))
                 - np.exp(-((y + x + 2 * _NI * L) ** 2 - (y - x) ** 2) / (2 * T_)), -1)
    eig = 2 / K * np.sum(np.sin(_NE * np.pi * x / L) * np.sin(_NE * np.pi * y / L)
                         * np.exp(-_NE ** 2 * np.pi ** 2 * T_ / (2 * L * L) + (y - x) ** 2 / (2 * T_)), -1) * np.sqrt(2 * np.pi * T)
    p1 = np.where(T < .4 * K * K, img, eig) / -np.expm1(-2 * np.maximum(a, 1e-300) * b / T)
    return np.where(ok, np.clip(np.where(a * b / T > 1e-7, p1, p0), 0, 1), 0.)


def strip_kernel(a, b, T, lo=-np.inf, hi=np.inf):
    """Transition kernel a -> b over T of Brownian motion killed outside (lo, hi). At a == lo or b == lo, its
    derivative in that argument instead (the law conditioned to stay above lo)."""
    a, b, T = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float), np.asarray(T, float))
    dens = np.exp(-(b - a) ** 2 / (2 * T)) / np.sqrt(2 * np.pi * T)
    res = dens * stay(a, b, T, lo, hi)
    for u, v in ((a, b), (b, a)):
        at = (u == lo)
        if np.any(at):
            d = np.maximum(v - lo, 1e-300)
            res = np.where(at, dens * 2 * d / T * (1. if np.all(np.isinf(hi)) else bes_stay(0., d, T, hi - lo)), res)
    return res


class GridCdf:
    """CDF of an unnormalised density on a grid (trapezoid)."""

    def __init__(self, x, dens):
        d = np.maximum(np.nan_to_num(dens), 0)
        c = np.concatenate([[0.], np.cumsum((d[1:] + d[:-1]) / 2 * np.diff(x))])
        self.mass = c[-1]
        self.x, self.c = x, c / c[-1]

    def __call__(self, v):
        return np.interp(v, self.x, self.c)


def bridge_cdf(t, T, x0, x1, lo=-np.inf, hi=np.inf, exceed=None, n=4001):
    """CDF at time t of the bridge x0 -> x1 over T conditioned to stay in (lo, hi) and, if given, to exceed `exceed`."""
    m, s = x0 + (x1 - x0) * t / T, np.sqrt(t * (T - t) / T)
    g = np.linspace(max(lo, m - 9 * s - (abs(x1 - x0))), min(hi, m + 9 * s + abs(x1 - x0)), n)
    g[0], g[-1] = g[0] + 1e-9 * s, g[-1] - 1e-9 * s
    d = strip_kernel(x0, g, t, lo, hi) * strip_kernel(g, x1, T - t, lo, hi)
    if exceed is not None:
        d = d - np.where(g < exceed, strip_kernel(x0, g, t, lo, exceed) * strip_kernel(g, x1, T - t, lo, exceed), 0)
    return GridCdf(g, d)


def brownian_whiten(t, x, T, x0, x1):
    """Independent N(0,1) scores of a Brownian bridge x0 -> x1 seen at sorted times t (rows of x are paths)."""
    x = np.atleast_2d(x)
    out, pt, px = [], 0., np.full(x.shape[0], float(x0))
    for i, ti in enumerate(t):
        m = px + (x1 - px) * (ti - pt) / (T - pt)
        v = (ti - pt) * (T - ti) / (T - pt)
        out.append((x[:, i] - m) / np.sqrt(v))
        pt, px = ti, x[:, i]
    return np.array(out).T


def ou_moments(t, b, s, x0):
    return x0 * np.exp(-b * t), s * s * -np.expm1(-2 * b * t) / (2 * b)


def ou_logtrans(dt, v0, v1, b, s):
    m, v = ou_moments(dt, b, s, v0)
    return -.5 * np.log(2 * np.pi * v) - (v1 - m) ** 2 / (2 * v)


def ou_bridge_moments(t, T, v0, v1, b, s):
    m1, s1 = ou_moments(t, b, s, v0)
    # combine N(v; m1, s1) with N(v1; v e^{-b(T-t)}, s2)
    e = np.exp(-b * (T - t))
    s2 = s * s * -np.expm1(-2 * b * (T - t)) / (2 * b)
    prec = 1 / s1 + e * e / s2
    return (m1 / s1 + e * v1 / s2) / prec, 1 / prec


def cir_logtrans(dt, v0, v1, a, b, s):
    """dV = a (b - V) dt + s sqrt(V) dW"""
    c = s * s * -np.expm1(-a * dt) / (4 * a)
    return ss.ncx2.logpdf(v1 / c, 4 * a * b / s ** 2, v0 * np.exp(-a * dt) / c) - np.log(c)


def cir_cdf(dt, v0, v, a, b, s):
    c = s * s * -np.expm1(-a * dt) / (4 * a)
    return ss.ncx2.cdf(np.asarray(v) / c, 4 * a * b / s ** 2, v0 * np.exp(-a * dt) / c)


# ---------------------------------------------------------------- tests; all return p-values

def ks_unif(u):
    u = np.asarray(u, float)
    if not np.all(np.isfinite(u)):
        return 0.
    return ss.kstest(u, 'uniform').pvalue


def ks_norm(z):
    z = np.asarray(z, float)
    if not np.all(np.isfinite(z)):
        return 0.
    return ss.kstest(z, 'norm').pvalue


def ks_cdf(x, cdf):
    u = np.asarray(cdf(np.asarray(x, float)))
    return ks_unif(u)


def z_mean(x, mu=0., sd=None):
    """Two-sided test that mean(x) is mu."""
    x = np.asarray(x, float)
    if not np.all(np.isfinite(x)):
        return 0.
    s = np.std(x, ddof=1) if sd is None else sd
    d = np.mean(x) - mu
    if s == 0:
        return 1. if abs(d) < 1e-12 else 0.
    return 2 * ss.norm.sf(abs(d) / (s / np.sqrt(len(x))))


def t_mean(x, mu=0.):
    """Like z_mean, with student tails and a robust guard against a few dominating values."""
    x = np.asarray(x, float)
    if not np.all(np.isfinite(x)):
        return 0.
    s = np.std(x, ddof=1)
    if s <= 1e-13 * max(1, abs(mu)):
        return 1. if abs(np.mean(x) - mu) < 1e-9 else 0.
    return 2 * ss.t.sf(abs(np.mean(x) - mu) / (s / np.sqrt(len(x))), len(x) - 1)


def z_bernoulli(k, p):
    """Sum of independent Bernoulli(p_i) is k: normal approximation with continuity, exact if p is constant."""
    p = np.asarray(p, float)
    if p.size == 0:
        return 1.
    if p.ndim == 0 or np.all(p == p.flat[0]):
        raise ValueError('use binom')
    v = np.sum(p * (1 - p))
    d = max(abs(k - np.sum(p)) - .5, 0)
    if v < 5:
        # Chernoff bound, valid for any variance
        m = np.sum(p)
        return 1. if d < 10 else float(np.exp(-min(d * d / (2 * (m + d)), 700)))
    return 2 * ss.norm.sf(d / np.sqrt(v))


def binom(k, n, p):
    return ss.binomtest(int(k), int(n), float(np.clip(p, 0, 1))).pvalue


def chi2_counts(obs, prob):
    """Goodness of fit of counts to probabilities, pooling cells with expected count below 8."""
    obs, prob = np.asarray(obs, float), np.asarray(prob, float)
    n = obs.sum()
    if np.any(obs[prob <= 0] > 0):
        return 0.
    exp = n * prob / prob.sum()
    o = np.argsort(-exp)
    po, pe, co, ce = [], [], 0., 0.
    for i in o:
        co += obs[i]
        ce += exp[i]
        if ce >= 8:
            po.append(co)
            pe.append(ce)
            co = ce = 0.
    if ce > 0 or co > 0:
        if pe:
            po[-1] += co
            pe[-1] += ce
        else:
            return 1.
    if len(po) < 2:
        return 1.
    x = np.sum((np.array(po) - pe) ** 2 / np.array(pe))
    return ss.chi2.sf(x, len(po) - 1)


def two_sample(a, b):
    return ss.ks_2samp(a, b).pvalue


def indep(u, v):
    """Independence of two samples that are uniform under the null: rank correlation and folded correlation."""
    n = len(u)
    r1 = np.corrcoef(ss.rankdata(u), ss.rankdata(v))[0, 1]
    r2 = np.corrcoef(np.abs(ss.rankdata(u) / n - .5), np.abs(ss.rankdata(v) / n - .5))[0, 1]
    return min(1., 2 * min(2 * ss.norm.sf(abs(r) * np.sqrt(n)) for r in (r1, r2)))
