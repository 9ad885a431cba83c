import numpy as np

import gen
import oracle as O
from ctbayes.ito.models import cir, ou
from ctbayes.ito import static as istatic
from ctbayes.switching.models import ou as sou, ou2 as sou2, ou3 as sou3

RULE = ('Parameters on log scales over two decades, one to four regimes, states of either sign and over decades, intervals on one side of, '
        'around and touching the origin or the minimum, and paths inside given bounds. Every coefficient is compared with numerical '
        'derivatives or dense scans and with the defining formulas. Non-trivial: every parameter draw.')
ASSUMPTIONS = ['CIR is checked for 4ab >= 3s^2, where its potential is bounded below.',
               'Potentials are scanned on 400 points per interval, including its ends.']
SW = {'ou': sou, 'ou2': sou2, 'ou3': sou3}
DRIFT = {'ou': lambda th: th[0], 'ou2': lambda th: th[0], 'ou3': lambda th: th[0] * th[1]}
VOL = {'ou': lambda th: 1 / th[1], 'ou2': lambda th: th[0] / th[1], 'ou3': lambda th: th[0]}


def deriv(f, x, h):
    """Five point stencil."""
    return (f(x - 2 * h) - 8 * f(x - h) + 8 * f(x + h) - f(x + 2 * h)) / (12 * h)


def ou_thi(rng):
    return gen.log_uniform(rng, .1, 10, 2)


def cir_thi(rng):
    while True:
        a, b, s = gen.log_uniform(rng, .2, 8, 3)
        if 4 * a * b >= 3.02 * s * s:
            return np.array([a, b, s])


def interval(rng, pos, centre=0.):
    sc = float(gen.log_uniform(rng, .01, 30))
    k = rng.integers(0, 5)
    if pos:
        lo, hi = np.sort(gen.log_uniform(rng, .02, 20, 2))
        if k == 0:
            lo = centre * rng.uniform(.2, 1)
            hi = centre * rng.uniform(1, 4)
        if k == 1:
            lo, hi = centre, centre * 2
        return float(lo), float(hi) + 1e-6
    if k == 0:
        return -sc, float(sc * rng.uniform(0, 2) + 1e-6)
    if k == 1:
        return 0., sc
    if k == 2:
        return -sc, 0.
    a = float(rng.normal() * sc)
    return a, a + float(gen.log_uniform(rng, 1e-3, 5)) * sc


def scan(ctx, f, g, lo, hi, **w):
    x = np.linspace(lo, hi, 400)
    v = np.array([float(f(np.array([y]))[0]) for y in (lo, hi)] + list(np.asarray(f(x), float)))
    gi, gl, gu = (float(y) for y in g(lo, hi))
    tol = 1e-9 * (1 + np.max(np.abs(v)))
    ctx.check(gl <= v.min() + tol, 'reported lower bound exceeds the potential on the interval', bound=gl, least=v.min(), lo=lo, hi=hi, **w)
    ctx.check(gu >= v.max() - tol, 'reported upper bound is below the potential on the interval', bound=gu, most=v.max(), lo=lo, hi=hi, **w)
    ctx.check(gi <= v.min() + tol and gi <= gl + tol, 'reported global minimum exceeds the potential', bound=gi, least=v.min(), lo=lo, hi=hi, **w)
    # bounds are no looser than constant factors: they are attained on a slightly larger interval for these unimodal potentials
    ctx.event('intervals')


def ops(ctx, n, d, T, x0, x1, vol, rng, **w):
    """Normalising maps: inverse to each other, affine with the right scale, ends at zero."""
    k = int(rng.choice([1, 3, 8]))
    t = np.concatenate([[0.], gen.times(rng, T, k), [T]])
    x = rng.normal(size=k + 2) * (1 + abs(x0) + abs(x1))
    x[0], x[-1] = x0, x1
    sc = 1 + abs(x0) + abs(x1)
    s, z = n(t, x)
    ctx.close(s, t / T, 'normalised times', **w)
    ctx.close(z, (x - x0 - t / T * (x1 - x0)) / (vol * np.sqrt(T)), 'normalised values', rtol=1e-7, atol=1e-9 * sc / (vol * np.sqrt(T)), **w)
    t2, x2 = d(s, z)
    ctx.close(t2, t, 'denormalised times', **w)
    ctx.close(x2, x, 'denormalised values', atol=1e-9 * sc, **w)
    s, z = n(t, None)
    ctx.check(z is None, 'missing values are not passed through', **w)
    ctx.close(s, t / T, 'normalised times', **w)
    t2, x2 = d(t / T, None)
    ctx.check(x2 is None, 'missing values are not passed through', **w)
    ctx.close(t2, t, 'denormalised times', **w)


def lognormal_prior(thi):
    b, r = np.asarray(thi, float).reshape(-1, 2).T
    return float(np.sum(-np.log(b) - np.log(b) ** 2 / 2 - np.log(r) - np.log(r ** 2) ** 2 / 2))


def prior(ctx, f, draw, ref, shape=lambda v: v, **w):
    rng = ctx.rng
    p, q = draw(rng), draw(rng)
    ctx.close(f(shape(p)) - f(shape(q)), ref(p) - ref(q), 'log prior differences', p=p, q=q, **w)
    bad = p.copy()
    bad.flat[rng.integers(0, bad.size)] *= -1
    v = f(shape(bad))
    ctx.check(np.isneginf(v), 'a parameter outside of the parameter space has positive prior density', value=v, parameter=bad, **w)


def ito(ctx, name):
    rng, mod = ctx.rng, ou if name == 'ou' else cir
    for _ in range(ctx.n(500, 4000)):
        thi = ou_thi(rng) if name == 'ou' else cir_thi(rng)
        ctx.case(name, thi)
        w = dict(model=name, thi=thi)
        pos = name == 'cir'
        x = gen.log_uniform(rng, .05, 20, 5) * (1 if pos else rng.choice([-1, 1], 5))
        h = 1e-3 * np.abs(x)
        if name == 'ou':
            b = -thi[0] * x
            v, vol = x * thi[1], lambda u: thi[1] * np.ones_like(u)
            vdrift = lambda u: -thi[0] * u
            dvol = lambda u: np.zeros_like(u)
        else:
            v, vol = (x * thi[2] / 2) ** 2, lambda u: thi[2] * np.sqrt(u)
            vdrift = lambda u: thi[0] * (thi[1] - u)
            dvol = lambda u: thi[2] / (2 * np.sqrt(u))
            b = vdrift(v) / vol(v) - dvol(v) / 2
        tol = 1e-6 * (1 + np.abs(b))
        # the unit volatility drift, by Ito's formula, of the stated equation in original coordinates
        ctx.close(mod.eval_drift(thi, x), b, 'drift of the reduced diffusion', x=x, **w)
        sx = lambda u: np.asarray(mod.sx_eval_drift(thi, u), float)
        ctx.check(np.all(np.abs(deriv(sx, x, h) - b) <= tol * 1e2), 'the drift integral does not differentiate to the drift', x=x, got=deriv(sx, x, h), want=b, **w)
        dr = lambda u: np.asarray(mod.eval_drift(thi, u), float)
        d = np.asarray(mod.dx_eval_drift(thi, x), float)
        ctx.check(np.all(np.abs(deriv(dr, x, h) - d) <= 1e-6 * (np.abs(d) + (1 + np.abs(b)) / np.abs(x))), 'the drift derivative is not the derivative of the drift', x=x, got=d, want=deriv(dr, x, h), **w)
        ctx.close(mod.reduce(thi, v), x, 'reduction', **w)
        ctx.close(mod.dereduce(thi, x), v, 'inverse reduction', **w)
        ctx.close(mod.dv_reduce(thi, v), 1 / vol(v), 'derivative of the reduction is not the reciprocal volatility', **w)
        ctx.close(mod.eval_disc(thi, x), (b ** 2 + d) / 2, 'potential', **w)
        cen = 0. if name == 'ou' else float(mod.f_argmin_disc(thi))
        lo, hi = interval(rng, pos, cen)
        scan(ctx, mod.eval_disc(thi), mod.eval_bounds_disc(thi), lo, hi, **w)
        scan(ctx, mod.eval_disc(thi), mod.eval_bounds_disc(thi), *interval(rng, pos, cen), **w)
        if pos and rng.uniform() < .2:
            gi, gl, gu = mod.eval_bounds_disc(thi, -1., hi)
            ctx.check(gl <= gi + 1e-9 and gu == np.inf, 'bounds over an interval that leaves the state space', bounds=(gi, gl, gu), **w)
        y = np.linspace(1e-3 if pos else -30, 30, 2000)
        ctx.check(float(mod.eval_inf_disc(thi)) <= np.min(mod.eval_disc(thi, y)) + 1e-8, 'reported global minimum exceeds the potential', **w)
        # maps between observations
        k = int(rng.integers(1, 4))
        t = np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .05, 3, k))])
        vt = gen.log_uniform(rng, .1, 5, k + 1) * (1 if pos else rng.choice([-1, 1], k + 1))
        pairs = mod.gen_normops(thi, t, vt)
        ctx.check(len(pairs) == k, 'one pair of maps per interval', n=len(pairs), k=k, **w)
        xt = np.asarray(mod.reduce(thi, vt), float)
        i = int(rng.integers(0, k))
        ops(ctx, *pairs[i], t[i + 1] - t[i], xt[i], xt[i + 1], 1., rng, **w)
        # approximate likelihood: Brownian density, Girsanov boundary term, Jacobian
        dt, dx = np.diff(t), np.diff(xt)
        bx = lambda u: -thi[0] * u ** 2 / 2 if name == 'ou' else (2 * thi[0] * thi[1] / thi[2] ** 2 - .5) * np.log(u) - thi[0] * u ** 2 / 4
        want = np.sum(-np.log(2 * np.pi * dt) / 2 - dx ** 2 / (2 * dt) + bx(xt[1:]) - bx(xt[:-1]) - np.log(vol(vt[1:])))
        ctx.close(mod.eval_biased_log_lik(thi, t, vt), want, 'likelihood without the path integral', rtol=1e-7, atol=1e-7, t=t, v=vt, **w)
        if name == 'ou':
            prior(ctx, mod.eval_log_prior, ou_thi, lognormal_prior, **w)
        else:
            prior(ctx, mod.eval_log_prior, cir_thi, lambda p: -(p[0] + p[1] + p[2] ** -2. + 3 * np.log(p[2])), **w)
        ctx.event('parameters')
    ctx.expect('parameters', 50)


def switching(ctx, name):
    rng, mod = ctx.rng, SW[name]
    for _ in range(ctx.n(500, 4000)):
        r = int(rng.integers(1, 5))
        thi = gen.log_uniform(rng, .1, 10, (r, 2))
        ctx.case(name, thi)
        w = dict(model=name, thi=thi)
        y = rng.integers(0, r, 5)
        b_, v_ = np.array([DRIFT[name](th) for th in thi]), np.array([VOL[name](th) for th in thi])
        x = gen.log_uniform(rng, .05, 20, 5) * rng.choice([-1, 1], 5)
        b = -b_[y] * x
        ctx.close(mod.eval_vol(thi, y), v_[y], 'volatility by regime', y=y, **w)
        ctx.close(mod.eval_drift(thi, y, x), b, 'drift by regime', y=y, x=x, **w)
        h = 1e-3 * np.abs(x)
        sx = lambda u: np.asarray(mod.sx_eval_drift(thi, y, u), float)
        ctx.close(deriv(sx, x, h), b, 'the drift integral does not differentiate to the drift', rtol=1e-6, y=y, x=x, **w)
        ctx.close(np.broadcast_to(mod.dx_eval_drift(thi, y, x), (5,)), -b_[y], 'the drift derivative is not the derivative of the drift', y=y, x=x, **w)
        ctx.close(mod.dereduce(mod.reduce(x)), x, 'reduction and its inverse', **w)
        ctx.close(mod.dv_reduce(x), np.ones(5), 'derivative of the reduction', **w)
        ctx.close(mod.eval_disc(thi, y, x), ((b / v_[y]) ** 2 - b_[y]) / 2, 'potential by regime', y=y, x=x, **w)
        # a single regime, several states
        i = int(rng.integers(0, r))
        for f, want, lab in ((mod.eval_drift(thi, i), -b_[i] * x, 'drift'), (mod.sx_eval_drift(thi, i), -b_[i] * x ** 2 / 2, 'drift integral'),
                             (mod.eval_disc(thi, i), ((b_[i] * x / v_[i]) ** 2 - b_[i]) / 2, 'potential')):
            ctx.close(np.broadcast_to(f(x), (5,)), want, f'{lab} in one regime', regime=i, x=x, **w)
        scan(ctx, mod.eval_disc(thi, i), mod.eval_bounds_disc(thi, i), *interval(rng, False), regime=i, **w)
        scan(ctx, mod.eval_disc(thi, i), mod.eval_bounds_disc(thi, i), *interval(rng, False), regime=i, **w)
        k = int(rng.integers(1, 5))
        t = np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .05, 3, k))])
        xt = rng.normal(size=k + 1) * 3
        yt = rng.integers(0, r, k + 1)
        pairs = mod.gen_normops(thi, t, yt, xt)
        ctx.check(len(pairs) == k, 'one pair of maps per interval', n=len(pairs), k=k, **w)
        j = int(rng.integers(0, k))
        ops(ctx, *pairs[j], t[j + 1] - t[j], xt[j], xt[j + 1], v_[yt[j]], rng, regime=yt[j], **w)
        prior(ctx, mod.eval_log_prior, lambda g: gen.log_uniform(g, .1, 10, (r, 2)), lognormal_prior, **w)
        # additive over regimes
        tot = mod.eval_log_prior(thi)
        ctx.close(sum(mod.eval_log_prior(thi[q:q + 1]) for q in range(r)), tot, 'log prior is not the sum over regimes', **w)
        biased(ctx, mod, thi, b_, v_, rng)
        ctx.event('parameters')
    ctx.expect('parameters', 50)


def biased(ctx, mod, thi, b_, v_, rng):
    """A record of anchors: first and last and self-transitions are observations, the others regime changes."""
    r = len(thi)
    k = int(rng.integers(1, 8))
    y = [int(rng.integers(0, r))]
    for _ in range(k):
        y.append(int(rng.integers(0, r)) if r > 1 and rng.uniform() < .6 else y[-1])
    y.append(y[-1])
    y = np.array(y)
    t = np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .05, 2, k + 1))])
    v = rng.normal(size=k + 2) * 2
    q = np.diff(t) * v_[y[:-1]] ** 2
    lb = -np.log(2 * np.pi * q) / 2 - np.diff(v) ** 2 / (2 * q)
    lg = -b_[y[:-1]] * np.diff(v ** 2) / 2 / v_[y[:-1]] ** 2
    obs = np.concatenate([[True], np.diff(y) == 0])
    qo = np.diff(np.concatenate([[0.], np.cumsum(q)])[obs])
    lo = np.sum(-np.log(2 * np.pi * qo) / 2 - np.diff(v[obs]) ** 2 / (2 * qo))
    w = dict(thi=thi, t=t, y=y, v=v)
    a, c = mod.eval_biased_log_lik(thi, t, y, v)
    tol = 1e-10 * (1 + np.sum(np.abs(lb)) + np.sum(np.abs(lg)) + np.sum(b_[y[:-1]] * (v[1:] ** 2 + v[:-1] ** 2) / v_[y[:-1]] ** 2))
    ctx.close(a, np.sum(lb + lg), 'likelihood of the record without the path integral', rtol=0, atol=tol, **w)
    ctx.close(c, lo - np.sum(lb), 'density of the anchors given the observations', rtol=0, atol=tol, **w)
    parts = []
    for i in range(r):
        s = y[:-1] == i
        p, d = mod.eval_biased_log_lik(thi, t, y, v, i)
        ctx.close(p, np.sum((lb + lg)[s]), 'likelihood restricted to a regime', rtol=0, atol=tol, regime=i, **w)
        parts.append(p)
    ctx.close(sum(parts), a, 'likelihoods restricted to the regimes do not add up', rtol=0, atol=tol, **w)


def sensitivity(ctx, name):
    """|phi'(path) - phi(path)| <= sum |d theta| bound, for all paths inside the bounds; parameters moved one or both at a time."""
    rng = ctx.rng
    for _ in range(ctx.n(1500, 10000)):
        p = gen.log_uniform(rng, .1, 8, 2)
        q = p * np.exp(rng.normal(size=2) * float(rng.choice([.01, .3, 1.])))
        k = rng.integers(0, 3)
        if k < 2:
            q[k] = p[k]
        T = float(gen.log_uniform(rng, .05, 5))
        v0, v1 = (float(u) for u in rng.normal(size=2) * gen.log_uniform(rng, .01, 10, 2))
        lz, uz = sorted(float(u) for u in rng.normal(size=2) * gen.log_uniform(rng, .01, 5, 2))
        lz, uz = min(lz, 0.), max(uz, 0.)
        ctx.case('sens', name, p, q, T, v0, v1, lz, uz)
        w = dict(model=name, thi=p, thi_prime=q, horizon=T, v=(v0, v1), z=(lz, uz))
        s = rng.uniform(size=60)
        s[:6] = [0, 1, 0, 1, .5, .5]
        z = rng.uniform(lz, uz, 60)
        z[:6] = [lz, lz, uz, uz, lz, uz]
        z = np.where(rng.uniform(size=60) < .3, np.where(rng.uniform(size=60) < .5, lz, uz), z)
        lin = v0 + s * (v1 - v0)

        def phi(th):
            if name == 'ito ou':
                b, sg = th
                return (b ** 2 * (np.sqrt(T) * z + lin / sg) ** 2 - b) / 2
            b, sg = DRIFT[name](th), VOL[name](th)
            return (b ** 2 * (np.sqrt(T) * z + lin / sg) ** 2 - b) / 2
        gap = np.abs(phi(q) - phi(p))
        mod = ou if name == 'ito ou' else SW[name]
        B = np.asarray(mod.eval_bounds_grad(p, q, T, v0, v1, lz, uz), float)
        B2 = np.asarray(mod.eval_bounds_grad(p, q, T, v0, v1, uz, lz), float)
        ctx.check(B.shape == (2,) and np.all(np.isfinite(B)) and np.all(B >= 0), 'sensitivity bounds', bounds=B, **w)
        for b in (B, B2):
            top = float(np.abs(q - p) @ b)
            ctx.check(np.max(gap) <= top + 1e-9 * (1 + np.max(gap)), 'the difference of potentials exceeds the reported sensitivity bound', gap=np.max(gap), bound=top, **w)
        if name == 'ito ou':
            t = s * T
            g = np.asarray(mod.eval_grad(p, T, v0, v1, t, z), float)
            for i in range(2):
                h = 1e-4 * p[i]

                def at(d, i=i):
                    th = p.copy()
                    th[i] += d
                    return phi(th)
                want = (at(-2 * h) - 8 * at(-h) + 8 * at(h) - at(2 * h)) / (12 * h)
                ctx.check(g.shape == (2, 60) and np.all(np.abs(g[i] - want) <= 1e-6 * (1 + np.abs(want) + np.max(np.abs(phi(p))) / p[i])), 'reported sensitivity is not the derivative of the potential', index=i, **w)
        ctx.event('segments')
    ctx.expect('segments', 100)


def cir_sensitivity(ctx):
    """CIR reports no sensitivity at all (a listed finding); any other bound has to be right."""
    rng = ctx.rng
    bad = 0
    for _ in range(ctx.n(300, 2000)):
        p = cir_thi(rng)
        q = p.copy()
        i = int(rng.integers(0, 3))
        q[i] *= np.exp(rng.normal() * .1)
        T = float(rng.uniform(.1, 1))
        v = gen.log_uniform(rng, .5, 3, 2)
        ctx.case('cir sens', p, q, T, v)
        s = rng.uniform(size=40)

        def x(th, z):
            e = 2 * np.sqrt(v) / th[2]
            return np.sqrt(T) * z + e[0] + s * (e[1] - e[0])
        z = rng.uniform(-.3, .3, 40)
        if min(x(p, z).min(), x(q, z).min()) < .05:
            continue
        gap = np.abs(cir.eval_disc(q, x(q, z)) - cir.eval_disc(p, x(p, z)))
        B = np.asarray(cir.eval_bounds_grad(p, q, T, v[0], v[1], -.3, .3), float)
        top = float(np.abs(q - p) @ B)
        if np.max(gap) > top * (1 + 1e-9) + 1e-9:
            if np.all(B == 0):
                bad += 1
            else:
                ctx.violate('the difference of potentials exceeds the reported sensitivity bound', model='cir', thi=p, thi_prime=q, horizon=T, v=v, bounds=B, gap=np.max(gap))
        ctx.event('segments')
    ctx.finding('cir-zero-sensitivity', bad > 0, 'eval_grad and eval_bounds_grad of the CIR model return zeros')
    ctx.expect('segments', 50)


def user_model(ctx):
    """A model assembled by a user: assembled functions follow the user's coefficients."""
    rng = ctx.rng
    nil = lambda *a: None
    for _ in range(ctx.n(200, 1500)):
        a, c = rng.uniform(.2, 2, 2)
        thi = np.array([a, c])
        drift = lambda th, x: np.sin(th[0] * x) + th[1]
        sdrift = lambda th, x: -np.cos(th[0] * x) / th[0] + th[1] * x
        ddrift = lambda th, x: th[0] * np.cos(th[0] * x)
        red, dered, dred = (lambda th, v: np.arcsinh(v / th[1])), (lambda th, x: th[1] * np.sinh(x)), (lambda th, v: 1 / np.sqrt(v ** 2 + th[1] ** 2))
        disc, lik, aug, normops, *_ = istatic.assemble_model(thi, (-np.inf, np.inf), (None, None), red, dered, dred, drift, sdrift, ddrift, nil, nil, nil)
        ctx.case('user', thi)
        x = rng.normal(size=6) * 3
        ctx.close(disc(thi, x), (drift(thi, x) ** 2 + ddrift(thi, x)) / 2, 'potential of a user model', thi=thi, x=x)
        k = int(rng.integers(1, 5))
        t = np.cumsum(gen.log_uniform(rng, .05, 3, k + 1))
        v = rng.normal(size=k + 1) * 2
        y = red(thi, v)
        dt = np.diff(t)
        want = np.sum(-np.log(2 * np.pi * dt) / 2 - np.diff(y) ** 2 / 2 / dt + np.diff(sdrift(thi, y)) + np.log(dred(thi, v[1:])))
        ctx.close(lik(thi, t, v), want, 'likelihood of a user model without the path integral', thi=thi, t=t, v=v)
        i = int(rng.integers(0, k))
        ops(ctx, *normops(thi, t, v)[i], dt[i], y[i], y[i + 1], 1., rng, thi=thi)
        z = aug(thi, t, v, rng)
        ctx.check(len(z) == k and all(np.min(u.s) == 0 and np.max(u.s) == 1 for u in z), 'one standardised path per interval', n=len(z), k=k)
        ctx.event('parameters')
    ctx.expect('parameters', 50)


def tasks(tier):
    r = range(1 if tier == 'quick' else 3)
    out = []
    for k in r:
        out += [(f'ito-{n}{k}', ito, dict(name=n)) for n in ('ou', 'cir')] + [(f'switching-{n}{k}', switching, dict(name=n)) for n in SW]
        out += [(f'sensitivity-{n}{k}', sensitivity, dict(name=n)) for n in ['ito ou'] + list(SW)]
        out += [(f'cir{k}', cir_sensitivity, {}), (f'user{k}', user_model, {})]
    return out
