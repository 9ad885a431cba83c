import itertools
import time

import numpy as np
import scipy.optimize as so
import scipy.stats as ss
from joblib import Parallel

import gen
import mon
import oracle as O
from c14 import DRIFT, SW, VOL
from c15 import ou_path
from ctbayes.ea3lib import seed as SD
from ctbayes.ito import mcem as imcem
from ctbayes.ito.models import ou
from ctbayes.mjplib import skeleton as K
from ctbayes.switching import mcem as smcem
from ctbayes.switching.static import construct_gen_hyperprior

RULE = ('Records of 3 to 7 irregular times, of single-regime and (all shipped parametrisations) switching Ornstein-Uhlenbeck processes; starts over a '
        'decade, in and on the border of the parameter space; parameter bounds half open, missing, narrow and wide; learning rates, tolerances, buffers and '
        'numbers of supports varied. Every iteration is judged on its own; whole runs are judged by their stopping and by their limit. '
        'Non-trivial: every iteration.')
ASSUMPTIONS = ['An objective is an average over random support times; it is judged against repetitions of that average on the particles handed out, at 20 of their standard deviations.',
               'Priors of jump rates have shapes of at least two, so that the mode of the posterior has positive rates.',
               'The limit of switching runs is judged for nearly fixed, symmetric jump rates, where the law of the initial regime does not depend on them.']


class Objective:
    """Repetitions of the Monte Carlo objective on given particles, from independent formulas. Per repetition, and regime, sums over segments of
    n, log dt, dv^2/dt, d(v^2), dt, and of the integrals of z^2, z v, v^2 along the revealed paths (v = sigma sqrt(dt) z + line)."""

    def __init__(self, particles, supports, reps, r, rng, key=None):
        self.st = np.zeros((reps, r, 8))
        key = int(rng.integers(2 ** 31)) if key is None else key
        for segs in particles:
            for j, (i, dt, v0, v1, z) in enumerate(segs):
                for k in range(reps):
                    s = np.sort(np.random.default_rng((key, k, j)).uniform(size=supports))  # the same for all particles, as they may be
                    _, zz = SD.interpolate_seed(z, s, *ID, rng)
                    zz = np.asarray(zz)
                    w = v0 + s * (v1 - v0)
                    self.st[k, i] += [1, np.log(dt), (v1 - v0) ** 2 / dt, v1 ** 2 - v0 ** 2, dt,
                                      dt * np.mean(dt * zz ** 2), dt * np.mean(2 * np.sqrt(dt) * zz * w), dt * np.mean(w * w)]
        self.st /= len(particles)

    def value(self, i, b, s):
        n, ldt, q, dv2, T, zz, zv, vv = self.st[:, i].T
        return -.5 * (n * np.log(2 * np.pi * s * s) + ldt + q / s ** 2) - b * dv2 / (2 * s * s) \
            - .5 * (b * b * (zz + zv / s + vv / s ** 2) - b * T)


def _same(t, x):
    return t, x


ID = (_same, _same)


def buffered(bounds, d, buf):
    lb = [-np.inf] * d if bounds[0] is None else bounds[0]
    ub = [np.inf] * d if bounds[1] is None else bounds[1]
    lo, hi = [], []
    for a, b in zip(lb, ub):
        e = min((b - a) / 2, buf)
        lo.append(a + e)
        hi.append(b - e)
    return np.array(lo), np.array(hi)


def in_bounds(ctx, th, lo, hi, **w):
    th = np.atleast_2d(th)
    e = 1e-9 * (1 + np.abs(th))
    return ctx.check(bool(np.all(np.isfinite(th)) and np.all(th >= lo - e) and np.all(th <= hi + e)), 'parameters outside of the buffered bounds', parameters=th, lower=lo, upper=hi, **w)


def cases(ctx, quick, thorough, seconds):
    """Case numbers, for as long as there is time: the cost of an iteration is heavy tailed."""
    end = time.process_time() + seconds * (1 if ctx.tier == 'quick' else 6)
    for i in range(ctx.n(quick, thorough)):
        if i and time.process_time() > end:
            return ctx.event('tasks cut short')
        yield i


def grown(n, lr):
    return int((n ** (1 / lr) + 1) ** lr)


def watch(mod, log):
    """The model, with a record of the parameters it is asked about: in the simulation of paths, and in the objective."""
    f = mod.eval_bounds_disc

    def bounds_disc(thi, *a):
        log['paths'].append(np.array(thi))
        return f(thi, *a) if a else f(thi)
    return mod._replace(eval_bounds_disc=bounds_disc)


def judge_max(ctx, f, th, lo, hi, obj, fixed, what, **w):
    """f(th) -> repetitions of the objective; obj the reported value at th (None: do not judge)."""
    y = f(th)
    m, s = np.mean(y), np.std(y, ddof=1)
    slack = 1e-4 * (1 + abs(m) + abs(fixed))
    ok = True
    if obj is not None:
        ctx.event('objective values judged')
        ok = ctx.check(abs(obj - m) <= 20 * s + slack, f'the reported objective{what} is not the objective of its particles', reported=obj, mean=m, sd=s, parameter=th, **w)
    g = lambda x: -np.mean(f(np.clip(x, lo, hi)))
    best = so.minimize(g, th, bounds=list(zip(lo, hi)), method='L-BFGS-B', options=dict(ftol=1e-13, gtol=1e-8))
    d = f(np.clip(best.x, lo, hi)) - y
    ctx.event('maxima judged')
    return ctx.check(np.mean(d) <= 20 * np.std(d, ddof=1) + slack, f'the parameter{what} does not maximise the objective of its particles', parameter=th, better=best.x,
                     gain=np.mean(d), sd=np.std(d, ddof=1), **w) and ok


def gauss_prior(c, sd):
    return lambda thi: float(-np.sum(np.square((np.asarray(thi) - c) / sd)) / 2)


def ito_bounds(rng, thi):
    kind = str(rng.choice(['own', 'own', 'none', 'upper', 'narrow', 'pinched', 'away']))
    if kind == 'own':
        return kind, ou.bounds_thi
    if kind == 'none':
        return kind, (None, None)
    if kind == 'upper':
        return kind, (np.zeros(2), thi * rng.uniform(.5, 3, 2))
    if kind == 'narrow':
        return kind, (thi * rng.uniform(.6, .9, 2), thi * rng.uniform(1.05, 1.5, 2))
    if kind == 'pinched':
        return kind, (thi * .999, np.array([thi[0] * 1.001, np.inf]))
    return kind, (thi * np.array([1.5, .2]), None)


def iterates(ctx):
    rng = ctx.rng
    for _ in cases(ctx, 6, 60, 60):
        true = np.array([float(gen.log_uniform(rng, .4, 3)), float(gen.log_uniform(rng, .3, 2))])
        n = int(rng.integers(3, 7))
        t = float(rng.choice([0., 1.3])) + np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .08, .8, n - 1))])
        v = ou_path(rng, true, t)
        kind, bounds = ito_bounds(rng, true)
        prior = gauss_prior(true * .9, .25 * true) if kind in ('none', 'away') or rng.uniform() < .3 else ou.eval_log_prior
        buf = float(rng.choice([.01, .01, .05, .2 * min(true)]))
        lo, hi = buffered(bounds, 2, buf)
        init = true * np.exp(rng.normal(size=2) * .3)
        if rng.uniform() < .3 and kind != 'own':
            init = np.clip(init, *(np.array([b if b is not None else e * np.ones(2) for b, e in zip(bounds, (1e-3, 1e3))])))  # may be on a bound
        lr = float(rng.choice([1., 1.5, 2., 2.5]))
        supp = int(rng.choice([32, 64, 128]))
        log = dict(paths=[])
        mod = watch(imcem.Model(t, v, bounds, prior, ou.sample_aug, ou.gen_normops, ou.eval_biased_log_lik, ou.eval_disc, ou.eval_bounds_disc), log)
        ctrl = imcem.Controls(n_thin_mcmc=int(rng.integers(1, 4)), n_disc_supports=supp, learning_rate=lr, ftol=1e-9, bound_buffer=buf)
        ctx.case(t, v, init, kind, lr)
        w = dict(times=t, data=v, init=init, bounds=bounds, controls=tuple(ctrl))
        last, k = init, 1
        for step, out in enumerate(itertools.islice(imcem.maximize_posterior(init, mod, ctrl, rng), 4 if lr <= 2 else 3)):
            obj, thi, zz = out
            w['step'] = step
            ctx.event('iterations')
            ctx.check(np.ndim(obj) == 0 and np.isfinite(obj) and np.shape(thi) == (2,), 'the shape of an iterate', objective=obj, parameters=thi, **w)
            ctx.check(len(zz) == k and all(len(z) == n - 1 for z in zz), 'the scheduled number of particles, one latent path per interval', scheduled=k, seen=len(zz), **w)
            ctx.check(all(np.array_equal(p, last) for p in log['paths']), 'latent paths were not simulated from the latest parameter', latest=last,
                      used=log['paths'][:3], **w)
            ctx.check(len(log['paths']) > 0, 'no latent path was simulated', **w)
            in_bounds(ctx, thi, lo, hi, **w)
            parts = [[(0, dt, v0, v1, z_) for dt, v0, v1, z_ in zip(np.diff(t), v, v[1:], z)] for z in zz]
            F = Objective(parts, supp, 12, 1, rng)
            judge_max(ctx, lambda x: F.value(0, *x) + prior(x), np.array(thi), lo, hi, obj, 0, '', **w)
            last, k = np.array(thi), grown(k, lr)
            log['paths'].clear()


def switching_iterates(ctx, name):
    rng, m = ctx.rng, SW[name]
    for _ in cases(ctx, 4, 40, 60):
        r = int(rng.integers(2, 4))
        n = int(rng.integers(3, 6))
        t = np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .15, .8, n - 1))])
        v = np.cumsum(rng.normal(size=n) * np.sqrt(np.append(1, np.diff(t)))) * float(rng.uniform(.4, 1))
        kind = str(rng.choice(['own', 'own', 'upper', 'none', 'narrow']))
        c = np.exp(rng.normal(size=2) * .3)
        init = c * np.exp(rng.normal(size=2) * .2)
        bounds = {'own': m.bounds_thi, 'upper': (np.zeros(2), c * rng.uniform(.7, 2, 2)), 'none': (None, None),
                  'narrow': (c * rng.uniform(.6, .9, 2), c * rng.uniform(1.05, 1.5, 2))}[kind]
        gp = gauss_prior(c, .3 * c)
        prior = (lambda th: gp(th)) if kind == 'none' or rng.uniform() < .3 else m.eval_log_prior
        buf = float(rng.choice([.01, .01, .05]))
        lo, hi = buffered(bounds, 2, buf)
        lr = float(rng.choice([1., 1.5, 2.]))
        supp = int(rng.choice([32, 64]))
        a0 = rng.uniform(2, 6, (r, r))
        b0 = gen.log_uniform(rng, .5, 5, (r, r))
        np.fill_diagonal(a0, np.nan), np.fill_diagonal(b0, np.nan)
        log = dict(paths=[])
        mod = watch(smcem.Model(t, v, bounds, (a0, b0), prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc), log)
        ctrl = smcem.Controls(n_thin_mcmc=int(rng.integers(1, 3)), n_disc_supports=supp, learning_rate=lr, ftol=1e-9, bound_buffer=buf)
        ctx.case(name, t, v, init, kind, lr)
        w = dict(model=name, times=t, data=v, init=init, bounds=bounds, controls=tuple(ctrl), regimes=r)
        last, k = np.repeat(init[None], r, 0), 1
        for step, out in enumerate(itertools.islice(smcem.maximize_posterior(init, mod, ctrl, rng), 4)):
            obj, thi, lam, zz, hh = out
            w['step'] = step
            ctx.event('iterations')
            ctx.check(np.ndim(obj) == 0 and np.isfinite(obj) and np.shape(thi) == (r, 2) and np.shape(lam) == (r, r), 'the shape of an iterate', objective=obj, parameters=thi, generator=lam, **w)
            ctx.check(len(zz) == k and len(hh) == k and all(len(z) == len(h.t) - 1 for z, h in zip(zz, hh)), 'the scheduled number of particles, one latent path per interval',
                      scheduled=k, seen=(len(zz), len(hh)), **w)
            ctx.check(all(np.array_equal(p, last) for p in log['paths']), 'latent paths were not simulated from the latest parameters', latest=last,
                      used=log['paths'][:3], **w)
            ctx.check(len(log['paths']) > 0, 'no latent path was simulated', **w)
            in_bounds(ctx, thi, lo, hi, **w)
            # generator
            cnt, hold = np.zeros((r, r)), np.zeros(r)
            parts = []
            for z, h in zip(zz, hh):
                th, yh, vh = np.asarray(h.t, float), np.asarray(h.yt, int), np.asarray(h.vt, float)
                for a, b in zip(yh, yh[1:]):
                    cnt[a, b] += a != b
                for d, a in zip(np.diff(th), yh):
                    hold[a] += d
                parts.append([(int(yh[i]), th[i + 1] - th[i], vh[i], vh[i + 1], z_) for i, z_ in enumerate(z)])
            cnt, hold = cnt / k, hold / k
            ref, log_post = np.zeros((r, r)), 0.
            for i in range(r):
                for j in range(r):
                    if i != j:
                        A, B = cnt[i, j] + a0[i, j] - 1, hold[i] + b0[i, j]
                        ref[i, j] = A / B
                        log_post += A * np.log(A / B) - A
                ref[i, i] = -np.sum(ref[i])
            ctx.close(np.asarray(lam), ref, 'the generator is the mode of the averaged conjugate posterior', rtol=1e-8, atol=1e-12, **w)
            F = Objective(parts, supp, 12, r, rng)
            total = np.zeros(12)
            for i in range(r):
                def f(x, i=i):
                    th = np.array(last)
                    th[i] = x
                    return F.value(i, DRIFT[name](x), VOL[name](x)) + prior(th)
                judge_max(ctx, f, np.array(thi[i]), lo, hi, None, obj, f' of regime {i}', **w)
                total = total + f(np.array(thi[i]))
            y, s = np.mean(total) + log_post, np.std(total, ddof=1)
            ctx.event('objective values judged')
            ctx.check(abs(obj - y) <= 20 * s + 1e-4 * (1 + abs(y)), 'the reported objective is not the objective of its particles', reported=obj, mean=y, sd=s, parameters=thi,
                      generator=lam, generator_part=log_post, **w)
            last, k = np.array(thi), grown(k, lr)
            log['paths'].clear()


def stopping(ctx, name):
    rng = ctx.rng
    for _ in cases(ctx, 60, 600, 40):
        n = int(rng.integers(3, 6))
        t = np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .1, 1.5 if name == 'ito' else .6, n - 1))])
        v = rng.normal(size=n)
        ftol = float(rng.choice([.003, .01, .03, .1, .3] if name == 'ito' else [.03, .1, .3, 1., 3.]))
        kw = dict(n_thin_mcmc=1, n_disc_supports=int(rng.choice([1, 2, 8])), learning_rate=1.5, ftol=ftol)
        ctx.case(name, t, v, ftol)
        it = ou.maximize_posterior(t, v, rng, **kw) if name == 'ito' else SW[name].maximize_posterior(t, v, 2, 3., 2., rng, **kw)
        objs, stopped, spend = [], True, time.process_time() + 3
        for o in it:
            objs.append(float(o[0]))
            if len(objs) >= 24 or (len(objs) > 1 and time.process_time() > spend):
                # the last iterate may also have been a stop: judge what came before it
                stopped = False
                break
        ctx.event('runs')
        d = np.abs(np.diff(objs))
        w = dict(model=name, times=t, data=v, options=kw, objectives=objs)
        ctx.check(len(objs) >= 2, 'stopped before a change of the objective could be observed', **w)
        ctx.check(bool(np.all(d[:-1] >= ftol)), 'went on although the objective had changed by less than the tolerance', **w)
        if stopped:
            ctx.event('runs that stopped')
            ctx.event(f"runs that stopped after {'more than two' if len(objs) > 2 else 'two'} iterations")
            ctx.check(bool(d[-1] < ftol), 'stopped although the objective had changed by more than the tolerance', **w)


def borders(ctx, name):
    """Priors that pull the mode far outside of the bounds: iterates are at the buffered bounds."""
    rng = ctx.rng
    for _ in cases(ctx, 20, 200, 30):
        n = int(rng.integers(2, 5))
        t = np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .1, .6, n - 1))])
        v = rng.normal(size=n)
        lb, ub = rng.uniform(.5, .9, 2), rng.uniform(1, 1.5, 2)
        side = rng.uniform(size=2) < .5
        prior = gauss_prior(np.where(side, 4., -2.), .05)
        buf = float(rng.choice([.01, .05, .1, .6]))
        lo, hi = buffered((lb, ub), 2, buf)
        half = rng.uniform() < .3
        bounds = (None if half and np.all(side) else lb, None if half and not np.any(side) else ub)
        if bounds[0] is None or bounds[1] is None:
            lo, hi = buffered(bounds, 2, buf)
        init = rng.uniform(lb, ub)
        kw = dict(n_thin_mcmc=1, n_disc_supports=8, bound_buffer=buf)
        ctx.case(name, t, v, lb, ub, side, buf)
        if name == 'ito':
            mod = imcem.Model(t, v, bounds, prior, ou.sample_aug, ou.gen_normops, ou.eval_biased_log_lik, ou.eval_disc, ou.eval_bounds_disc)
            it = imcem.maximize_posterior(init, mod, imcem.Controls(**kw), rng)
        else:
            m, h = SW[name], np.array([[np.nan, 3.], [3., np.nan]])
            mod = smcem.Model(t, v, bounds, (h, h), prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)
            it = smcem.maximize_posterior(init, mod, smcem.Controls(**kw), rng)
        for out in itertools.islice(it, 2):
            w = dict(model=name, times=t, data=v, bounds=bounds, buffer=buf, init=init)
            in_bounds(ctx, out[1], lo, hi, **w)
            ctx.close(np.atleast_2d(out[1]), np.repeat(np.where(side, hi, lo)[None], len(np.atleast_2d(out[1])), 0), 'a mode outside of the bounds is mapped to the buffered bounds', rtol=1e-3, **w)
            ctx.event('iterations')


def log_post(thi, t, v):
    if np.any(np.asarray(thi) <= 0):
        return -np.inf
    return float(sum(O.ou_logtrans(d, a, b, *thi) for d, a, b in zip(np.diff(t), v, v[1:]))) + ou.eval_log_prior(np.asarray(thi))


def hessian(f, x, h=1e-3):
    d = len(x)
    H = np.zeros((d, d))
    E = np.diag(h * np.maximum(np.abs(x), .1))
    for i in range(d):
        for j in range(d):
            H[i, j] = (f(x + E[i] + E[j]) - f(x + E[i] - E[j]) - f(x - E[i] + E[j]) + f(x - E[i] - E[j])) / (4 * E[i, i] * E[j, j])
    return H


def settle(ctx, errs, bias, spread, what, **w):
    """errs: (records, parameters) distances of late iterates from the mode, in posterior standard deviations."""
    e = np.asarray(errs)
    if len(e) < 4:
        return ctx.event('limits left out')
    ctx.event('limits judged', len(e))
    ctx.check(bool(np.all(np.abs(np.median(e, 0)) < bias)), what, median=np.median(e, 0), errors=e, **w)
    ctx.check(np.median(np.abs(e)) < spread, what + ' (spread)', spread=np.median(np.abs(e)), errors=e, **w)


def limit(ctx):
    rng = ctx.rng
    errs = []
    for _ in cases(ctx, 8, 40, 60):
        true = np.array([float(gen.log_uniform(rng, .7, 2)), float(gen.log_uniform(rng, .5, 1.5))])
        n = int(rng.integers(4, 8))
        t = np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .2, .8, n - 1))])
        v = ou_path(rng, true, t)
        res = so.minimize(lambda x: -log_post(np.exp(x), t, v), np.log(true), method='Nelder-Mead', options=dict(xatol=1e-8, fatol=1e-10))
        mode = np.exp(res.x)
        cov = np.linalg.inv(-hessian(lambda x: log_post(x, t, v), mode))
        start = true * np.exp(rng.choice([-1, 1], 2) * rng.uniform(.3, 1, 2))
        mod = imcem.Model(t, v, ou.bounds_thi, ou.eval_log_prior, ou.sample_aug, ou.gen_normops, ou.eval_biased_log_lik, ou.eval_disc, ou.eval_bounds_disc)
        ctrl = imcem.Controls(n_thin_mcmc=1, n_disc_supports=4, learning_rate=1.5, ftol=1e-7)
        ctx.case(t, v, start)
        path = [np.array(o[1]) for o in itertools.islice(imcem.maximize_posterior(start, mod, ctrl, rng), 13)]
        ctx.event('iterations', len(path))
        errs.append((np.mean(path[-5:], 0) - mode) / np.sqrt(np.diag(cov)))
    settle(ctx, errs, .2, .15, 'iterates do not approach the posterior mode')


def switching_limit(ctx, name):
    rng, m = ctx.rng, SW[name]
    errs = []
    for _ in cases(ctx, 5, 24, 70):
        n = int(rng.integers(4, 7))
        t = np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .2, .8, n - 1))])
        rate = float(gen.log_uniform(rng, .5, 2))
        v = np.cumsum(rng.normal(size=n) * np.sqrt(np.append(1, np.diff(t)))) * .8
        a0, b0 = (np.array([[np.nan, x], [x, np.nan]]) for x in (1e5 * rate, 1e5))
        yy = [K.sample_forwards(float(t[-1]), None, np.array([[-rate, rate], [rate, -rate]]), ome=rng) for _ in range(1500)]
        steps = pieces(yy, t)

        def post(th):
            th = np.reshape(th, (2, 2))
            if np.any(th <= 0):
                return -1e10
            return mixture(steps, [DRIFT[name](x) for x in th], [VOL[name](x) for x in th], v) + m.eval_log_prior(th)
        mod = smcem.Model(t, v, m.bounds_thi, (a0, b0), m.eval_log_prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)
        ctrl = smcem.Controls(n_thin_mcmc=1, n_disc_supports=4, learning_rate=1.5, ftol=1e-7)
        start = np.exp(rng.choice([-1, 1], 2) * rng.uniform(.3, .8, 2))
        ctx.case(name, t, v, start)
        path = [np.array(o[1]) for o in itertools.islice(smcem.maximize_posterior(start, mod, ctrl, rng), 13)]
        ctx.event('iterations', len(path))
        late = np.mean(path[-5:], 0).ravel()
        # distance from the nearest local mode, along the gradient
        res = so.minimize(lambda x: -post(np.exp(x)), np.log(late), method='BFGS')
        mode = np.exp(res.x)
        H = -hessian(post, mode)
        w, u = np.linalg.eigh(H)
        d = late - mode
        errs.append([float(d[i] * np.sqrt(max(H[i, i], 0))) for i in range(4)])
    settle(ctx, errs, .6, .4, 'iterates of the switching maximiser do not approach a posterior mode', model=name)


def pieces(yy, t):
    """Regime paths cut at observation times, padded: regimes and durations per interval."""
    out = []
    for a, c in zip(t, t[1:]):
        rows = []
        for y in yy:
            jt, jx = np.asarray(y.t, float), np.asarray(y.xt)
            e = np.concatenate([[a], jt[(jt > a) & (jt < c)], [c]])
            rows.append([(int(jx[np.searchsorted(jt, p, 'right') - 1]), q - p) for p, q in zip(e, e[1:])])
        L = max(map(len, rows))
        i = np.array([[x[0] for x in r] + [0] * (L - len(r)) for r in rows])
        d = np.array([[x[1] for x in r] + [0.] * (L - len(r)) for r in rows])
        out.append((i, d))
    return out


def mixture(steps, b, s, v):
    b, s = np.array(b), np.array(s)
    lp = 0.
    for (i, d), x, y in zip(steps, v, v[1:]):
        k, var = 1., 0.
        for col in range(i.shape[1]):
            bb, sg, dd = b[i[:, col]], s[i[:, col]], d[:, col]
            e = np.exp(-bb * dd)
            k, var = k * e, var * e * e - sg * sg * np.expm1(-2 * bb * dd) / (2 * bb)
        lp = lp - .5 * np.log(2 * np.pi * var) - (y - k * x) ** 2 / (2 * var)
    return float(np.logaddexp.reduce(lp) - np.log(len(lp)))


def information(ctx):
    """The covariance reported for an estimate (Louis' identity) at the posterior mode is the inverse of the observed information."""
    rng = ctx.rng
    ratio = []
    for _ in cases(ctx, 4, 20, 60):
        true = np.array([float(gen.log_uniform(rng, .7, 2)), float(gen.log_uniform(rng, .5, 1.5))])
        n = int(rng.integers(3, 6))
        t = np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .2, .6, n - 1))])
        v = ou_path(rng, true, t)
        res = so.minimize(lambda x: -log_post(np.exp(x), t, v), np.log(true), method='Nelder-Mead', options=dict(xatol=1e-8, fatol=1e-10))
        mode = np.exp(res.x)
        cov = np.linalg.inv(-hessian(lambda x: log_post(x, t, v), mode))
        zz = [[next(SD.sample_bridge(ou.bounds_x, *no, ou.eval_disc(mode), ou.eval_bounds_disc(mode), rng)) for no in ou.gen_normops(mode, t, v)] for _ in range(150)]
        mod = imcem.Model(t, v, ou.bounds_thi, ou.eval_log_prior, ou.sample_aug, ou.gen_normops, ou.eval_biased_log_lik, ou.eval_disc, ou.eval_bounds_disc)
        ctx.case(t, v)
        se = imcem.est_se(mode, zz, mod, imcem.Controls(n_disc_supports=32), rng, Parallel(1))
        ctx.event('information matrices')
        if ctx.check(se is not None and np.shape(se) == (2, 2), 'no covariance at an interior mode', got=se, mode=mode, times=t, data=v):
            ratio.append(np.log(np.diag(se) / np.diag(cov)))
    r = np.array(ratio)
    ctx.check(bool(np.all(np.abs(np.median(r, 0)) < .3)), 'the reported covariance is not the inverse information', log_ratio=r)


def derivatives(f, x):
    """Gradient and Hessian of vector-valued f."""
    d, h = len(x), 1e-4 * x
    E = np.diag(h)
    g = np.array([(f(x + E[i]) - f(x - E[i])) / (2 * h[i]) for i in range(d)])
    H = np.array([[(f(x + E[i] + E[j]) - f(x + E[i] - E[j]) - f(x - E[i] + E[j]) + f(x - E[i] - E[j])) / (4 * h[i] * h[j]) for j in range(d)] for i in range(d)])
    return g, H


def louis(particles, supports, i, f, x, rng, reps=16):
    """Repetitions of the observed information in x = (drift, volatility parameters of regime i), from independent formulas."""
    G, HH, key = [], [], int(rng.integers(2 ** 31))
    for p in particles:
        F = Objective([p], supports, reps, 1 + max([i] + [s[0] for s in p]), rng, key)
        g, H = derivatives(lambda y: f(F, y), x)
        G.append(g), HH.append(H)
    G, HH = np.array(G), np.array(HH)
    return [-np.mean(HH[..., k], 0) - np.cov(G[..., k].T) for k in range(reps)]


def standard_errors(ctx, name):
    """Reported covariances against Louis' identity on the very particles."""
    rng = ctx.rng
    for _ in cases(ctx, 3, 30, 40):
        n = int(rng.integers(3, 5))
        t = np.concatenate([[0.], np.cumsum(gen.log_uniform(rng, .2, .6, n - 1))])
        v = np.cumsum(rng.normal(size=n) * np.sqrt(np.append(1, np.diff(t)))) * .8
        ctx.case(name, t, v)
        kw = dict(n_thin_mcmc=1, n_disc_supports=4)
        ctrl = dict(n_disc_supports=64, bound_buffer=.01)
        N = int(rng.integers(8, 16))
        if name == 'ito':
            mod = imcem.Model(t, v, ou.bounds_thi, ou.eval_log_prior, ou.sample_aug, ou.gen_normops, ou.eval_biased_log_lik, ou.eval_disc, ou.eval_bounds_disc)
            zz = []
            for _, th, z in itertools.islice(imcem.maximize_posterior(np.ones(2), mod, imcem.Controls(**kw), rng), 40):
                zz = zz + list(z)
                if len(zz) >= N:
                    break
            parts = [[(0, dt, v0, v1, z_) for dt, v0, v1, z_ in zip(np.diff(t), v, v[1:], z)] for z in zz]
            th = np.array(th)
            se = [imcem.est_se(th, zz, mod, imcem.Controls(**ctrl), rng, Parallel(1))]
            fs = [lambda F, y: F.value(0, *y) + ou.eval_log_prior(y)]
            th = th[None]
        else:
            m = SW[name]
            h = np.array([[np.nan, 3.], [3., np.nan]])
            mod = smcem.Model(t, v, m.bounds_thi, (h, h), m.eval_log_prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)
            zz, hh = [], []
            for _, th, _, z, h in itertools.islice(smcem.maximize_posterior(np.ones(2), mod, smcem.Controls(**kw), rng), 40):
                zz, hh = zz + list(z), hh + list(h)
                if len(zz) >= N:
                    break
            th = np.array(th)
            parts = [[(int(q), d, a, b, z_) for q, d, a, b, z_ in zip(h.yt, np.diff(h.t), h.vt, h.vt[1:], z)] for z, h in zip(zz, hh)]
            se = smcem.est_se(th, zz, hh, mod, smcem.Controls(**ctrl), rng, Parallel(1))

            def fs_(i):
                def f(F, y):
                    full = np.array(th)
                    full[i] = y
                    return F.value(i, DRIFT[name](y), VOL[name](y)) + m.eval_log_prior(full)
                return f
            fs = [fs_(i) for i in range(2)]
        ctx.check(len(se) == len(th), 'one covariance per regime', got=se)
        for i, (f, s) in enumerate(zip(fs, se)):
            ref = np.array(louis(parts, 64, i, f, th[i], rng))
            mean, sd = np.mean(ref, 0), np.std(ref, 0, ddof=1)
            inv = np.linalg.inv(ref)
            good = [bool(np.all(np.diag(q) > 0)) for q in inv]
            w = dict(model=name, times=t, data=v, parameter=th[i], particles=len(parts), information=mean, sd=sd)
            ctx.event('covariances judged')
            if s is None:
                ctx.check(np.min(th[i]) <= .0101 or not all(good), 'no covariance although the information is positive', **w)
                continue
            ctx.check(any(good), 'a covariance although the information is not positive', got=s, **w)
            ctx.event('covariances reported')
            got = np.linalg.inv(np.asarray(s, float))
            ctx.check(np.shape(got) == (2, 2) and bool(np.all(np.abs(got - mean) <= 12 * sd + 1e-3 * (1 + np.sqrt(np.outer(*[np.abs(np.diag(mean))] * 2))))),
                      'the reported covariance is not the inverse of the information of its particles', got=got, **w)
            ctx.close(np.asarray(s), np.asarray(s).T, 'a covariance is not symmetric', rtol=1e-3, atol=1e-9, **w)


def tasks(tier):
    k = 2 if tier == 'quick' else 4
    out = []
    for i in range(k):
        out += [(f'limit{i}', limit, {}), (f'iterates{i}', iterates, {})]
    for i in range(1 if tier == 'quick' else 3):
        for name in SW:
            out += [(f'limit-{name}{i}', switching_limit, dict(name=name)), (f'iterates-{name}{i}', switching_iterates, dict(name=name)),
                    (f'stopping-{name}{i}', stopping, dict(name=name)), (f'borders-{name}{i}', borders, dict(name=name)),
                    (f'se-{name}{i}', standard_errors, dict(name=name))]
        out += [(f'borders{i}', borders, dict(name='ito')), (f'se{i}', standard_errors, dict(name='ito'))]
        out += [(f'stopping{i}', stopping, dict(name='ito')), (f'information{i}', information, {})]
    return out
