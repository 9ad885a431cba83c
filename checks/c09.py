import numpy as np

import gen
import mon
import oracle as O
from ctbayes.misc import bfactories as B

RULE = ('Configurations draw log weights (equal, moderate, extreme, shifted by up to 1e6, minus infinity), success probabilities and '
        'portkey probability; coins log every flip. Every answer is replayed against an automaton; answers of each configuration '
        'are counted. Non-trivial: every answer.')


class Log:
    def __init__(self):
        self.flips = []

    def take(self):
        f, self.flips = self.flips, []
        return f


def coin(log, side, p, rng):
    i = 0
    while True:
        i += 1
        heads = bool(rng.uniform() < p)
        log.flips.append((side, heads, (side, i)))
        yield heads, (side, i)


def joint_coin(log, ps, rng):
    i = 0
    side = yield None, 'start'
    while True:
        i += 1
        heads = bool(rng.uniform() < ps[0 if side else 1])
        log.flips.append((1 if side else 2, heads, (side, i)))
        side = yield heads, (side, i)


def config(rng):
    k = rng.integers(0, 6)
    w = rng.normal(size=2) * [0, 1, 3, 1, 1, 1][k]
    if k == 3:
        w = w + float(rng.choice([-1e6, 1e6, -700, 700, 1e3]))
    if k == 4:
        w[rng.integers(0, 2)] -= 500
    if k == 5 and rng.uniform() < .3:
        w[rng.integers(0, 2)] = -np.inf
    p = rng.uniform(.05, 1, 2)
    r = rng.integers(0, 5)
    if r == 0:
        p[:] = rng.uniform(.02, .15, 2)
    if r == 1:
        p[rng.integers(0, 2)] = 1.
    if r == 2:
        p[rng.integers(0, 2)] = 0.
    q = float(rng.choice([0., 0., .01, .3, .9, 1.]))
    return w, p, q


def law(w, p, q):
    with np.errstate(all='ignore'):
        v = np.exp(w - np.logaddexp(*w))
    s = v @ p
    e = s + (1 - s) * q
    return v, s, e


def automaton(ctx, out, flips, w, p, q, joint, **kw):
    """An answer and the flips it consumed."""
    heads, esc, val = out
    wit = dict(w=w, p=p, portkey=q, out=out, flips=flips[-6:], **kw)
    if not ctx.check(len(flips) > 0, 'an answer without flipping a coin', **wit):
        return
    ctx.check(not any(f[1] for f in flips[:-1]), 'the procedure went on after a coin had decided', **wit)
    side, success, v = flips[-1]
    if esc:
        ctx.check(not success, 'escaped although a coin had decided', **wit)
        ctx.check(not heads, 'an escape answers heads', **wit)
        ctx.check(q > 0, 'an escape without a portkey', **wit)
        two = [f[2] for f in flips if f[0] == 2]
        ctx.check(val == (v if joint else two[-1] if two else 'prior'), 'an escape handed back the wrong value', **wit)
        ctx.event('escapes')
    else:
        ctx.check(success, 'an answer no coin gave', **wit)
        ctx.check(bool(heads) == (side == 1), 'the answer is not that of the coin that decided', **wit)
        ctx.check(val == v, 'the value handed back is not that of the deciding flip', **wit)
        ctx.event('heads' if heads else 'tails')
    if q == 1:
        ctx.check(len(flips) == 1, 'a certain portkey was not used', **wit)
    for i, s in ((0, 1), (1, 2)):
        if np.isinf(w[i]):
            ctx.check(not any(f[0] == s for f in flips), 'a coin of weight zero was flipped', **wit)


def answers(ctx, joint):
    rng0 = ctx.rng
    cfg = []
    while len(cfg) < 8:
        w, p, q = config(rng0)
        v, s, e = law(w, p, q)
        if e > .02:
            cfg.append((w, p, q))

    def run(n, rng):
        res = {}
        for i, (w, p, q) in enumerate(cfg):
            v, s, e = law(w, p, q)
            log = Log()
            c1, c2 = coin(log, 1, p[0], rng), coin(log, 2, p[1], rng)
            m = n // len(cfg)
            cnt = np.zeros(3)
            rounds, sides, first, prev, ser = [], 0, 0, None, []
            for k in range(m):
                with mon.step_guard(2_000_000, 3.):
                    if joint:
                        out = B.sample_twocoin_joint(w[0], w[1], joint_coin(log, p, rng), q, rng)
                    else:
                        out = B.sample_twocoin(w[0], w[1], c1, c2, q, 'prior', rng)
                fl = log.take()
                automaton(ctx, out, fl, w, p, q, joint)
                a = 2 if out[1] else 0 if out[0] else 1
                cnt[a] += 1
                rounds.append(len(fl))
                sides += sum(f[0] == 1 for f in fl)
                first += fl[0][0] == 1 if fl else 0
                if prev is not None:
                    ser.append((a == 0, prev == 0))
                prev = a
            prob = np.array([v[0] * p[0], v[1] * p[1], (1 - s) * q]) / e
            res[f'answers {i}'] = O.chi2_counts(cnt, prob)
            if 1e-9 < prob[0] < 1 - 1e-9:
                res[f'heads {i}'] = O.binom(cnt[0], m, prob[0])
            r = np.minimum(rounds, 400)
            g = e * (1 - e) ** np.arange(400)
            g[-1] = max(1 - g[:-1].sum(), 0)
            res[f'rounds {i}'] = O.chi2_counts(np.bincount(r, minlength=401)[1:], np.maximum(g, 0))
            if 1e-9 < v[0] < 1 - 1e-9:
                res[f'first coin {i}'] = O.binom(first, m, v[0])
                res[f'coins {i}'] = O.binom(sides, sum(rounds), v[0])
            if .02 < prob[0] < .98:
                x, y = np.array(ser, float).T
                res[f'successive answers {i}'] = O.z_mean((x - prob[0]) * (y - prob[0]))
            ctx.case(joint, w, p, q, n=m)
        ctx.event('answers', n)
        return res
    ctx.stat('answers', run, ctx.n(24000, 200000))
    ctx.expect('answers', 100)


def defaults(ctx):
    """Without portkey arguments, with seeded default generators replaced by keyword."""
    rng = ctx.rng

    def run(n, rng):
        w, p = np.log([.3, 1.2]), np.array([.4, .25])
        log = Log()
        c1, c2 = coin(log, 1, p[0], rng), coin(log, 2, p[1], rng)
        k, kj = 0, 0
        for _ in range(n):
            out = B.sample_twocoin(w[0], w[1], c1, c2, ome=rng)
            automaton(ctx, out, log.take(), w, p, 0., False)
            k += bool(out[0])
            out = B.sample_twocoin_joint(w[0], w[1], joint_coin(log, p, rng), ome=rng)
            automaton(ctx, out, log.take(), w, p, 0., True)
            kj += bool(out[0])
            ctx.event('answers', 2)
        q = .3 * .4 / (.3 * .4 + 1.2 * .25)
        ctx.case('defaults', n=2 * n)
        return {'two coins': O.binom(k, n, q), 'joint': O.binom(kj, n, q)}
    ctx.stat('default arguments', run, ctx.n(8000, 60000))


def tasks(tier):
    reps = 4 if tier == 'quick' else 12
    return [(f'answers-{j}-{r}', answers, dict(joint=j)) for r in range(reps) for j in (False, True)] + [('defaults', defaults, {})]
