import numpy as np
import scipy.stats as ss

import gen
import mon
import oracle as O
from c14 import DRIFT, SW, VOL
from c15 import LOG, regime_case
from c17 import State, controls, fresh_params, fresh_regimes, wellformed
from ctbayes.mjplib import skeleton as K
from ctbayes.switching import mcmc, types

RULE = ('Records of 2 to 6 irregular observation times, two to four regimes, regime paths with no jump to many jumps in one gap; shipped models '
        'and a user model on a transformed (logarithmic) scale. Every augmentation, every split at every kind of subset of observation times, '
        'every state of chains of updates. Non-trivial: every augmentation and every state.')
ASSUMPTIONS = ['Values of transformed models are compared to rounding, those of untransformed ones exactly.',
               'Regime jumps do not coincide with observation times (probability zero).']


def snapshot(h):
    return types.Anchorage(*(np.array(x) for x in h))


def augmented(ctx, m, h, z, y, t, v, exact, **w):
    """Structure of an augmentation."""
    tt, yt, vt = (np.asarray(x) for x in h)
    w = dict(w, anchors=h, path=y, obs_t=t, obs_v=v)
    jt = np.asarray(y.t, float)[1:]
    ok = ctx.check(len(tt) == len(yt) == len(vt) == len(z) + 1 == len(t) + len(jt), 'number of anchors or latent paths', paths=len(z), **w)
    ok = ok and ctx.close(tt, np.unique(np.concatenate([t, jt])), 'anchor times are not the observation and jump times', rtol=0, atol=1e-12 * t[-1], **w)
    ok = ok and ctx.check(np.all(np.isin(t, tt)), 'an observation time is not an anchor', **w)
    if not ok:
        return False
    p = np.searchsorted(tt, t)
    ok = ctx.check(np.array_equal(vt[p], v), 'an observation changed its value', **w) if exact else ctx.close(vt[p], v, 'an observation changed its value', rtol=1e-9, atol=1e-12, **w)
    want = np.asarray(y.xt)[np.searchsorted(np.asarray(y.t, float), tt + 1e-12 * t[-1], 'right') - 1]
    ok = ok and ctx.check(np.array_equal(yt, want), 'regimes of the anchors', wanted=want, **w)
    q = types.prune_anchorage(h)
    ok = ok and ctx.check(len(q.t) == len(y.t) and np.array_equal(q.xt, y.xt) and np.allclose(q.t, y.t, rtol=0, atol=1e-12 * t[-1]) and q.fin_t == t[-1], 'dropping the observations does not recover the regime path', pruned=q, **w)
    return ok


def case(rng, name):
    m, thi, y, t, v, ex = regime_case(rng, name)
    return m, thi, y, t, v, (np.log(v) if name == 'log' else v), ex


def anchors(ctx, name):
    """Structure and law of augmentations: Brownian bridges in the time change of the regime volatilities, independent across gaps."""
    def run(n, rng):
        s, first, pair = [], [], []
        for _ in range(n):
            m, thi, y, t, v, x, _ = case(rng, name)
            ctx.case(name, thi, y.t, y.xt, t, v)
            keep = [np.array(a) for a in (thi, y.t, y.xt, t, v)]
            z, h = m.sample_aug(thi, y, t, v, rng)
            ctx.event('augmentations')
            ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (thi, y.t, y.xt, t, v))), 'the arguments were modified', model=name)
            if not augmented(ctx, m, h, z, y, t, v, name != 'log', model=name, thi=thi):
                continue
            sp = split_check(ctx, rng, z, h, t)
            vol = np.array([VOL['ou' if name == 'log' else name](th) for th in thi])
            xt = np.log(h.vt) if name == 'log' else np.asarray(h.vt)
            for a, c, xa, xc in zip(t, t[1:], x, x[1:]):
                i = np.where((h.t >= a) & (h.t <= c))[0]
                if len(i) < 3:
                    continue
                tau = np.concatenate([[0.], np.cumsum(np.diff(h.t[i]) * vol[np.asarray(h.yt)[i[:-1]]] ** 2)])
                e = O.brownian_whiten(tau[1:-1], xt[i[1:-1]], tau[-1], xa, xc)[0]
                s += list(e)
                first.append(float(e[0]))
                if len(e) > 1:
                    pair.append(ss.norm.cdf([e[0], e[-1]]))
                ctx.event('anchors', len(e))
        return {'anchors': O.ks_norm(s), 'spread': O.z_mean(np.square(s) - 1, 0, np.sqrt(2)), 'first anchor': O.ks_norm(first), 'anchors of one gap': O.indep(*np.array(pair).T),
                'anchors of different gaps': O.indep(ss.norm.cdf(first[:-1]), ss.norm.cdf(first[1:]))}
    ctx.stat(f'augmentations, {name}', run, ctx.n(700, 6000))
    ctx.expect('anchors', 200)


def same_hidden(z, h, z2, h2):
    return len(z) == len(z2) and all(a is b or (np.array_equal(a.s, b.s) and np.array_equal(a.z, b.z)) for a, b in zip(z, z2)) and all(np.array_equal(p, q) for p, q in zip(h, h2))


def split_check(ctx, rng, z, h, t):
    for _ in range(2):
        inner = t[1:-1]
        cut = inner[rng.uniform(size=len(inner)) < float(rng.choice([0, .5, 1.]))]
        keep = snapshot(h)
        zp, hp = mcmc.split_hidden(z, h, cut)
        w = dict(anchors=h, cut=cut)
        ctx.event('splits')
        ok = ctx.check(len(zp) == len(hp) == len(cut) + 1, 'number of parts of a hidden state', parts=len(hp), **w)
        e = np.concatenate([t[:1], cut, t[-1:]])
        for a, c, z_, h_ in zip(e, e[1:], zp, hp):
            ok = ok and ctx.check(h_.t[0] == a and h_.t[-1] == c and len(z_) == len(h_.t) - 1 == len(h_.yt) - 1 == len(h_.vt) - 1, 'a part of a hidden state does not span its interval', part=h_, **w)
        if ok:
            z2, h2 = mcmc.paste_hidden(zp, hp)
            ctx.check(same_hidden(list(z), h, list(z2), h2), 'splitting and pasting does not give back the hidden state', pasted=h2, **w)
            ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, h)), 'splitting or pasting modified the hidden state', **w)
            # exchanging one part changes that part only
            if len(zp) > 1:
                k = int(rng.integers(0, len(zp)))
                alt = types.Anchorage(hp[k].t, hp[k].yt, np.concatenate([hp[k].vt[:1], hp[k].vt[1:-1] + 1., hp[k].vt[-1:]]))
                _, h3 = mcmc.paste_hidden(zp, [alt if i == k else h_ for i, h_ in enumerate(hp)])
                d = np.asarray(h3.vt) != np.asarray(h.vt)
                inside = (h.t > e[k]) & (h.t < e[k + 1])
                ctx.check(np.array_equal(d, inside) and np.array_equal(h3.t, h.t) and np.array_equal(h3.yt, h.yt), 'pasting a replaced part changes the rest', part=k, **w)


def chains(ctx, name):
    """Every state handed out by the public sampler over chains of updates."""
    rng = ctx.rng
    for _ in range(ctx.n(5, 40)):
        n = int(rng.integers(2, 7))
        t = gen.record(rng, n, .05, .6)
        x = rng.normal(size=n) * .8
        r = int(rng.integers(1, 4)) if rng.uniform() < .3 else 2
        r = max(r, 2)
        m = LOG if name == 'log' else SW[name]
        v = np.exp(x) if name == 'log' else x
        keep = (t.copy(), v.copy())
        st = type('Obs', (), {})()
        st.t, st.v, st.r = t, v, r
        a0, b0 = float(rng.uniform(1, 4)), float(rng.uniform(.5, 2))
        pc = bool(rng.uniform() < .7)
        it = m.sample_posterior(t, v, r, a0=a0, b0=b0, ome=rng, precoin=pc, pr_portkey=.05, opt_acc_prob=float(rng.choice([.1, .3])))
        ctx.case('chain', name, t, v, r, a0, b0, pc)
        n_jumps = []
        try:
            for i in range(ctx.n(12, 60)):
                with ctx.affordable():
                    thi, lam, z, h = next(it)
                ctx.event('states')
                n_jumps.append(len(types.prune_anchorage(h).t) - 1)
                w = dict(model=name, iteration=i)
                lam = np.asarray(lam, float)
                ctx.check(lam.shape == (r, r) and np.all(lam[~np.eye(r, dtype=bool)] > 0) and np.allclose(lam.sum(1), 0, atol=1e-8 * (1 + np.abs(lam).max())), 'not a generator', rates=lam, **w)
                if name == 'log':
                    p = np.searchsorted(h.t, t)
                    ctx.check(np.all(p < len(h.t)), 'an observation is missing', **w)
                    ctx.close(np.asarray(h.vt)[p], v, 'an observation changed its value', rtol=1e-9, atol=1e-12, **w)
                    st.v = np.asarray(h.vt)[p]
                if not wellformed(ctx, st, thi, z, h, **w):
                    break
                ctx.check(np.array_equal(keep[0], t) and np.array_equal(keep[1], v), 'the data were modified', **w)
        except mon.TooExpensive:
            pass
        ctx.event('regime changes seen', sum(n_jumps))
    ctx.expect('states', 20)


def updates(ctx, name):
    """Chains of single updates from exact states with bold proposals."""
    rng = ctx.rng
    from joblib import Parallel
    for _ in range(ctx.n(25, 200)):
        st = State(rng, name)
        ctrl = controls(rng, bool(rng.uniform() < .5), portkey=float(rng.choice([.05, .5])))
        mod = st.model()
        ctx.case('updates', name, st.thi, st.t, st.v)
        try:
            with ctx.affordable():
                z, h = st.augment(rng)
                thi = st.thi
                for _ in range(5):
                    with Parallel(1, 'loky') as pool:
                        z, h = mcmc.update_hidden(thi, st.lam, z, h, mod, ctrl, fresh_regimes(types.prune_anchorage(h), rng), rng, pool)
                        thi, z = mcmc.update_params(thi, z, h, mod, ctrl, fresh_params(st, thi, rng), rng, pool)
                    z = list(z)
                    ctx.event('states')
                    if not wellformed(ctx, st, thi, z, h, model=name):
                        break
                    split_check(ctx, rng, z, h, st.t)
        except mon.TooExpensive:
            continue
    ctx.expect('states', 20)


def tasks(tier):
    out = []
    for k in range(1 if tier == 'quick' else 4):
        out += [(f'anchors-{n}{k}', anchors, dict(name=n)) for n in (*SW, 'log')]
        out += [(f'chains-{n}{k}', chains, dict(name=n)) for n in (*SW, 'log')]
        out += [(f'updates-{n}{k}', updates, dict(name=n)) for n in SW]
    return out
