import numpy as np
from scipy.linalg import expm

import gen
import mon
import oracle as O
from c11 import Scores, config, rpit, stationary, wellformed
from ctbayes.misc import adapt
from ctbayes.mjplib import skeleton as K

RULE = ('Irreducible generators of dimension 2 to 5, stationary and arbitrary old paths, zero to twenty cut points (random, gridded, close to '
        'each other and to the ends), repeated mutation. Every new piece is scored under its exact law given the states at its cut points, the '
        'whole path under the stationary law. Non-trivial: every mutated partition.')
ASSUMPTIONS = ['Old paths connect states of transition probability at least 1e-6 between cut points (others do not occur).']


def cut_times(rng, T, most=6):
    k = int(rng.choice([0, 1, 1, 2, 3, most]))
    if k and rng.uniform() < .3:
        return np.linspace(0, T, k + 2)[1:-1]
    return gen.times(rng, T, k, edge=False)


def connect(rng, g, T, cuts):
    """An arbitrary old partition: states at the cuts are uniform, pieces are bridges or constant-state shortcuts of positive probability."""
    e = np.concatenate([[0.], cuts, [T]])
    for _ in range(200):
        x = rng.integers(0, len(g), len(e))
        P = [expm(g * d) for d in np.diff(e)]
        if all(p[a, b] > 1e-6 for p, a, b in zip(P, x, x[1:])):
            return [K.sample_bridge(float(d), int(a), int(b), g, ome=rng) for d, a, b in zip(np.diff(e), x, x[1:])]
    return None


def structure(ctx, old, new, g, **w):
    ok = ctx.check(len(new) == len(old), 'number of pieces changed', before=len(old), after=len(new), **w)
    if not ok:
        return False
    for k, (a, b) in enumerate(zip(old, new)):
        ok = ok and ctx.check(b.fin_t == a.fin_t, 'length of a piece changed', before=a, after=b, piece=k, **w)
        ok = ok and wellformed(ctx, b, a.fin_t, g, None if k == 0 else int(a.xt[0]), None if k == len(old) - 1 else int(a.xt[-1]), what='mutated piece')
    return ok


def snapshot(part):
    return [(np.array(p.t), np.array(p.xt), p.fin_t) for p in part]


def pieces(ctx):
    """Each new piece against its exact law given the cut states, from arbitrary old partitions."""
    def run(n, rng):
        acc, pair = Scores(), []
        first, last, inner, alone = Scores(), Scores(), Scores(), Scores()
        for _ in range(n):
            g, T = config(rng)
            old = connect(rng, g, T, cut_times(rng, T))
            if old is None:
                continue
            ctx.case('pieces', g, T, [len(p.t) for p in old])
            keep = snapshot(old)
            try:
                with ctx.affordable():
                    new = K.mutate_partition(old, g, ome=rng)
            except mon.TooExpensive:
                continue
            ctx.event('mutations')
            ctx.check(all(np.array_equal(p.t, t) and np.array_equal(p.xt, x) and p.fin_t == f for p, (t, x, f) in zip(old, keep)), 'the old pieces were modified')
            if not structure(ctx, old, new, g, rates=g):
                continue
            if len(old) == 1:
                alone.put('initial state', rpit(rng, int(new[0].xt[0]), stationary(g)))
                alone.path(rng, new[0], T, g, most=2)
                continue
            i = int(new[0].xt[0])
            c = int(old[0].xt[-1])
            if stationary(g)[c] > 1e-4:
                pr = stationary(g) * expm(g * old[0].fin_t)[:, c]
                first.put('initial state', rpit(rng, i, pr))
                if expm(g * old[0].fin_t)[i, c] > 1e-7:
                    first.path(rng, new[0], old[0].fin_t, g, c, most=2)
            last.path(rng, new[-1], old[-1].fin_t, g, None, most=2)
            if len(old) > 2:
                k = int(rng.integers(1, len(old) - 1))
                inner.path(rng, new[k], old[k].fin_t, g, int(old[k].xt[-1]), most=2)
                a = Scores()
                a.path(rng, old[k], old[k].fin_t, g, int(old[k].xt[-1]), most=1)
                pair.append((a.s['jump 1: time'][0], inner.s['jump 1: time'][-1]))
        res = {}
        for nm, s in (('first piece', first), ('last piece', last), ('inner piece', inner), ('no cuts', alone)):
            res.update({f'{nm}, {k}': O.ks_unif(v) for k, v in s.s.items() if len(v) >= 30})
        res['new and old inner pieces are independent'] = O.indep(*np.array(pair).T)
        return res
    ctx.stat('mutated pieces', run, ctx.n(3000, 25000))
    ctx.expect('mutations', 100)


def invariance(ctx):
    """A stationary path, mutated several times at new cut points: still a stationary path."""
    def run(n, rng):
        a, chain = Scores(), []
        for _ in range(n):
            g, T = config(rng)
            y = K.sample_forwards(T, None, g, ome=rng)
            h0 = float(rng.uniform(0, T))
            steps = int(rng.integers(1, 4))
            ctx.case('invariance', g, T, len(y.t), steps)
            try:
                with ctx.affordable():
                    for _ in range(steps):
                        old = K.partition_skeleton(y, cut_times(rng, T))
                        new = K.mutate_partition(old, g, ome=rng)
                        structure(ctx, old, new, g, rates=g)
                        y = K.paste_partition(new)
            except mon.TooExpensive:
                continue
            ctx.event('mutations', steps)
            y = K.Skeleton(y.t, y.xt, T) if abs(y.fin_t - T) < 1e-9 * T else y
            if not wellformed(ctx, y, T, g, what='pasted path'):
                continue
            a.put('initial state', rpit(rng, int(y.xt[0]), stationary(g)))
            a.put('final state', rpit(rng, int(y.xt[-1]), stationary(g)))
            at = int(np.asarray(y.xt)[np.searchsorted(np.asarray(y.t, float), h0, 'right') - 1])
            a.put('state at a random time', rpit(rng, at, stationary(g)))
            a.path(rng, y, T, g, most=4)
        return a.tests()
    ctx.stat('repeated mutation of stationary paths', run, ctx.n(3000, 25000))
    ctx.expect('mutations', 100)


def long_paths(ctx):
    """Paths of hundreds of jumps and dozens of pieces: occupancy and jump counts against exact stationary means and variances."""
    def run(n, rng):
        z = []
        for _ in range(n):
            g, _ = config(rng)
            q = -np.diag(g)
            if q.max() / q.min() > 30:
                continue
            T = float(rng.uniform(40, 150)) / float(q.max())
            y = K.sample_forwards(T, None, g, ome=rng)
            ctx.case('long', g, T)
            try:
                with ctx.affordable():
                    for _ in range(2):
                        old = K.partition_skeleton(y, np.sort(rng.uniform(0, T, int(rng.integers(1, 25)))))
                        new = K.mutate_partition(old, g, ome=rng)
                        structure(ctx, old, new, g, rates=g)
                        y = K.paste_partition(new)
            except mon.TooExpensive:
                continue
            ctx.event('mutations', 2)
            d, st = len(g), stationary(g)
            i, j = (int(v) for v in rng.integers(0, d, 2))
            B = np.zeros((d, d))
            B[i, j] = g[i, j] if i != j else 1.
            Z = np.zeros((d, d))
            E = expm(T * np.block([[g, B, Z], [Z, g, B], [Z, Z, g]]))
            one = np.ones(d)
            m1, m2 = st @ E[:d, d:2 * d] @ one, 2 * st @ E[:d, 2 * d:] @ one
            t, x = np.append(np.asarray(y.t, float), T), np.asarray(y.xt)
            c, var = (np.sum((x[:-1] == i) & (x[1:] == j)), m2 + m1 - m1 ** 2) if i != j else (np.sum(np.diff(t)[x == i]), m2 - m1 ** 2)
            if m1 > 1 and var > 1e-6 * m1 ** 2:
                z.append((c - m1) / np.sqrt(var))
        z = np.array(z)
        return {'mean': O.t_mean(z), 'variance': O.t_mean(z ** 2, 1)}
    ctx.stat('long mutated paths', run, ctx.n(500, 4000))
    ctx.expect('mutations', 50)


def proposals(ctx):
    """Proposals of the regime sampler: the states at the reported cut points are kept, the rest is redrawn, the law is kept."""
    def run(n, rng):
        a, kept, pk = Scores(), [], []
        for _ in range(n):
            g, T = config(rng)
            y = K.sample_forwards(T, None, g, ome=rng)
            t = np.concatenate([[0.], gen.times(rng, T, int(rng.integers(1, 8)), edge=False), [T]])
            s = adapt.MyopicMjpSampler(y, .2)
            sc = float(rng.choice([-1., 0., 1.]))
            s.log_prop_scale = [sc]
            try:
                with ctx.affordable():
                    prop, tc = s.propose(g, t, rng)
            except mon.TooExpensive:
                continue
            ctx.case('proposals', g, T, t, sc)
            ctx.event('mutations')
            w = dict(rates=g, times=t, cut=tc)
            prop = K.Skeleton(prop.t, prop.xt, T) if abs(prop.fin_t - T) < 1e-9 * T else prop
            if not wellformed(ctx, prop, T, g, what='proposed path'):
                continue
            if not ctx.check(np.all(np.isin(tc, t[1:-1])), 'cut points are not interior observation times', **w):
                continue
            at = lambda p: np.asarray(p.xt)[np.searchsorted(np.asarray(p.t, float), tc, 'right') - 1]
            ctx.check(np.array_equal(at(y), at(prop)), 'a state at a cut point changed', before=at(y), after=at(prop), **w)
            ctx.check(s.state is y, 'proposing changed the state of the sampler', **w)
            kept += list(np.isin(t[1:-1], tc))
            pk += [1 / (1 + np.exp(sc))] * (len(t) - 2)
            a.put('initial state', rpit(rng, int(prop.xt[0]), stationary(g)))
            a.put('final state', rpit(rng, int(prop.xt[-1]), stationary(g)))
            a.path(rng, prop, T, g, most=3)
        return dict(a.tests(), **{'probability of a cut': O.z_bernoulli(np.sum(kept), np.array(pk))})
    ctx.stat('regime path proposals', run, ctx.n(2500, 20000))
    ctx.expect('mutations', 100)


def tasks(tier):
    out = []
    for k in range(1 if tier == 'quick' else 4):
        out += [(f'pieces{k}{i}', pieces, {}) for i in range(3)] + [(f'invariance{k}{i}', invariance, {}) for i in range(2)] \
            + [(f'long{k}{i}', long_paths, {}) for i in range(2)] + [(f'proposals{k}{i}', proposals, {}) for i in range(2)]
    return out
