import numpy as np

import gen
import oracle as O
from ctbayes.mjplib import skeleton as K

from c11 import config, wellformed

RULE = ('Jump paths simulated by the library or built by hand (no jumps, many jumps, jumps close to each other and to the ends), cut at sets '
        'of times that are empty, random, on a grid, at jump times, at the ends; histories of cutting and pasting. Every piece, pasted path '
        'and evaluation is compared with a reference step function. Non-trivial: a path with a jump or a set with a cut.')
ASSUMPTIONS = ['Times are compared up to 1e-9 of the horizon; states at times closer than that to a jump are not compared after pasting.']


def path(rng):
    if rng.uniform() < .4:
        g, T = config(rng)
        if np.max(-np.diag(g)) * T > 300:
            return path(rng)
        return K.sample_forwards(T, None, g, ome=rng)
    T = float(gen.log_uniform(rng, .05, 50))
    k = int(rng.choice([0, 1, 2, 5, 20]))
    t = np.concatenate([[0.], gen.times(rng, T, k)]) if k else np.zeros(1)
    x = [int(rng.integers(0, 4))]
    while len(x) < len(t):
        j = int(rng.integers(0, 4))
        if j != x[-1]:
            x.append(j)
    return K.Skeleton(t, np.array(x), T)


def cuts(rng, sk, on_jumps=True, ends=True):
    k = rng.integers(0, 6)
    T = sk.fin_t
    n = int(rng.choice([1, 2, 3, 10, 60]))
    if k == 0:
        return np.zeros(0)
    if k == 1:
        c = np.linspace(0, T, n + 2)[1:-1]
    else:
        c = gen.times(rng, T, n, edge=rng.uniform() < .3)
    if on_jumps and k in (2, 3) and len(sk.t) > 1:
        j = np.asarray(sk.t)[1:]
        j = j[rng.uniform(size=len(j)) < .6]
        c = np.unique(np.concatenate([j, c if k == 2 else []]))
    if ends and k == 4:
        c = np.concatenate([[0.] if rng.uniform() < .5 else [], c, [T]])
    if ends and k == 5 and rng.uniform() < .3:
        c = np.sort(np.concatenate([c, c[:1]]))
    return c


def ref(sk, s):
    """Independent evaluation: linear scan."""
    s = np.atleast_1d(np.asarray(s, float))
    out = np.full(s.shape, sk.xt[0])
    for t, x in zip(sk.t, sk.xt):
        out = np.where(s >= t, x, out)
    return out


def probe(rng, sk, n=20):
    return np.concatenate([rng.uniform(0, sk.fin_t, n), np.asarray(sk.t, float), [0., sk.fin_t]])


def same(ctx, a, b, what, **w):
    T = b.fin_t
    ok = ctx.check(len(a.t) == len(b.t) and len(a.xt) == len(b.xt) and np.array_equal(a.xt, b.xt), f'{what}: other states', got=a, want=b, **w)
    return ok and ctx.check(np.all(np.abs(np.asarray(a.t, float) - np.asarray(b.t, float)) <= 1e-9 * T) and abs(a.fin_t - T) <= 1e-9 * T and a.t[0] == 0, f'{what}: other times', got=a, want=b, **w)


def pieces(ctx, rng, sk, c, parts, what):
    w = dict(path=sk, cuts=c)
    e = np.concatenate([[0.], c, [sk.fin_t]])
    ctx.event('pieces', len(parts))
    if not ctx.check(len(parts) == len(c) + 1, f'{what}: number of pieces', n=len(parts), **w):
        return False
    ok = True
    for i, p in enumerate(parts):
        t, x = np.asarray(p.t, float), np.asarray(p.xt)
        L = e[i + 1] - e[i]
        v = dict(w, piece=p, index=i)
        ok &= ctx.check(len(t) == len(x) and len(t) >= 1 and t[0] == 0, f'{what}: a piece does not start at time zero', **v)
        ok &= ctx.check(abs(p.fin_t - L) <= 1e-12 * sk.fin_t, f'{what}: length of a piece', length=L, **v)
        ok &= ctx.check(np.all(np.diff(t) > 0) and (len(t) == 1 or t[-1] < p.fin_t or np.isclose(t[-1], p.fin_t)), f'{what}: times in a piece', **v)
        if not ok:
            return False
        # states: all jumps of the original strictly inside, and the one at the left end
        j = (sk.t > e[i]) & (sk.t < e[i + 1])
        first = ref(sk, e[i])[0] if L > 0 else x[0]
        want_t, want_x = np.concatenate([[0.], sk.t[j] - e[i]]), np.concatenate([[first], sk.xt[j]])
        ok &= ctx.check(len(t) == len(want_t) and np.array_equal(x, want_x) and np.allclose(t, want_t, rtol=0, atol=1e-9 * sk.fin_t), f'{what}: a piece is not the original path between its cuts', want_t=want_t, want_x=want_x, **v)
    return ok


def partition(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2500, 15000)):
        sk = path(rng)
        c = cuts(rng, sk)
        ctx.case('cut', sk.t, sk.xt, sk.fin_t, c)
        parts = K.partition_skeleton(sk, c)
        if pieces(ctx, rng, sk, c, parts, 'cutting'):
            same(ctx, K.paste_partition(parts), sk, 'pasting the pieces', path=sk, cuts=c)
        lam = float(gen.log_uniform(rng, .1, 20)) / sk.fin_t
        parts, c2 = K.sample_partition(sk, lam, ome=rng)
        c2 = np.asarray(c2)
        if ctx.check(c2.ndim == 1 and np.all(np.diff(c2) > 0) and np.all((c2 > 0) & (c2 < sk.fin_t)), 'random cut times are not increasing inside the horizon', cuts=c2, path=sk):
            if pieces(ctx, rng, sk, c2, parts, 'random cutting'):
                same(ctx, K.paste_partition(parts), sk, 'pasting random pieces', path=sk, cuts=c2)
    ctx.expect('pieces', 200)


def histories(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(700, 4000)):
        sk = path(rng)
        parts = K.partition_skeleton(sk, cuts(rng, sk))
        h = []
        for _ in range(int(rng.integers(1, 6))):
            c = cuts(rng, sk, on_jumps=False)
            if len(c) and np.min(np.abs(c[:, None] - np.asarray(sk.t)[None, 1:]), initial=np.inf) < 1e-7 * sk.fin_t:
                continue
            h.append(c)
            parts = K.repartition_skeleton(parts, c)
            ctx.case('history', sk.t, sk.xt, sk.fin_t, h)
            if not pieces(ctx, rng, sk, c, parts, 'cutting again'):
                break
            direct = K.partition_skeleton(sk, c)
            for a, b in zip(parts, direct):
                if not (ctx.check(np.array_equal(a.xt, b.xt) and np.allclose(a.t, b.t, rtol=0, atol=1e-9 * sk.fin_t), 'cutting again differs from cutting the original', got=a, want=b, path=sk, cuts=c)):
                    break
        same(ctx, K.paste_partition(parts), sk, 'pasting after several cuts', path=sk, cuts=h)
        # pasting pieces of different paths: states agree at the joints or not
        k = int(rng.integers(1, 6))
        ps = [path(rng) for _ in range(k)]
        got = K.paste_partition(ps)
        e = np.concatenate([[0.], np.cumsum([p.fin_t for p in ps])])
        t = np.concatenate([e[i] + np.asarray(p.t, float) for i, p in enumerate(ps)])
        x = np.concatenate([p.xt for p in ps])
        keep = np.concatenate([[True], x[1:] != x[:-1]])
        same(ctx, got, K.Skeleton(t[keep], x[keep], e[-1]), 'pasting pieces of several paths', pieces=ps)
        ctx.event('histories')
    ctx.expect('histories', 50)


def evaluate(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2500, 15000)):
        sk = path(rng)
        s = probe(rng, sk)
        if rng.uniform() < .5:
            s = np.sort(s)
        ctx.case('eval', sk.t, sk.xt, sk.fin_t)
        ctx.check(np.array_equal(sk(s), ref(sk, s)), 'evaluation of a path', path=sk, times=s, got=sk(s), want=ref(sk, s))
        u = float(s[rng.integers(0, len(s))])
        ctx.check(int(np.asarray(sk(np.array([u]))).ravel()[0]) == ref(sk, u)[0], 'evaluation at one time', path=sk, time=u)
        ctx.check(len(sk(np.zeros(0))) == 0, 'evaluation at no times', path=sk)
        late = np.append(s[:int(rng.integers(0, 3))], sk.fin_t * (1 + 10 ** rng.uniform(-12, 1)))
        if rng.uniform() < .5:
            late = late[::-1]
        try:
            got = sk(late)
        except ValueError:
            ctx.event('refused')
        else:
            ctx.violate('evaluation beyond the horizon is answered', path=sk, times=late, got=got)
        ctx.event('evaluations', len(s))
        twin = K.Skeleton(sk.t.copy(), sk.xt.copy(), sk.fin_t)
        other = [K.Skeleton(sk.t, (sk.xt + 1) % 4, sk.fin_t), K.Skeleton(sk.t, sk.xt, sk.fin_t * 1.5),
                 K.Skeleton(np.append(sk.t, sk.t[-1] + (sk.fin_t - sk.t[-1]) / 2), np.append(sk.xt, (sk.xt[-1] + 1) % 4), sk.fin_t)]
        if len(sk.t) > 1:
            t2 = sk.t.copy()
            t2[-1] = (t2[-1] + sk.fin_t) / 2
            other.append(K.Skeleton(t2, sk.xt, sk.fin_t))
        ctx.check(bool(sk == twin), 'equal paths compare unequal', path=sk)
        for o in other:
            ctx.check(not bool(sk == o), 'different paths compare equal', path=sk, other=o)
    ctx.expect('evaluations', 1000)
    ctx.expect('refused', 100)


def tasks(tier):
    r = range(1 if tier == 'quick' else 4)
    out = []
    for k in r:
        out += [(f'cut{k}{i}', partition, {}) for i in range(3)] + [(f'history{k}{i}', histories, {}) for i in range(3)] + [(f'eval{k}{i}', evaluate, {}) for i in range(2)]
    return out
