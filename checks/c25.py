import numpy as np

import gen
import mon
import oracle as O
from c03 import bounds
from ctbayes.sdelib import interpolators as I, layers as L, paths as P

RULE = ('Bridges over several decades of horizon with the minimum at the start, at the end or a strict barrier below both; no, near and far upper '
        'edges; no inner edge, an inner edge above both ends, between them or below; one to five times, asked at once or in two instalments. Every '
        'value and every sector record is scored under its exact conditional law given the earlier ones. Non-trivial: every draw.')
ASSUMPTIONS = ['The conditioning event (staying below the upper edge, exceeding the inner edge) has probability at least 0.03.',
               'The attained minimum is at one endpoint only (both has probability zero).']
GRID = 1001


def cfg(rng, tight=False):
    """T, x0, x1, inf, ub, lb: the bridge, its lower edge, upper edge and inner edge."""
    while True:
        T, x0, x1 = gen.bridge(rng)
        sd = np.sqrt(T)
        kind = int(rng.integers(0, 3))
        if kind < 2 and x0 == x1:
            x1 = x0 + abs(rng.normal()) * sd + 1e-3 * sd
        if (kind == 0 and x0 > x1) or (kind == 1 and x1 > x0):
            x0, x1 = x1, x0
        inf = min(x0, x1) - (0. if kind < 2 else float(gen.log_uniform(rng, .1, 2)) * sd)
        hi = max(x0, x1)
        ub = None if rng.uniform() < .2 else hi + float(gen.log_uniform(rng, .15, 2)) * sd
        lb = None
        if rng.uniform() < .65:
            top = ub if ub is not None else hi + 1.5 * sd
            lb = float(inf + (top - inf) * rng.uniform(.1, .95)) if rng.uniform() < .3 else float(hi + (top - hi) * rng.uniform(.02, .9))
        if tight and kind < 2 and ub is not None:
            lb = float(hi + (ub - hi) * rng.uniform(.4, .97))
        c = T, x0, x1, inf, ub, lb
        if inf in (x0, x1):
            free = O.strip_kernel(x0, x1, T, inf)
        else:
            free = O.strip_kernel(x0, x1, T)
        u = np.inf if ub is None else ub
        k = O.strip_kernel(x0, x1, T, inf, u)
        p1 = k / free
        p2 = 1. if lb is None else 1 - ratio(x0, x1, T, inf, u, lb)
        if p1 > .03 and p2 > (.005 if tight else .03):
            return c


def ratio(a, b, dt, inf, u, lb):
    """P(sector does not reach lb | stays in (inf, u))"""
    if max(a, b) >= lb:
        return 0.
    return float(np.clip(O.strip_kernel(a, b, dt, inf, lb) / O.strip_kernel(a, b, dt, inf, u), 0, 1))


def score(c, t, x):
    """Rosenblatt scores of the values x at times t of the conditioned bridge."""
    T, x0, x1, inf, ub, lb = c
    u = np.inf if ub is None else ub
    out, pt, px, r = [], 0., x0, (0. if lb is None else 1.)
    for ti, xi in zip(t, x):
        s, d = ti - pt, T - ti
        m, sd = px + (x1 - px) * s / (T - pt), np.sqrt(s * d / (T - pt))
        far = 10 * sd + abs(x1 - px)
        g = np.linspace(max(inf, m - far), min(u, m + far), GRID)
        g[0] += 1e-9 * sd
        g[-1] -= 1e-9 * sd
        dens = O.strip_kernel(px, g, s, inf, u) * O.strip_kernel(g, x1, d, inf, u)
        if r > 0:
            low = (g < lb) & (px < lb)
            dens = dens - r * np.where(low, O.strip_kernel(px, g, s, inf, lb) * O.strip_kernel(g, x1, d, inf, lb), 0)
        out.append(float(O.GridCdf(g, dens)(xi)))
        if r > 0:
            r *= ratio(px, xi, s, inf, u, lb)
        pt, px = ti, xi
    return out


def hit_probs(c, t, x):
    """P(sector reaches the inner edge | values)"""
    T, x0, x1, inf, ub, lb = c
    u = np.inf if ub is None else ub
    tt, xx = np.concatenate([[0.], t, [T]]), np.concatenate([[x0], x, [x1]])
    return np.array([1 - ratio(a, b, d, inf, u, lb) for a, b, d in zip(xx, xx[1:], np.diff(tt))])


def inside(ctx, c, t, x, **w):
    T, x0, x1, inf, ub, lb = c
    return ctx.check(np.shape(x) == np.shape(t) and np.all(np.isfinite(x)) and np.all(np.asarray(x) > inf) and (ub is None or np.all(np.asarray(x) < ub)),
                     'values are not strictly between the edges, one per time', cfg=c, t=t, x=x, **w)


class Hits:
    """Sector records scored sequentially under their law given the values (and at least one)."""

    def __init__(self):
        self.k, self.p = {}, {}

    def put(self, ctx, c, t, x, hit, some=True, **w):
        q = hit_probs(c, t, x)
        if not ctx.check(hit is not None and len(hit) == len(q), 'the sector record does not have one entry per sector', cfg=c, t=t, hit=hit, **w):
            return
        h = np.array([bool(v) for v in hit])
        ctx.check(np.all(h[q > 1 - 1e-12]), 'a sector with a value beyond the inner edge is recorded as not reaching it', cfg=c, t=t, x=x, hit=h, **w)
        ctx.check(h.any() or not some, 'no sector reaches the inner edge', cfg=c, t=t, x=x, hit=h, **w)
        done = not some
        tight = c[4] is not None and c[4] - c[5] < .3 * np.sqrt(c[0])
        for i in range(len(q)):
            p = q[i] if done else q[i] / max(1 - np.prod(1 - q[i:]), 1e-300)
            p = min(p, 1.)
            if p < 1 - 1e-12:
                for key in ('all sectors', ('first sector' if i == 0 else 'last sector' if i == len(q) - 1 else 'inner sector'),
                            'after a hit' if h[:i].any() else 'before any hit', keyof(c), 'tight' if tight else 'loose'):
                    self.k[key] = self.k.get(key, 0) + int(h[i])
                    self.p.setdefault(key, []).append(p)
            done = done or h[i]
            ctx.event('sector_records')

    def tests(self, name):
        return {f'{name} {k}': O.z_bernoulli(self.k[k], np.array(p + [.5 + 1e-9 * len(p)])[:-1]) for k, p in self.p.items() if len(p) >= 30 and len(set(p)) > 1}


def keyof(c):
    T, x0, x1, inf, ub, lb = c
    at = 'start' if inf == x0 else 'end' if inf == x1 else 'barrier'
    return f"minimum at {at}, {'no upper edge' if ub is None else 'upper edge'}, {'inner edge' if lb is not None else 'no inner edge'}"


def put(s, key, u):
    for i, v in enumerate(u):
        s.setdefault(f'{key}: value {min(i, 2) + 1}', []).append(v)


def direct(ctx):
    def run(n, rng):
        s, hits = {}, Hits()
        for _ in range(n):
            c = cfg(rng)
            T, x0, x1, inf, ub, lb = c
            t = gen.times(rng, T, int(rng.choice([1, 1, 2, 3, 5])), edge=rng.uniform() < .5)
            keep = t.copy()
            ctx.case('direct', c, t)
            try:
                with ctx.affordable():
                    x, hit = P.sample_layerbr(t, T, x0, x1, inf, ub, lb, ome=rng)
            except mon.TooExpensive:
                continue
            ctx.event('draws')
            ctx.check(np.array_equal(keep, t), 'the times were modified', cfg=c, t=keep)
            if not inside(ctx, c, t, x):
                continue
            if lb is None:
                ctx.check(hit is None, 'a sector record without an inner edge', cfg=c, hit=hit)
            else:
                hits.put(ctx, c, t, x, hit)
            ok = np.diff(np.concatenate([[0.], t, [T]])).min() > 1e-4 * T
            put(s, keyof(c), score(c, t, x) if ok else [])
        return {**{k: O.ks_unif(v) for k, v in s.items() if len(v) >= 30}, **hits.tests('sector record,')}
    ctx.stat('conditioned bridge', run, ctx.n(1800, 9000))
    ctx.expect('draws', 100)
    ctx.expect('sector_records', 100)


def proposals(ctx, tight):
    f = getattr(P, 'propose_layerbr', None)
    if f is None:
        return

    def run(n, rng):
        s, hits = {}, Hits()
        for _ in range(n):
            T, x0, x1, inf, ub, lb = cfg(rng, tight)
            t = gen.times(rng, T, int(rng.choice([0, 1, 2, 3])), edge=False)
            ctx.case('proposal', (T, x0, x1, inf, ub, lb), t)
            try:
                with ctx.affordable():
                    x, hit = f(t, T, x0, x1, inf, ub, lb, rng)
            except mon.TooExpensive:
                continue
            ctx.event('draws')
            c = T, x0, x1, inf, ub, None
            if inside(ctx, c, t, x):
                put(s, keyof(c), score(c, t, x))
                if lb is not None:
                    hits.put(ctx, (T, x0, x1, inf, ub, lb), t, x, hit, some=False)
        return {**{k: O.ks_unif(v) for k, v in s.items() if len(v) >= 30}, **hits.tests('sector record,')}
    ctx.stat('bridge between edges, sectors not conditioned', run, ctx.n(2500, 8000))
    ctx.expect('draws', 100)


def instalments(ctx):
    """Values asked in two or three instalments: jointly the same law, and a record that refines the earlier one."""
    f = I.fill_wiener_outer

    def run(n, rng):
        s, hits = {}, Hits()
        for _ in range(n):
            c = cfg(rng)
            T, x0, x1, inf, ub, lb = c
            if lb is not None and (ub is None or lb <= max(x0, x1)):
                continue
            t = gen.times(rng, T, int(rng.choice([1, 2, 3])), edge=False)
            try:
                with ctx.affordable():
                    x, hit = P.sample_layerbr(t, T, x0, x1, inf, ub, lb, ome=rng)
                    rt, rx, rh = np.concatenate([[0.], t, [T]]), np.concatenate([[x0], x, [x1]]), hit
                    order = [float(v) for v in t]
                    for _ in range(int(rng.integers(1, 3))):
                        new = gen.times(rng, T, int(rng.choice([1, 2, 3])), edge=False)
                        if rng.uniform() < .4:
                            new = np.unique(np.append(new, rng.choice(rt)))
                        keep = rt.copy(), rx.copy(), None if rh is None else list(rh)
                        nt, nx, ix, nh = f(rt, rx, new, inf, ub, lb, rh, rng)
                        w = dict(cfg=c, known=rt, new=new)
                        ctx.event('instalments')
                        ctx.check(np.array_equal(keep[0], rt) and np.array_equal(keep[1], rx) and keep[2] == (None if rh is None else list(rh)), 'inputs modified', **w)
                        ok = ctx.check(np.array_equal(nt, np.union1d(rt, new)), 'times are not the union of known and new times', got=nt, **w)
                        ok = ok and ctx.check(np.array_equal(nx[np.isin(nt, rt)], rx), 'known values changed', got=nx, **w)
                        ok = ok and ctx.check(np.array_equal(np.asarray(nt)[ix], new), 'indices do not point at the new times', got=ix, **w)
                        if not ok:
                            raise mon.TooExpensive
                        order += [float(v) for v in np.setdiff1d(new, rt)]
                        if lb is not None:
                            if not ctx.check(nh is not None and len(nh) == len(nt) - 1, 'the record does not have one entry per sector', got=nh, **w):
                                raise mon.TooExpensive
                            where = np.searchsorted(nt, rt)
                            for a, b, was in zip(where, where[1:], rh):
                                ctx.check(any(nh[a:b]) == bool(was), 'the record of a sector contradicts the earlier one', was=was, now=nh[a:b], **w)
                        else:
                            ctx.check(nh is None, 'a record appeared', **w)
                        rt, rx, rh = nt, nx, nh
            except mon.TooExpensive:
                continue
            ctx.case('instalments', c, rt)
            ctx.event('draws')
            if not inside(ctx, c, rt[1:-1], rx[1:-1]):
                continue
            u = score(c, rt[1:-1], rx[1:-1])
            late = np.isin(rt[1:-1], t)
            for v, l in zip(u, late):
                s.setdefault(f"{keyof(c)}: {'first' if l else 'later'} instalment", []).append(v)
            put(s, 'in time order', u)
            if lb is not None:
                hits.put(ctx, c, rt[1:-1], rx[1:-1], rh)
        return {**{k: O.ks_unif(v) for k, v in s.items() if len(v) >= 30}, **hits.tests('sector record,')}
    ctx.stat('conditioned bridge in instalments', run, ctx.n(800, 7000))
    ctx.expect('instalments', 100)


def min_time_cdf(T, x0, x1, m, his, n=500):
    """CDF of the time of the minimum m, averaged over the upper edges given."""
    z = np.linspace(-16, 16, n)
    t = T / (1 + np.exp(-z))
    left = T / (1 + np.exp(z))
    d = sum(O.strip_kernel(x0, m, t, m, h) * O.strip_kernel(m, x1, left, m, h) for h in his)
    g = O.GridCdf(z, d * t * left / T)
    return lambda v: float(g(np.log(v / (T - v))))


def fresh(ctx):
    """Anchor side, minimum, its time and the layer record of fresh representations."""
    sa, se = getattr(L, 'sample_anchor', None), getattr(L, 'sample_edges', None)
    if sa is None or se is None:
        return

    def run(n, rng):
        side, p_side, s, cells = {}, {}, {}, {}
        for _ in range(n):
            T, x0, x1 = gen.bridge(rng)
            lb, ub = bounds(rng, T, x0, x1)
            if O.stay(x0, x1, T, lb, ub) < .03:
                continue
            try:
                with ctx.affordable():
                    down, lo, hi = sa(T, x0, x1, lb, ub, rng)
            except mon.TooExpensive:
                continue
            w = dict(T=T, x0=x0, x1=x1, lb=lb, ub=ub, lo=lo, hi=hi)
            ctx.case('fresh', w)
            ctx.event('draws')
            ctx.check(lb <= lo[0] < lo[1] <= min(x0, x1) and max(x0, x1) <= hi[0] < hi[1] <= ub, 'layer sectors are not ordered inside the bounds', **w)
            inner = lo[1] == min(x0, x1)
            S = lambda a, b: float(O.stay(x0, x1, T, a, b))
            if inner:
                ctx.check(bool(down), 'an innermost layer is not anchored at its minimum', **w)
            else:
                only_lo, only_hi = S(lo[0], hi[0]) - S(lo[1], hi[0]), S(lo[1], hi[1]) - S(lo[1], hi[0])
                both = S(lo[0], hi[1]) - S(lo[1], hi[0]) - only_lo - only_hi
                tot = only_lo + only_hi + both
                if tot < 1e-7:
                    continue
                k = 'bounded' if np.isfinite(lb) or np.isfinite(ub) else 'unbounded'
                for k in (k, 'steep' if abs(x1 - x0) > np.sqrt(T) else 'flat'):
                    side[k] = side.get(k, 0) + bool(down)
                    p_side.setdefault(k, []).append(np.clip((only_lo + both / 2) / tot, 0, 1))
            # the anchor is a minimum of the path, or of its mirror image
            if not down:
                y0, y1, lo, hi = -x0, -x1, (-hi[1], -hi[0]), (-lo[1], -lo[0])
            else:
                y0, y1 = x0, x1
            S = lambda a, b: float(O.stay(y0, y1, T, a, b))
            edges = (hi[1],) if inner else (hi[1], hi[0])
            mass = sum(S(lo[0], h) - (0. if inner else S(lo[1], h)) for h in edges)
            if mass < 1e-4:
                continue
            try:
                with ctx.affordable():
                    mt, mx, e0, e1, rec = se(T, y0, y1, lo, hi, rng)
            except mon.TooExpensive:
                continue
            ctx.event('extremes')
            w.update(min_t=mt, min_x=mx, record=rec, down=bool(down))
            ok = ctx.check(0 < mt < T and lo[0] <= mx <= lo[1], 'minimum outside its range', **w)
            ctx.check((e0, e1) == tuple(hi), 'the layer edges changed', **w)
            ok = ok and ctx.check((rec is None) == inner, 'innermost layers (and only these) have no layer record', **w)
            if not ok:
                continue
            kind = ('innermost' if inner else 'outer') + (' flipped' if not down else '')
            s.setdefault(f'{kind}: minimum', []).append(sum(S(lo[0], h) - S(mx, h) for h in edges) / mass)
            if min(y0, y1) - mx > 1e-3 * np.sqrt(T):
                s.setdefault(f'{kind}: time of the minimum', []).append(min_time_cdf(T, y0, y1, mx, edges)(mt))
            if rec is not None:
                ctx.check(len(rec) == 2, 'the layer record does not have one entry per sector', **w)
                q = [float(np.clip(1 - O.bes_stay(0., y - mx, d, hi[0] - mx) / O.bes_stay(0., y - mx, d, hi[1] - mx), 0, 1)) if y < hi[0] else 1.
                     for y, d in ((y0, mt), (y1, T - mt))]
                p = np.array([(1 - q[0]) * (1 - q[1]), .5 * q[0] * (1 - q[1]), .5 * (1 - q[0]) * q[1], .5 * q[0] * q[1]])
                p /= p.sum()
                k = bool(rec[0]) + 2 * bool(rec[1])
                for j, nm in enumerate(('neither', 'before only', 'after only', 'both')):
                    a = cells.setdefault(f'record: {nm}', [0, []])
                    a[0] += k == j
                    a[1].append(p[j])
        res = {k: O.ks_unif(v) for k, v in s.items() if len(v) >= 30}
        res.update({k: O.z_bernoulli(a, np.array(p)) for k, (a, p) in cells.items() if len(p) >= 30})
        res.update({f'anchor side, {k}': O.z_bernoulli(side[k], np.array(p)) for k, p in p_side.items() if len(p) >= 30})
        return res
    ctx.stat('fresh representation', run, ctx.n(1500, 15000))
    ctx.expect('extremes', 100)


def tasks(tier):
    out = []
    for k in range(1 if tier == 'quick' else 4):
        out += [(f'direct{k}{i}', direct, {}) for i in range(3)] + [(f'proposals{k}{i}', proposals, dict(tight=i > 0)) for i in range(3)] \
            + [(f'instalments{k}{i}', instalments, {}) for i in range(2)] + [(f'fresh{k}{i}', fresh, {}) for i in range(2)]
    return out
