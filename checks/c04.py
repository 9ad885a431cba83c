import copy

import numpy as np

import gen
import mon
import oracle as O
from ctbayes.ea3lib import seed as SD, skeleton as SK
from ctbayes.ito.models import cir, ou
from c03 import bounds

RULE = ('A representation is drawn for random bridges and bounds and queried with a history of 1 to 7 batches (fresh, partly '
        'known, fully known, single, empty, many, boundary and nearly coincident times). Every step is checked. Non-trivial: '
        'a history with at least one fresh batch after the first.')
ASSUMPTIONS = ['Query times are increasing within a batch, as documented by every caller.']


def batch(rng, known, T):
    kind, q = propose_batch(rng, known, T)
    # times are either known or distinguishable from known ones after scaling and time reversal
    i = np.searchsorted(known, q)
    gap = np.minimum(np.abs(known[np.clip(i, 0, len(known) - 1)] - q), np.abs(known[np.clip(i - 1, 0, len(known) - 1)] - q))
    return kind, q[(gap == 0) | (gap > 1e-9 * T)]


def propose_batch(rng, known, T):
    k = int(rng.integers(0, 9))
    if k == 0:
        return 'empty', np.array([])
    if k == 1:
        return 'single', gen.times(rng, T, 1)
    if k == 2 and len(known) > 2:
        return 'known', np.sort(rng.choice(known, rng.integers(1, len(known)), replace=False))
    if k == 3 and len(known) > 2:
        return 'mixed', np.unique(np.concatenate([rng.choice(known, 2, replace=False), gen.times(rng, T, 3)]))
    if k == 4:
        return 'many', gen.times(rng, T, int(rng.integers(15, 40)))
    if k == 5:
        return 'boundary', np.unique(np.concatenate([[0.] if rng.uniform() < .6 else [], gen.times(rng, T, 2), [T] if rng.uniform() < .6 else []]))
    if k == 6 and len(known) > 2:  # close to what is known
        c = rng.choice(known[1:-1])
        t = np.unique([c + d * T for d in (-1e-7, 1e-7, 3e-7)])
        t = t[(t > 0) & (t < T)]
        if len(t):
            return 'close', t
    return 'fresh', gen.times(rng, T, int(rng.integers(2, 9)))


def invariants(ctx, sk, x0, x1, lb, ub, T, what, **w):
    t, x = np.asarray(sk[0], float), np.asarray(sk[1], float)
    tight, loose, hit_x, hit = sk[2], sk[3], sk[4], sk[5]
    sc = np.ptp(x) + abs(loose - tight) + 1e-3 * abs(x0)
    eps = 1e-9 * sc
    ok = ctx.check(t.ndim == 1 and t.shape == x.shape and np.all(np.diff(t) > 0), f'{what}: times do not strictly increase', t=t, **w)
    ctx.check(t[0] == 0 and abs(t[-1] - T) <= 1e-12 * T, f'{what}: horizon changed', t=t, **w)
    ctx.check(abs(x[0] - x0) <= eps and abs(x[-1] - x1) <= eps, f'{what}: endpoints changed', x=[x[0], x[-1]], x0=x0, x1=x1, **w)
    lo, hi = min(tight, loose), max(tight, loose)
    ctx.check(np.all(x >= lo - eps) and np.all(x <= hi + eps), f'{what}: a point is outside its recorded edges', x=[x.min(), x.max()], edges=(lo, hi), **w)
    ctx.check(np.any(np.abs(x - tight) <= eps), f'{what}: the attained extreme is not one of the points', tight=tight, **w)
    ctx.check(lo >= lb - eps and hi <= ub + eps, f'{what}: the edges are outside the bounds', edges=(lo, hi), bounds=(lb, ub), **w)
    ctx.check(min(lo, hi) <= min(x0, x1) + eps and max(lo, hi) >= max(x0, x1) - eps, f'{what}: the edges do not contain the endpoints', edges=(lo, hi), **w)
    if hit is not None and ok:
        up = tight < loose
        ctx.check(len(hit) == len(t) - 1, f'{what}: not one record per sector', n=len(hit), n_t=len(t), **w)
        beyond = x > hit_x + eps if up else x < hit_x - eps
        for i in np.where(beyond)[0]:
            adj = [hit[j] for j in (i - 1, i) if 0 <= j < len(hit)]
            ctx.check(all(adj), f'{what}: a point beyond the inner edge in a sector recorded as not reaching it', i=i, x=x[i], hit_x=hit_x, hit=hit, **w)
    ctx.event('states_checked')
    return ok


def step(ctx, old, new, q, got, T, what, **w):
    """Relation between a representation and the refined one."""
    t0, x0, t1, x1 = (np.asarray(v, float) for v in (old[0], old[1], new[0], new[1]))
    sc = np.ptp(x0) + abs(old[2] - old[3]) + 1e-3 * np.max(np.abs(x0))
    eps_t, eps_x = 4e-15 * T, 1e-12 * (sc + np.max(np.abs(x0)))
    pos = np.clip(np.searchsorted(t1, t0 - eps_t), 0, len(t1) - 1)
    ctx.check(np.all(np.abs(t1[pos] - t0) <= eps_t) and np.all(np.abs(x1[pos] - x0) <= eps_x), f'{what}: a revealed point changed or got lost', t0=t0, x0=x0, t1=t1, x1=x1, q=q, **w)
    ctx.check(len(got) == len(q), f'{what}: not one value per query time', q=q, got=got, **w)
    n_new = sum(np.min(np.abs(t0 - v)) > eps_t for v in q)
    ctx.check(len(t1) == len(t0) + n_new, f'{what}: wrong number of points', n0=len(t0), n1=len(t1), n_new=n_new, **w)
    if len(q):
        pq = np.clip(np.searchsorted(t1, np.asarray(q) - eps_t), 0, len(t1) - 1)
        ctx.check(np.all(np.abs(t1[pq] - q) <= eps_t) and np.all(np.abs(x1[pq] - got) <= eps_x), f'{what}: the values returned are not those of the query times', q=q, got=got, t1=t1, x1=x1, **w)
    for i, name in ((2, 'attained extreme'), (3, 'outer edge'), (4, 'inner edge')):
        ctx.check(abs(new[i] - old[i]) <= eps_x, f'{what}: recorded {name} changed', old=old[i], new=new[i], **w)
    ctx.check((old[5] is None) == (new[5] is None), f'{what}: sector record appeared or vanished', old=old[5], new=new[5], **w)
    if old[5] is not None and len(new[5]) == len(t1) - 1 and np.all(np.diff(pos) > 0):
        for i in range(len(t0) - 1):
            kids = [bool(h) for h in new[5][pos[i]:pos[i + 1]]]
            ctx.check(any(kids) == bool(old[5][i]), f'{what}: sector record contradicts the coarser one', coarse=old[5], fine=new[5], **w)


def skeletons(ctx):
    for _ in range(ctx.n(900, 9000)):
        try:
            skeleton_history(ctx, ctx.rng)
        except mon.TooExpensive:
            pass
    ctx.expect('upward', 10)
    ctx.expect('downward', 10)
    ctx.expect('with_sector_record', 10)
    ctx.expect('batch_close', 10)


def skeleton_history(ctx, rng):
    T, x0, x1 = gen.bridge(rng)
    if rng.uniform() < .2:
        x1 = x0
    lb, ub = bounds(rng, T, x0, x1)
    while O.stay(x0, x1, T, lb, ub) < .05:  # rejection cost is inverse to this
        lb, ub = bounds(rng, T, x0, x1)
    with ctx.affordable():
        sk = SK.sample_raw_skeleton(T, x0, x1, (lb, ub), rng)
    w = dict(horizon=T, b=(x0, x1), bnd=(lb, ub))
    if not invariants(ctx, sk, x0, x1, lb, ub, T, 'fresh path', **w):
        return
    seen, known = {}, {0., float(T)}
    hist = []
    for _ in range(rng.integers(2, 8)):
        kind, q = batch(rng, np.array(sorted(known)), T)
        hist.append(kind)
        before = copy.deepcopy(tuple(sk))
        q0 = q.copy()
        with ctx.affordable():
            new, got = SK.interpolate_skeleton(sk, q, rng)
        ctx.event('queries')
        ctx.event(f'batch_{kind}')
        same = all(np.array_equal(a, b) for a, b in zip(before, tuple(sk))) and np.array_equal(q, q0)
        ctx.check(same, 'the queried path was modified', hist=hist, **w)
        invariants(ctx, new, x0, x1, lb, ub, T, 'refined path', hist=hist, **w)
        step(ctx, sk, new, q, got, T, 'refined path', hist=hist, **w)
        for a, b in zip(q, got):
            if a in seen:
                ctx.check(abs(seen[a] - b) <= 1e-9 * (abs(b) + np.sqrt(T)), 'another value for a known time', t=a, was=seen[a], now=b, hist=hist, **w)
            seen[a] = b
        known |= set(q.tolist())
        sk = new
    if len(seen):
        q = np.array(sorted(seen))
        got = sk(q, rng)
        ctx.check(np.allclose(got, [seen[v] for v in q], rtol=1e-9, atol=1e-9 * np.sqrt(T)), 'evaluating known times gave other values', hist=hist, **w)
        ctx.event('requeries', len(q))
    ctx.event('upward' if sk.tight_x < sk.loose_x else 'downward')
    ctx.event('with_sector_record' if sk.hit_i is not None else 'without_sector_record')
    ctx.case(T, x0, x1, lb, ub, hist)


def seeds(ctx):
    for _ in range(ctx.n(900, 9000)):
        try:
            seed_history(ctx, ctx.rng)
        except mon.TooExpensive:
            pass


def seed_history(ctx, rng):
    mod = ou if rng.uniform() < .7 else cir
    T = float(np.exp(rng.uniform(-2, 1)))
    if mod is ou:
        thi = np.exp(rng.normal(size=2) * .7)
        v = rng.normal(size=2)
        thi2 = np.exp(rng.normal(size=2) * .7)
    else:
        thi = np.array([1., 1.5, .7]) * np.exp(rng.normal(size=3) * .1)
        v = np.exp(rng.normal(size=2) * .2)
        thi2 = thi * np.array([1.2, .9, 1.])
    norm, denorm = mod.gen_normops(thi, np.array([0., T]), v)[0]
    with ctx.affordable():
        sd = SD.sample_raw_seed(mod.bounds_x, norm, denorm, rng)
    w = dict(model=mod.__name__, thi=thi, horizon=T, v=v)
    if not invariants(ctx, sd, 0, 0, -np.inf, np.inf, 1., 'fresh standardised path', **w):
        return
    hist, known = [], {0., T}
    cur, ops = thi, (norm, denorm)
    for _ in range(rng.integers(2, 7)):
        if rng.uniform() < .4:  # the same latent path seen through another parameter
            cur = thi2 if cur is thi else thi
            ops = mod.gen_normops(cur, np.array([0., T]), v)[0]
        kind, q = batch(rng, np.array(sorted(known)), T)
        hist.append(kind)
        before = copy.deepcopy(tuple(sd))
        with ctx.affordable():
            new, got = SD.interpolate_seed(sd, q, *ops, rng)
        ctx.event('queries')
        ctx.event(f'batch_{kind}')
        ctx.check(all(np.array_equal(a, b) for a, b in zip(before, tuple(sd))), 'the queried standardised path was modified', hist=hist, **w)
        ctx.check(len(got) == len(q), 'not one value per query time', q=q, got=got, **w)
        invariants(ctx, new, 0, 0, -np.inf, np.inf, 1., 'refined standardised path', hist=hist, **w)
        x = v / cur[1] if mod is ou else 2 * np.sqrt(v) / cur[2]
        z = (np.asarray(got) - x[0] - np.asarray(q) / T * (x[1] - x[0])) / np.sqrt(T)
        step(ctx, sd, new, np.asarray(q) / T, z, 1., 'refined standardised path', hist=hist, **w)
        sd = new
        known |= set(q.tolist())
    ctx.case('seed', mod.__name__, thi, T, v, hist)
    q = np.array(sorted(known))
    a, b = sd(q, *ops, rng), SD.interpolate_seed(sd, q, *ops, rng)[1]
    ctx.check(np.allclose(a, b, rtol=1e-10, atol=1e-10), 'evaluating known times of a standardised path gave other values', **w)


def tasks(tier):
    reps = 1 if tier == 'quick' else 4
    return [(f'skeletons{i}', skeletons, {}) for i in range(4 * reps)] + [(f'seeds{i}', seeds, {}) for i in range(4 * reps)]
