import itertools as it

import numpy as np

import gen
import mon
import oracle as O
from c07 import case
from c24 import cut_times
from c11 import config
from ctbayes.ea3lib import seed as SD, skeleton as SK
from ctbayes.misc import bfactories as B
from ctbayes.misc.exceptions import BudgetConstraintError
from ctbayes.mjplib import skeleton as K
from ctbayes.sdelib import hitting as H, interpolators as I, layers as L, moments as M, paths as P, transforms as X

RULE = ('Fault injection: coins and potentials that never accept, or accept for the first time at a chosen proposal; budgets 0, 1, few; times beyond '
        'either end of a path, alone or among valid ones, on fresh and refined paths; every documented precondition contradicted, one at a time, in '
        'otherwise valid calls (which are checked to be answered). Non-trivial: every injected fault.')
ASSUMPTIONS = ['Which exception refuses an invalid input is not judged, only that the call is refused; an exhausted budget must be a BudgetConstraintError '
               '(a budget of zero may also be refused as invalid).',
               'Preconditions are those the functions state in their heads.']


def outcome(f):
    """value, or the exception that refused"""
    try:
        return f(), None
    except Exception as e:
        return None, e


class Coins:
    """Counts flips; heads for the first time at a given total flip (None: never)."""

    def __init__(self, first):
        self.n, self.first, self.by = 0, first, []

    def flip(self, which):
        self.n += 1
        self.by.append(which)
        return self.first is not None and self.n >= self.first, ('flip', self.n, which)

    def coin(self, which):
        while True:
            yield self.flip(which)

    def joint(self):
        which = yield
        while True:
            which = yield self.flip(which)


def factories(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(6000, 60000)):
        w = rng.normal(size=2) * float(rng.choice([.5, 3, 30]))
        k = int(rng.choice([0, 1, 2, 3, 5, 12, 40]))
        first = None if rng.uniform() < .4 else int(rng.integers(1, 60))
        portkey = float(rng.choice([0, 0, 0, .3, 1.]))
        joint = bool(rng.integers(0, 2))
        c = Coins(first)
        if joint:
            r, e = outcome(lambda: B.sample_twocoin_joint(*w, c.joint(), portkey, rng, k))
        else:
            r, e = outcome(lambda: B.sample_twocoin(*w, c.coin(1), c.coin(2), portkey, 'given', rng, k))
        ctx.case('coins', w, k, first, portkey, joint)
        ctx.event('factories')
        s = dict(weights=w, budget=k, first_heads=first, portkey=portkey, joint=joint, flips=c.n, got=r, error=repr(e))
        ctx.check(c.n <= k, 'more flips than the budget allows', **s)
        if e is not None:
            ctx.check(isinstance(e, BudgetConstraintError) or (k == 0 and isinstance(e, (AssertionError, ValueError))), 'an exhausted budget is not a budget error', **s)
            ctx.check(c.n == k, 'gave up before the budget was used up', **s)
            ctx.check(first is None or first > k, 'a proposal that succeeded within the budget was not returned', **s)
            ctx.check(portkey < 1 or k == 0, 'gave up instead of escaping', **s)
            ctx.event('budgets_exhausted')
        else:
            heads, escaped, prop = r
            if escaped:
                ctx.check(portkey > 0 and not heads, 'escaped without a portkey', **s)
            else:
                ctx.check(first is not None and c.n == first, 'answered without a successful flip', **s)
            ctx.event('answers')
    ctx.expect('budgets_exhausted', 100)
    ctx.expect('answers', 100)


def scripted(ctx):
    """Exact simulators whose m-th proposal is the first that can be accepted."""
    rng = ctx.rng
    for _ in range(ctx.n(300, 6000)):
        k = int(rng.choice([0, 1, 2, 3, 7]))
        m = int(rng.integers(1, 10))
        never = rng.uniform() < .3
        T, x0, x1 = gen.bridge(rng)
        n = [0]

        def ends():
            while True:
                n[0] += 1
                yield x1
        big = 60. / T
        disc = lambda x: np.full(np.shape(x), 0. if (n[0] >= m and not never) else big)
        draws = SK.sample_skeleton(T, x0, (-np.inf, np.inf), ends(), disc, lambda a, b: (0., 0., big), rng, max_props=k)
        r, e = outcome(lambda: next(draws))
        s = dict(T=T, x0=x0, x1=x1, budget=k, first=None if never else m, proposals=n[0], error=repr(e))
        ctx.case('skeleton', s)
        ctx.event('simulations')
        ctx.check(n[0] <= k, 'more proposals than the budget allows', **s)
        if e is not None:
            ctx.check(isinstance(e, BudgetConstraintError) or k == 0, 'an exhausted budget is not a budget error', **s)
            ctx.check(n[0] == k, 'gave up before the budget was used up', **s)
            ctx.check(never or m > k, 'a proposal that succeeded within the budget was not returned', **s)
            ctx.event('budgets_exhausted')
        else:
            ctx.check(not never and n[0] == m, 'returned a proposal that was rejected', **s)
            ctx.check(np.allclose([r.t[0], r.t[-1], r.x[0], r.x[-1]], [0, T, x0, x1], atol=1e-9 * (1 + abs(x0) + abs(x1))), 'returned something else than the accepted path', **s)
            # every further draw has the whole budget
            for _ in range(3):
                before = n[0]
                r, e = outcome(lambda: next(draws))
                ctx.check(e is None and n[0] == before + 1, 'a further draw did not return its first, accepted, proposal', draws=n[0], **dict(s, error=repr(e)))
            ctx.event('answers')
    ctx.expect('budgets_exhausted', 50)
    ctx.expect('answers', 50)


def ops(T, x0, x1):
    norm = lambda t, x: (np.asarray(t) / T, None if x is None else (np.asarray(x) - x0 - (x1 - x0) * np.asarray(t) / T) / np.sqrt(T))
    denorm = lambda s, z: (np.asarray(s) * T, None if z is None else np.asarray(z) * np.sqrt(T) + x0 + (x1 - x0) * np.asarray(s))
    return norm, denorm


def geometric(ctx):
    """With acceptance probability p, a budget of k proposals fails with probability (1 - p)^k."""
    def run(n, rng):
        acc = {}
        for _ in range(n):
            T, x0, x1 = gen.bridge(rng)
            sd = np.sqrt(T)
            hi, lo = max(x0, x1), min(x0, x1)
            k = int(rng.choice([1, 2, 3]))
            ub = hi + float(gen.log_uniform(rng, .2, 1.5)) * sd
            lb = lo - float(gen.log_uniform(rng, .2, 1.5)) * sd
            mid = hi + (ub - hi) * float(rng.uniform(.1, .9))
            t = gen.times(rng, T, int(rng.integers(1, 4)), edge=False)
            phi = float(gen.log_uniform(rng, .1, 3)) / T
            S = lambda a, b: float(O.stay(x0, x1, T, a, b))
            up = abs(x1 - x0) + .05 * sd
            bes = float(O.bes_stay(0., up, T, up + .4 * sd))
            # the anchored minimum: weight one, or one half when the other sector is reached, among paths with their minimum in range
            rng_lo = lo - (lo - lb) * .5
            base = S(lb, ub) - S(rng_lo, ub)
            p_edges = .5 * (base + S(lb, mid) - S(rng_lo, mid)) / base if base > 1e-6 else 0.
            base_min = S(lb, np.inf) - S(rng_lo, np.inf)
            p_lay = 1 - (S(lb, mid) / S(lb, ub)) if S(lb, ub) > 1e-6 else 0.
            jobs = [
                ('layer', S(lb, ub), lambda: L.sample_layer(T, x0, x1, lb, ub, rng, k)),
                ('layered minimum', base / base_min if base_min > 1e-6 else 0., lambda: H.sample_layerbr_min(T, x0, x1, ub, lb, rng_lo, rng, k)),
                ('exceeding bridge', p_lay, lambda: P.sample_layerbr(t, T, x0, x1, lb, ub, mid, rng, k)),
                ('direct simulation', np.exp(-phi * T), lambda: next(SK.sample_skeleton(T, x0, (-np.inf, np.inf), it.repeat(x1), lambda x: np.full(np.shape(x), phi), lambda a, b: (0., 0., 2 * phi), rng, k))),
                ('bridge simulation', np.exp(-phi * T), lambda: next(SD.sample_bridge((-np.inf, np.inf), *ops(T, x0, x1), lambda x: np.full(np.shape(x), phi), lambda a, b: (0., 0., 2 * phi), rng, k))),
            ]
            # accepted by the coin, left to the bound over the range of the path
            late = lambda a, b: (0., 0., 1.) if b - a <= abs(x1 - x0) * (1 + 1e-9) + 1e-12 * sd else (phi, phi, phi + 1.)
            jobs.append(('bridge simulation by bounds', np.exp(-phi * T), lambda: next(SD.sample_bridge((-np.inf, np.inf), *ops(T, x0, x1), lambda x: np.full(np.shape(x), phi), late, rng, k))))
            if getattr(L, 'sample_edges', None):
                jobs.append(('edges', p_edges, lambda: L.sample_edges(T, x0, x1, (lb, rng_lo), (mid, ub), rng, k)))
            if getattr(P, 'propose_layerbr_edge', None):
                jobs.append(('Bessel bridge', bes, lambda: P.propose_layerbr_edge(t, T, up, up + .4 * sd, None, rng, k)))
            name, p, f = jobs[int(rng.integers(0, len(jobs)))]
            if not .02 < p < .98:
                continue
            ctx.case('geometric', name, T, x0, x1, k, p)
            try:
                with ctx.affordable():
                    r, e = outcome(f)
            except mon.TooExpensive:
                continue
            s = dict(function=name, T=T, x0=x0, x1=x1, budget=k, p=p)
            if e is not None and not ctx.check(isinstance(e, BudgetConstraintError), 'an exhausted budget is not a budget error', error=repr(e), **s):
                continue
            ctx.event('budgets_exhausted', e is not None)
            ctx.event('answers', e is None)
            a = acc.setdefault(name, [0, []])
            a[0] += e is not None
            a[1].append((1 - p) ** k)
        return {f'{k}: exhausted budgets': O.z_bernoulli(v, np.array(p)) for k, (v, p) in acc.items() if len(p) >= 30}
    ctx.stat('budgets', run, ctx.n(4000, 40000))
    ctx.expect('budgets_exhausted', 100)
    ctx.expect('answers', 100)


def hopeless(ctx):
    """Impossible conditions: no value, whatever the budget."""
    rng = ctx.rng
    for _ in range(ctx.n(300, 3000)):
        T, x0, x1 = gen.bridge(rng)
        sd = np.sqrt(T)
        k = int(rng.choice([0, 1, 2, 20]))
        hi, lo = max(x0, x1), min(x0, x1)
        t = gen.times(rng, T, 2, edge=False)
        far = hi + 60 * sd
        tiny = sd * 1e-3
        jobs = {
            'layer inside very tight bounds': lambda: L.sample_layer(T, x0, x0, x0 - tiny, x0 + tiny, rng, k),
            'bridge exceeding a level it never reaches': lambda: P.sample_layerbr(t, T, x0, x1, lo - sd, far + sd, far, rng, k),
            'minimum of a path inside very tight bounds': lambda: H.sample_layerbr_min(T, x0, x0, x0 + 1e-3 * tiny, x0 - 1.5 * sd, x0 - sd, rng, k),
        }
        phi = 60. / T
        never = lambda a, b: (0., 0., 1.) if b - a <= abs(x1 - x0) * (1 + 1e-9) + 1e-12 * sd else (phi, phi, phi + 1.)
        flat = lambda x: np.full(np.shape(x), phi)
        jobs['bridge whose coins succeed and whose bounds do not'] = lambda: next(SD.sample_bridge((-np.inf, np.inf), *ops(T, x0, x1), flat, never, rng, k))
        jobs['bridge whose coins fail'] = lambda: next(SD.sample_bridge((-np.inf, np.inf), *ops(T, x0, x1), flat, lambda a, b: (0., 0., phi + 1.), rng, k))
        jobs['path whose coins fail'] = lambda: next(SK.sample_skeleton(T, x0, (-np.inf, np.inf), it.repeat(x1), flat, lambda a, b: (0., 0., phi + 1.), rng, k))
        if getattr(P, 'propose_layerbr_edge', None):
            jobs['Bessel bridge below a very tight edge'] = lambda: P.propose_layerbr_edge(t, T, tiny, 2 * tiny, None, rng, k)
        for name, f in jobs.items():
            ctx.case('hopeless', name, T, x0, x1, k)
            try:
                with ctx.affordable():
                    r, e = outcome(f)
            except mon.TooExpensive:
                continue
            ctx.event('refusals')
            ctx.check(isinstance(e, BudgetConstraintError) or (k == 0 and isinstance(e, (AssertionError, ValueError))), f'{name}: answered, or failed otherwise', got=r, error=repr(e), T=T, x0=x0, x1=x1, budget=k)
    ctx.expect('refusals', 100)


def horizons(ctx):
    """Paths evaluated beyond their ends."""
    rng = ctx.rng

    def probe(what, f, T, ok_f, **w):
        beyond = T * float(rng.choice([1 + 1e-9, 1.01, 2., 1e6]))
        before = -T * float(rng.choice([1e-6, .01, 3.]))
        good = gen.times(rng, T, int(rng.integers(1, 4)), edge=False)
        for nm, t in (('beyond the end', np.array([beyond])), ('also beyond the end', np.append(good, beyond)),
                      ('before the start', np.array([before])), ('also before the start', np.append(before, good))):
            r, e = outcome(lambda: f(t))
            ctx.event('refusals')
            ctx.check(e is not None, f'{what} evaluated {nm} was answered', times=t, got=r, T=T, **w)
        r, e = outcome(lambda: ok_f(good))
        ctx.event('answers')
        ctx.check(e is None and len(r) == len(good), f'{what} evaluated inside was refused', times=good, error=repr(e), T=T, **w)

    for _ in range(ctx.n(250, 2500)):
        try:
            with ctx.affordable():
                c = case(rng)
                T, (x0, x1) = c['horizon'], c['x']
                w = dict(kind=c['kind'], thi=c['thi'], v=c['v'])
                ctx.case('horizon', w, T)
                sk = SK.sample_raw_skeleton(T, x0, x1, (-np.inf, np.inf), rng)
                sd = SD.sample_raw_seed(c['bx'], c['norm'], c['denorm'], rng)
                if rng.uniform() < .5:
                    tt = gen.times(rng, T, 3, edge=False)
                    sk, _ = SK.interpolate_skeleton(sk, tt, rng)
                    sd, _ = SD.interpolate_seed(sd, tt, c['norm'], c['denorm'], rng)
                probe('a path', lambda t: sk(t, rng), T, lambda t: sk(t, rng), **w)
                probe('a standardised path', lambda t: sd(t, c['norm'], c['denorm'], rng), T, lambda t: sd(t, c['norm'], c['denorm'], rng), **w)
        except mon.TooExpensive:
            pass
        g, T = config(rng)
        y = K.sample_forwards(T, None, g, ome=rng)
        probe('a jump path', lambda t: y(t), T, lambda t: y(t), rates=g)
        for p in K.partition_skeleton(y, cut_times(rng, T))[:1]:
            probe('a piece of a jump path', lambda t: p(t), p.fin_t, lambda t: p(t), rates=g)
    ctx.expect('refusals', 100)


def preconditions(ctx):
    """One contradicted precondition at a time, in an otherwise valid call."""
    rng = ctx.rng
    D = np.random.default_rng

    def table():
        T, x0, x1 = gen.bridge(rng)
        sd = np.sqrt(T)
        lo, hi = min(x0, x1), max(x0, x1)
        t = gen.times(rng, T, 3, edge=False)
        d = [float(gen.log_uniform(rng, .7, 2)) * sd for _ in range(3)]
        eps = float(gen.log_uniform(rng, 1e-6, 1)) * sd
        neg = -float(gen.log_uniform(rng, 1e-3, 10))
        T_bad = float(rng.choice([0., neg]))
        late, early = np.append(t, T * float(rng.choice([1., 1.5]))), np.append(T * float(rng.choice([0., -.5])), t)
        too_late, too_early = np.append(t, T * 1.5), np.append(-.5 * T, t)
        u = rng.uniform(.05, .95, 3)
        p_bad = float(rng.choice([neg, 1 - neg]))
        s, z = np.sort(rng.uniform(.01, .99, 3)), rng.normal(size=(3, 3))
        y = abs(x1 - x0) + .1 * sd
        inf = lo - d[0]
        ub = hi + d[1]
        kt, kx = np.concatenate([[0.], t, [T]]), np.concatenate([[x0], np.full(3, (lo + hi) / 2), [x1]])
        new = gen.times(rng, T, 2, edge=False)
        mid = (hi + ub) / 2
        g = D(0)
        first = lambda f: next(iter(f))
        a = []

        def add(what, good, **bad):
            a.append((what, good, bad))

        add('cdf of the minimum', lambda T=T, l=inf, b=lo: H.cdf_brownbr_min((inf + lo) / 2, T, x0, x1, l, b),
            horizon=dict(T=T_bad), empty_range=dict(l=inf, b=inf - d[0]), range_above_ends=dict(b=lo + eps))
        add('quantile of the minimum', lambda p=u[0], T=T, l=inf, b=lo: H.ppf_brownbr_min(p, T, x0, x1, l, b),
            horizon=dict(T=T_bad), probability=dict(p=p_bad), empty_range=dict(l=inf, b=inf - d[0]), range_above_ends=dict(b=lo + eps))
        add('minimum', lambda T=T, l=inf, b=lo: H.sample_brownbr_min(T, x0, x1, l, b, ome=rng),
            horizon=dict(T=T_bad), empty_range=dict(l=inf, b=inf - d[0]), range_above_ends=dict(b=lo + eps))
        add('layered minimum', lambda T=T, ub=ub: H.sample_layerbr_min(T, x0, x1, ub, lo - 5 * sd, lo, ome=rng),
            horizon=dict(T=T_bad), edge_below_ends=dict(ub=hi - eps))
        add('escape', lambda T=T, p=u[0]: H.sample_brownbr_esc(T, x0 - (lo + hi) / 2, x1 - (lo + hi) / 2, (hi - lo) / 2 + d[0], None, p, rng),
            horizon=dict(T=T_bad), seed=dict(p=p_bad))
        add('Bessel escape', lambda T=T, p=u[0], a=y / 2, b=y: H.sample_bessel3br_esc(T, a, b, y + d[0], None, p, rng),
            horizon=dict(T=T_bad), seed=dict(p=p_bad), start=dict(a=neg), end=dict(b=neg))
        add('escape series', lambda T=T, e=y + d[0]: first(H.series_brownbr_esc(T, (x0 - x1) / 2, (x1 - x0) / 2, e)), horizon=dict(T=T_bad), barrier=dict(e=neg))
        add('Bessel escape series', lambda T=T, a=y / 2, b=y, e=y + d[0]: first(H.series_bessel3br_esc(T, a, b, e)),
            horizon=dict(T=T_bad), barrier=dict(e=neg), start=dict(a=neg), end=dict(b=neg))
        add('layer edges', lambda i=2, T=T, l=inf, b=ub: L.compute_edges(i, T, x0, x1, l, b),
            index=dict(i=-1), horizon=dict(T=T_bad), lower_bound=dict(l=lo + eps), upper_bound=dict(b=hi - eps))
        add('layer', lambda T=T, l=inf, b=ub: L.sample_layer(T, x0, x1, l, b, rng, 50000) if (l, b) == (inf, ub) else L.sample_layer(T, x0, x1, l, b, rng, 30),
            horizon=dict(T=T_bad), lower_bound=dict(l=lo + eps), upper_bound=dict(b=hi - eps), one_sided_lower=dict(l=lo + eps, b=np.inf), one_sided_upper=dict(l=-np.inf, b=hi - eps))
        if getattr(L, 'sample_edges', None):
            add('edges', lambda T=T, k=50000: L.sample_edges(T, x0, x1, (lo - 3 * sd, lo), (mid, hi + 3 * sd), rng, k), horizon=dict(T=T_bad), budget=dict(k=0))
        add('Wiener path', lambda t=t: P.sample_wiener(t, np.zeros(1), None, rng), times=dict(t=early))
        add('bridge', lambda t=t: P.sample_brownbr(t, T, x0, x1, rng), late=dict(t=late), early=dict(t=early))
        add('Bessel path', lambda t=t, a=y, k=3: P.sample_bessel(t, a, k, ome=rng), times=dict(t=early), start=dict(a=neg), dimension=dict(k=0))
        add('Bessel bridge', lambda t=t, k=3: P.sample_besselbr(t, T, y, k, rng), late=dict(t=late), early=dict(t=early), dimension=dict(k=0))
        add('conditioned bridge', lambda t=t, m=inf, u=ub, e=None: P.sample_layerbr(t, T, x0, x1, m, u, e, rng),
            late=dict(t=late), early=dict(t=early), barrier_above_ends=dict(m=lo + eps), edge_below_ends=dict(u=hi - eps), inner_beyond_outer=dict(e=ub + eps))
        if getattr(P, 'propose_layerbr', None):
            add('bridge between edges', lambda t=t, m=inf, u=ub, e=None: P.propose_layerbr(t, T, x0, x1, m, u, e, rng),
                late=dict(t=late), early=dict(t=early), barrier_above_ends=dict(m=lo + eps), edge_below_ends=dict(u=hi - eps), inner_beyond_outer=dict(e=ub + eps))
        if getattr(P, 'propose_layerbr_edge', None):
            add('bridge above its minimum', lambda t=t, u=y + d[0]: P.propose_layerbr_edge(t, T, y, u, None, rng), late=dict(t=late), early=dict(t=early), edge_below_end=dict(u=y - eps))
        add('refinement', lambda t=new, m=inf, u=ub, h=mid, hit=[False, False, True, False]: I.fill_wiener_outer(kt, kx, t, m, u, h, hit, rng),
            late=dict(t=too_late), early=dict(t=too_early), barrier_above_path=dict(m=lo + eps), edge_below_path=dict(u=hi - eps, h=hi - 2 * eps),
            inner_beyond_outer=dict(h=ub + eps), inner_below_barrier=dict(h=inf - eps))
        add('Wiener moments', lambda t=t: M.moments_wiener(t, x0, 1.), times=dict(t=early))
        add('bridge moments', lambda t=t: M.moments_brownbr(t, T, x0, x1), late=dict(t=late), early=dict(t=early))
        add('reversal', lambda t=t, T=T: X.reverse(t, np.arange(float(len(t))), T), late=dict(t=too_late), early=dict(t=too_early), horizon=dict(t=np.zeros(0), T=neg))
        add('reflection', lambda t=t: X.reflect(t, np.arange(float(len(t))), 1.), early=dict(t=too_early))
        add('pivoting', lambda s=s, T=T: X.pivot_brownbr(s, z[:len(s), 0], T, x0, x1), horizon=dict(T=T_bad), late=dict(s=np.append(s[:2], 1.2)), early=dict(s=np.append(-.2, s[:2])))
        add('Bessel coupling', lambda s=s, T=T: X.gen_seeded_bessel3br(s, z, T, y), horizon=dict(T=T_bad), late=dict(s=np.append(s[:2], 1.)), early=dict(s=np.append(0., s[:2])))
        add('minimum coupling', lambda u=u, r=1., T=T: X.gen_seeded_brownbr_min(u, r, T, x0, x1), horizon=dict(T=T_bad), seed=dict(u=np.array([u[0], 0., u[1]])), late=dict(u=np.array([1., u[0], u[1]])), shape=dict(r=float(rng.choice([0., neg]))))
        add('point process', lambda r=3., b=(1., 2.): K.sample_ppp(r, b, rng), intensity=dict(r=float(rng.choice([0., neg]))), box=dict(b=(1., float(rng.choice([0., neg])))))
        add('point process in batches', lambda r=3., b=(1., 2.), k=2: list(K.sample_batch_ppp(r, b, k, rng)),
            intensity=dict(r=float(rng.choice([0., neg]))), box=dict(b=(float(rng.choice([0., neg])), 2.)), batch=dict(k=0))
        norm = lambda t, x: (np.asarray(t) / T, None if x is None else np.asarray(x) - x0)
        denorm = lambda s, z: (np.asarray(s) * T, None if z is None else np.asarray(z) + x0)
        add('bridge simulation', lambda b=(x0 - 5., x0 + 5.), k=10000: first(SD.sample_bridge(b, norm, denorm, lambda x: np.zeros(np.shape(x)), lambda a, b: (0., 0., 1.), rng, k)),
            bounds=dict(b=(x0 + 5., x0 - 5.)), equal_bounds=dict(b=(x0, x0)), budget=dict(k=-1))
        return a, dict(T=T, x0=x0, x1=x1)

    for _ in range(ctx.n(55, 1000)):
        rows, w = table()
        for what, f, bad in rows:
            try:
                with ctx.affordable(limit=30):
                    r, e = outcome(f)
            except mon.TooExpensive:
                continue
            ctx.event('answers')
            ctx.check(e is None, f'{what}: a valid call was refused', error=repr(e), **w)
            for nm, kw in bad.items():
                ctx.case('precondition', what, nm, w)
                try:
                    with ctx.affordable(limit=30):
                        r, e = outcome(lambda: f(**kw))
                except mon.TooExpensive:
                    ctx.violate(f'{what}: contradicted {nm} is worked on without end', bad=kw, **w)
                    continue
                ctx.event('refusals')
                ctx.check(e is not None, f'{what}: contradicted precondition ({nm}) was answered', bad=kw, got=r, **w)
    ctx.expect('refusals', 500)
    ctx.expect('answers', 100)


def understated(ctx):
    """A two-parameter coin whose intensity is too small for the potentials it meets must be refused when it meets them."""
    rng = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        c = case(rng, 'ou')
        T = c['horizon']
        lam = float(gen.log_uniform(rng, .5, 8)) / T
        over = rng.uniform() < .6
        top = lam * (2. if over else .5)
        up = bool(rng.integers(0, 2))
        seen = [0]

        def high(x):
            seen[0] += len(x)
            return np.full(np.shape(x), top)
        flat = lambda x: np.zeros(np.shape(x))
        try:
            with ctx.affordable():
                sd = SD.sample_raw_seed(c['bx'], c['norm'], c['denorm'], rng)
                nil, prime = (flat, high) if up else (high, flat)
                r, e = outcome(lambda: SD.flip_dual_coin(sd, lam, c['norm'], c['denorm'], nil, c['norm'], c['denorm'], prime, up, rng))
        except mon.TooExpensive:
            continue
        ctx.case('understated', c['thi'], T, lam, top, up)
        ctx.event('faulty_coins' if over and seen[0] else 'sound_coins')
        if over and seen[0]:
            ctx.check(e is not None, 'a potential difference above the stated intensity went unnoticed', intensity=lam, difference=top, upside=up)
        else:
            ctx.check(e is None, 'a sound coin was refused', intensity=lam, difference=top, points=seen[0], error=repr(e))
    ctx.expect('faulty_coins', 30)


def tasks(tier):
    out = []
    for k in range(1 if tier == 'quick' else 4):
        out += [(f'factories{k}', factories, {}), (f'scripted{k}', scripted, {}), (f'geometric{k}', geometric, {}), (f'hopeless{k}', hopeless, {}),
                (f'horizons{k}', horizons, {}), (f'preconditions{k}', preconditions, {}), (f'understated{k}', understated, {})]
    return out
