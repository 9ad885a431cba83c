import copy
import importlib
import inspect
import itertools as it
import numbers
import pkgutil
import random

import numpy as np
import scipy.stats as ss
from joblib import Parallel

import ctbayes
import gen
import mon
import oracle as O
from c03 import bounds
from c06 import ou_cfg
from c07 import case
from c11 import config
from c14 import SW
from c15 import regime_case
from c16 import Prior, joint_draw, model
from c17 import State, fresh_params, fresh_regimes
from ctbayes.ea3lib import seed as SD, skeleton as SK
from ctbayes.ito import mcem as IE, mcmc as IC
from ctbayes.ito.models import cir, ou
from ctbayes.misc import adapt, ars, bfactories as B, testing
from ctbayes.mjplib import inference as F, skeleton as K
from ctbayes.sdelib import hitting as H, interpolators as I, layers as L, paths as P
from ctbayes.switching import mcem as SE, mcmc as SC, types

RULE = ('Every sampler that takes a generator, with inputs drawn per run: two runs with equally seeded generators, between which every other random '
        'source of the process (numpy\'s and Python\'s global generators and every generator that ctbayes holds as a default argument, global or '
        'attribute) is moved on; a third with another seed; chains of one, two and three worker processes; chains advanced in turns against the same '
        'chains advanced alone. Non-trivial: each pair of runs.')
ASSUMPTIONS = ['Equality is exact for the values, and for the state in which the generator is left.',
               'Different seeds must give different results for the samplers with continuous output (coincidence has probability zero).']


def fingerprint(x, seen=None):
    """A hashable value that two objects share if and only if their data agree exactly."""
    if x is None or isinstance(x, (bool, np.bool_, str)):
        return x if x is None or isinstance(x, str) else bool(x)
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, numbers.Real):
        return ('f', np.float64(x).tobytes())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('o', x.shape, tuple(fingerprint(v) for v in x.ravel()))
        return ('a', x.shape, (x + 0.).astype(float).tobytes())
    if isinstance(x, np.random.Generator):
        return ('g', repr(x.bit_generator.state), x.bit_generator.seed_seq.n_children_spawned)
    if isinstance(x, dict):
        return ('d', tuple(sorted((str(k), fingerprint(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ('t', tuple(fingerprint(v) for v in x))
    if callable(x) and not hasattr(x, '__dict__') or inspect.isroutine(x) or type(x).__name__ == 'curry':
        return 'callable'
    if hasattr(x, '__dict__'):
        return ('i', type(x).__name__, fingerprint(vars(x)))
    return ('r', type(x).__name__)


class Sources:
    """Every other random source of this process."""

    def __init__(self):
        self.gens = {}
        for m in pkgutil.walk_packages(ctbayes.__path__, 'ctbayes.'):
            try:
                mod = importlib.import_module(m.name)
            except Exception:
                continue
            for k, v in list(vars(mod).items()):
                self.look(v, f'{m.name}.{k}', 0)

    def look(self, v, where, depth):
        if isinstance(v, (np.random.Generator, np.random.RandomState)):
            self.gens.setdefault(id(v), (where, v))
        elif depth > 3:
            return
        elif inspect.isclass(v) and v.__module__.startswith('ctbayes'):
            for k, f in vars(v).items():
                self.look(f, f'{where}.{k}', depth + 1)
        elif inspect.isfunction(v) and (v.__module__ or '').startswith('ctbayes'):
            for d in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
                self.look(d, f'{where} (default)', depth + 1)
            for c in v.__closure__ or ():
                try:
                    self.look(c.cell_contents, where, depth + 1)
                except ValueError:
                    pass
        elif isinstance(v, (list, tuple)) and len(v) < 50:
            for d in v:
                self.look(d, where, depth + 1)
        elif isinstance(v, dict) and len(v) < 50:
            for d in v.values():
                self.look(d, where, depth + 1)

    def stir(self, rng):
        np.random.seed(int(rng.integers(0, 2 ** 32)))
        random.seed(int(rng.integers(0, 2 ** 32)))
        for _, g in self.gens.values():
            g.random(int(rng.integers(1, 20)))

    def state(self):
        return {'numpy': repr(np.random.get_state()), 'random': random.getstate(), **{w: fingerprint(g) if isinstance(g, np.random.Generator) else repr(g.get_state()) for w, g in self.gens.values()}}


def take(g, n):
    return [copy.deepcopy(x) if isinstance(x, (float, np.ndarray)) else x for x in it.islice(g, n)]


def run(f, sd):
    ome = np.random.default_rng(sd)
    try:
        return f(ome), ome
    except Exception as e:
        return ('raised', type(e).__name__), ome


def compare(ctx, src, name, f, inputs, continuous=True):
    """f(ome) in the same state twice; the inputs are left alone."""
    rng = ctx.rng
    s1, s2 = int(rng.integers(0, 2 ** 31)), int(rng.integers(0, 2 ** 31))
    before = fingerprint(inputs)
    src.stir(rng)
    try:
        with ctx.affordable():
            st = src.state()
            a, ga = run(f, s1)
            ka = fingerprint(a)
            moved = sorted(k for k, v in src.state().items() if v != st[k])
            src.stir(rng)
            b, gb = run(f, s1)
            src.stir(rng)
            c, _ = run(f, s2)
    except mon.TooExpensive:
        return
    w = dict(sampler=name, seed=s1, inputs=repr(inputs)[:600])
    ctx.event(name)
    ctx.event('pairs')
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == 'raised':
        ctx.check(False, 'the sampler refused valid inputs', error=a[1], **w)
        return
    ctx.check(ka == fingerprint(b), 'equal generators gave different results', first=a, second=b, **w)
    ctx.check(fingerprint(ga) == fingerprint(gb), 'equal generators were left in different states', **w)
    ctx.check(ka == fingerprint(a), 'a result was modified by later work', first=a, **w)
    ctx.check(not moved, 'another random source was used', sources=moved, **w)
    ctx.check(fingerprint(inputs) == before, 'the inputs were modified', **w)
    if continuous:
        ctx.check(ka != fingerprint(c), 'different generators gave the same result', first=a, second=c, seed2=s2, **w)


def coins(ome, p):
    while True:
        yield ome.uniform() < p, None


def joint(ome, p):
    which = yield
    while True:
        which = yield ome.uniform() < (p if which else 1 - p), None


def brownian(rng):
    """Samplers of minima, layers, paths and their refinements."""
    T, x0, x1 = gen.bridge(rng)
    sd = np.sqrt(T)
    lb, ub = bounds(rng, T, x0, x1)
    lo, hi = min(x0, x1), max(x0, x1)
    m = lo - float(gen.log_uniform(rng, .1, 1)) * sd
    e1, e2 = hi + float(gen.log_uniform(rng, .3, 1)) * sd, hi + float(gen.log_uniform(rng, 1.1, 2)) * sd
    t = gen.times(rng, T, int(rng.integers(1, 6)), edge=False)
    new = gen.times(rng, T, int(rng.integers(1, 6)), edge=False)
    d, mu = int(rng.integers(1, 5)), float(rng.normal())
    J = [('minimum', lambda o: H.sample_brownbr_min(T, x0, x1, ome=o), (T, x0, x1), True),
         ('minimum in a range', lambda o: H.sample_brownbr_min(T, x0, x1, m, lo, ome=o), (T, x0, x1, m), True),
         ('minimum below a barrier', lambda o: H.sample_layerbr_min(T, x0, x1, e2, m - sd, lo, ome=o), (T, x0, x1, e2), True),
         ('escape of a bridge', lambda o: [H.sample_brownbr_esc(T, x0, x1, e2, ome=o) for _ in range(5)], (T, x0, x1, e2), False),
         ('escape of a Bessel bridge', lambda o: [H.sample_bessel3br_esc(T, 0., hi - m, e1 - m, e2 - m, ome=o) for _ in range(5)], (T, e1, e2), False),
         ('layer', lambda o: [L.sample_layer(T, x0, x1, lb, ub, o) for _ in range(5)], (T, x0, x1, lb, ub), False),
         ('anchor', lambda o: [L.sample_anchor(T, x0, x1, lb, ub, o) for _ in range(5)], (T, x0, x1, lb, ub), False),
         ('Wiener path', lambda o: P.sample_wiener(t, np.array([x0, x1]), np.array([mu, 0.]), o), (t, x0, x1), True),
         ('bridge path', lambda o: P.sample_brownbr(t, T, x0, x1, o), (t, T, x0, x1), True),
         ('Bessel path', lambda o: P.sample_bessel(t, abs(x0), d, ome=o), (t, x0, d), True),
         ('Bessel bridge', lambda o: P.sample_besselbr(t, T, abs(x1), d, ome=o), (t, T, x1, d), True),
         ('layered bridge', lambda o: P.sample_layerbr(t, T, x0, x1, m, e2, None, o), (t, T, x0, x1, m, e2), True),
         ('layered bridge with an inner edge', lambda o: P.sample_layerbr(t, T, x0, x1, lo if hi > lo else m, e2, e1, o), (t, T, x0, x1, m, e1, e2), True),
         ('interpolation', lambda o: I.fill_wiener_outer(np.array([0., T]), np.array([x0, x1]), new, m, e2, ome=o), (T, x0, x1, new, m, e2), True)]
    tm, xm = T * float(rng.uniform(.2, .8)), lo - .3 * sd
    t3, x3, hit = np.array([0., tm, T]), np.array([x0, xm, x1]), [bool(rng.integers(0, 2)), True]
    n3 = np.setdiff1d(new, t3)
    J += [('interpolation around a minimum', lambda o: I.fill_wiener_inner(t3, x3, n3, xm, e2, e1, list(hit), ome=o), (t3, x3, n3, xm, e1, e2, hit), True)]
    if getattr(L, 'sample_edges', None):
        J += [('edges', lambda o: L.sample_edges(T, x0, x1, (m - sd, m), (e1, e2), o), (T, x0, x1, m, e1, e2), True)]
    if getattr(P, 'propose_layerbr', None):
        J += [('layered proposal', lambda o: P.propose_layerbr(t, T, x0, x1, m - sd, e2, None, o), (t, T, x0, x1, m, e2), True)]
    if getattr(P, 'propose_layerbr_edge', None):
        J += [('Bessel proposal', lambda o: P.propose_layerbr_edge(t, T, hi - m, e2 - m + sd, None, o), (t, T, e2, m), True)]
    J += [('Euler scheme', lambda o: testing.euler_simulate(2, .5, x0, lambda x: -x, lambda x: 1 + 0 * x, .05, o), (x0,), True)]
    return J


def lazy(rng):
    """Lazily represented paths, coins and estimators."""
    T, x0, x1 = gen.bridge(rng)
    bd = bounds(rng, T, x0, x1)
    t1, t2 = gen.times(rng, T, int(rng.integers(1, 5)), edge=False), gen.times(rng, T, int(rng.integers(1, 5)), edge=False)
    aux = np.random.default_rng(int(rng.integers(0, 2 ** 31)))
    sk = SK.sample_raw_skeleton(T, x0, x1, bd, aux)
    if rng.uniform() < .5:
        sk = SK.interpolate_skeleton(sk, t1, aux)[0]
    c = case(rng)
    no = (c['norm'], c['denorm'])
    sd = SD.sample_raw_seed(c['bx'], *no, aux)
    s1, s2 = gen.times(rng, c['horizon'], 3, edge=False), gen.times(rng, c['horizon'], 2, edge=False)
    if rng.uniform() < .5:
        sd = SD.interpolate_seed(sd, s1, *no, aux)[0]
    oth, oT, ov0, ov1 = ou_cfg(rng)
    oth2, ov = oth * np.array([1.2, 1.]), (np.array([0., oT]), np.array([ov0, ov1]))
    ono, ono2 = ou.gen_normops(oth, *ov)[0], ou.gen_normops(oth2, *ov)[0]
    osd = SD.sample_raw_seed(ou.bounds_x, *ono, aux)
    inten = float(abs(oth2[0] - oth[0]) * ou.eval_bounds_grad(oth, oth2, oT, ov0, ov1, *sorted((osd.tight_z, osd.loose_z)))[0])
    bs = int(rng.choice([1, 2, 10]))
    sk2 = SK.sample_raw_skeleton(T, x0, x1, (-np.inf, np.inf), aux)
    osc, obd = (lambda x: 1 + np.sin(x)), (lambda a, b: (0., 0., 2.))
    J = [('path representation', lambda o: SK.sample_raw_skeleton(T, x0, x1, bd, o), (T, x0, x1, bd), True),
         ('path revealed', lambda o: SK.interpolate_skeleton(sk, t2, o), (sk, t2), True),
         ('path called', lambda o: sk(t2, o), (sk, t2), True),
         ('direct simulation', lambda o: take(SK.sample_skeleton(T, x0, (-np.inf, np.inf), it.repeat(x1), osc, obd, o), 2), (T, x0, x1), True),
         ('coin on a path', lambda o: SK.flip_poisson_coin(sk2, osc, obd, o, bs), (sk2,), False),
         ('estimator on a path', lambda o: SK.est_poisson_coin(sk2, osc, obd, o), (sk2,), False),
         ('standard path', lambda o: SD.sample_raw_seed(c['bx'], *no, o), (c['thi'], c['v']), True),
         ('standard path revealed', lambda o: SD.interpolate_seed(sd, s2, *no, o), (sd, s2), True),
         ('standard path called', lambda o: sd(s2, *no, o), (sd, s2), True),
         ('bridge simulation', lambda o: take(SD.sample_bridge(c['bx'], *no, c['f'], c['g'], o), 2), (c['thi'], c['v']), True),
         ('coin on a standard path', lambda o: SD.flip_poisson_coin(sd, *no, c['f'], c['g'], o, bs), (sd, c['thi']), False),
         ('estimator on a standard path', lambda o: SD.est_poisson_coin(sd, *no, c['f'], c['g'], o), (sd, c['thi']), False),
         ('dual coin', lambda o: SD.flip_dual_coin(osd, inten, *ono, ou.eval_disc(oth), *ono2, ou.eval_disc(oth2), bool(bs % 2), o, bs), (osd, oth, oth2), False)]
    return J


def tools(rng):
    """Point processes, jump processes, general samplers, proposals and exact diffusion paths."""
    lam, box, bs = float(gen.log_uniform(rng, 2, 40)), tuple(gen.log_uniform(rng, .5, 3, int(rng.integers(1, 4)))), int(rng.choice([1, 2, 10]))
    g, T = config(rng)
    n = len(g)
    a = np.random.default_rng(int(rng.integers(0, 2 ** 31)))
    y = K.sample_forwards(T, None, g, a)
    cut = gen.times(rng, T, int(rng.integers(1, 4)), edge=False)
    part = K.partition_skeleton(y, cut)
    al, be = np.exp(rng.normal(size=(n, n))) + 1, np.exp(rng.normal(size=(n, n)))
    np.fill_diagonal(al, np.nan), np.fill_diagonal(be, np.nan)
    w, p = rng.normal(size=2), rng.uniform(.2, .8, 2)
    bd = (np.array([-np.inf, 0., -np.inf]), np.array([np.inf, np.inf, 1.]))
    vec, sca, reg = adapt.MyopicMvRwSampler(np.array([.2, 1., .5]), bd), adapt.MyopicRwSampler(.7, (0., np.inf)), adapt.MyopicMjpSampler(y)
    obs_t = np.concatenate([[0.], cut, [T]])
    thi, To, v0, v1 = ou_cfg(rng)
    to = gen.times(rng, To, 3, edge=False)
    cthi, cv = np.array([1., 1.5, .7]) * np.exp(rng.normal(size=3) * .1), 1.2 * np.exp(rng.normal(size=2) * .2)
    tn, vn = np.array([0., .3, .8, 1.1]), rng.normal(size=4)
    sm, sthi, sy, st, sv, _ = regime_case(rng, 'ou')
    nu = float(rng.uniform(2, 6))
    J = [('point process', lambda o: K.sample_ppp(lam, box, o), (lam, box), False),
         ('point process in batches', lambda o: take(K.sample_batch_ppp(lam, box, bs, o), 2), (lam, box, bs), False),
         ('jump path', lambda o: [K.sample_forwards(T, None, g, o) for _ in range(5)], (T, g), False),
         ('backward jump path', lambda o: [K.sample_backwards(T, 0, g, o) for _ in range(5)], (T, g), False),
         ('jump bridge', lambda o: [K.sample_bridge(T, 0, 1, g, o) for _ in range(5)], (T, g), False),
         ('random partition', lambda o: [K.sample_partition(y, 3. / T, o) for _ in range(5)], (y,), False),
         ('mutation', lambda o: [K.mutate_partition(part, g, o) for _ in range(5)], (part, g), False),
         ('random generator', lambda o: K.sample_trial_generator(n, o), (n,), True),
         ('posterior generator', lambda o: F.sample_param(al, be, o), (al, be), True),
         ('adaptive rejection', lambda o: take(ars.sample(lambda x: -x * x / 2, lambda x: -x, ome=o), 4), (), True),
         ('adaptive rejection from a start', lambda o: take(ars.sample(lambda x: (nu - 1) * np.log(x) - x, lambda x: (nu - 1) / x - 1, 0., np.inf, np.array([.5, nu + 1]), int(nu), o), 4), (nu,), True),
         ('two coins', lambda o: [B.sample_twocoin(*w, coins(o, p[0]), coins(o, p[1]), .1, None, o) for _ in range(5)], (w, p), False),
         ('two-sided coin', lambda o: [B.sample_twocoin_joint(*w, joint(o, p[0]), .1, o) for _ in range(5)], (w, p), False),
         ('vector proposal', lambda o: vec.propose(o), (vec,), True),
         ('scalar proposal', lambda o: sca.propose(o), (sca,), True),
         ('regime proposal', lambda o: [reg.propose(g, obs_t, o) for _ in range(5)], (reg, g, obs_t), False),
         ('OU paths', lambda o: take(ou.sample_sde(thi, to, To, v0, None, o), 2), (thi, to, v0), True),
         ('OU bridges', lambda o: take(ou.sample_sde(thi, to, To, v0, v1, o), 2), (thi, to, v0, v1), True),
         ('CIR paths', lambda o: take(cir.sample_sde(cthi, np.array([.1, .2]), .3, float(cv[0]), None, o), 2), (cthi, cv), True),
         ('CIR bridges', lambda o: take(cir.sample_sde(cthi, np.array([.1, .2]), .3, *map(float, cv), o), 2), (cthi, cv), True),
         ('latent paths', lambda o: ou.sample_aug(thi, tn, vn, o), (thi, tn, vn), True),
         ('latent paths and anchors', lambda o: sm.sample_aug(sthi, sy, st, sv, o), (sthi, sy, st, sv), True)]
    return J


def samplers(ctx, which):
    rng = ctx.rng
    src = Sources()
    ctx.event('other_sources', len(src.gens))
    for _ in range(ctx.n(30, 400)):
        try:
            with ctx.affordable():
                jobs = which(rng)
        except mon.TooExpensive:
            continue
        for name, f, inputs, cont in jobs:
            ctx.case(name, repr(inputs)[:300])
            compare(ctx, src, name, f, inputs, cont)
    ctx.expect('pairs', 100)


def ito_parts(rng):
    """One call for every update, and chains, for single-regime models: f(ome, n_cores)."""
    pr = Prior('own')
    thi, t, v = joint_draw(rng, pr)
    aux = np.random.default_rng(int(rng.integers(0, 2 ** 31)))
    z = ou.sample_aug(thi, t, v, aux)
    mod = model(t, v, pr)
    prec, pk = bool(rng.integers(0, 2)), float(rng.choice([.01, .3]))
    rws = lambda: [adapt.MyopicRwSampler(float(x), b) for x, b in zip(thi, np.array(ou.bounds_thi).T)]
    con = lambda n: IC.Controls(n_cores=n, precoin=prec, pr_portkey=pk)
    inp = (thi, t, v, z)

    def params(o, n):
        s = rws()
        r = IC.update_params(thi, z, mod, con(n), s, o)
        return r, [vars(x) for x in s]

    def sde(o, n):
        with Parallel(n, 'loky') as pool:
            return IC.update_sde(thi, z, mod, con(n), o, pool)

    def chain(o, n):
        return list(it.islice(ou.sample_posterior(t, v, o, n_cores=n, precoin=prec, pr_portkey=pk), 3))

    def em(o, n):
        return list(it.islice(ou.maximize_posterior(t, v, o, n_cores=n, ftol=1e-9), 2))

    def se(o, n):
        if not hasattr(IE, 'est_se'):
            return None
        with Parallel(n, 'loky') as pool:
            try:
                return IE.est_se(thi, [z, z, ou.sample_aug(thi, t, v, o)], IE.Model(*mod[:-1]), IE.Controls(n_cores=n), o, pool)
            except np.linalg.LinAlgError:
                return None
    return [('parameter update', params, inp, False), ('path update', sde, inp, False), ('posterior sampling', chain, inp, False),
            ('posterior maximisation', em, inp, True), ('standard errors', se, inp, False)]


def switching_parts(rng):
    name = str(rng.choice(list(SW)))
    st = State(rng, name, own=True)
    aux = np.random.default_rng(int(rng.integers(0, 2 ** 31)))
    z, h = st.augment(aux)
    thi, m, r, t, v = st.thi, SW[name], st.r, st.t, st.v
    hyper = (np.full((r, r), 2.), np.full((r, r), 1.))
    for q in hyper:
        np.fill_diagonal(q, np.nan)
    mod = st.model(hyper)
    lam = st.lam
    prec, pk = bool(rng.integers(0, 2)), float(rng.choice([.01, .3]))
    con = lambda n: SC.Controls(n_cores=n, precoin=prec, pr_portkey=pk)
    inp = (thi, lam, t, v, z, h, hyper)

    def generator(o, n):
        return SC.update_generator(h, hyper, o)

    def params(o, n):
        s = fresh_params(st, thi, np.random.default_rng(5))
        with Parallel(n, 'loky') as pool:
            res = SC.update_params(thi, z, h, mod, con(n), s, o, pool)
        return res, [vars(x) for x in s]

    def hidden(o, n):
        s = fresh_regimes(types.prune_anchorage(h), np.random.default_rng(5))
        with Parallel(n, 'loky') as pool:
            return SC.update_hidden(thi, lam, z, h, mod, con(n), s, o, pool), vars(s)

    def chain(o, n):
        return list(it.islice(m.sample_posterior(t, v, r, 2., 1., o, n_cores=n, precoin=prec, pr_portkey=pk), 3))

    def em(o, n):
        return list(it.islice(m.maximize_posterior(t, v, r, 3., 1., o, n_cores=n, ftol=1e-9), 2))

    def resumed(o, n):
        a = np.random.default_rng(5)
        state = dict(thi=thi, lam=lam, z=z, h=h, param_samplers=fresh_params(st, thi, a), regime_sampler=fresh_regimes(types.prune_anchorage(h), a), ome=o)
        return list(it.islice(m.sample_posterior(t, v, r, 2., 1., np.random.default_rng(3), state=state, n_cores=n, precoin=prec, pr_portkey=pk), 2))
    return [('generator update', generator, inp, True), ('parameter update', params, inp, False), ('regime update', hidden, inp, False),
            ('posterior sampling', chain, inp, True), ('resumed sampling', resumed, inp, True), ('posterior maximisation', em, inp, True)]


# where an update puts what it drew: two generators never agree on a drawn number
FRESH = {(ito_parts, 'parameter update'): lambda r: r[0][0], (switching_parts, 'parameter update'): lambda r: r[0][0],
         (switching_parts, 'regime update'): lambda r: np.append(r[0][1].t, r[0][1].vt)}


def fresh(ctx, name, f, inputs, new):
    old = {float(x) for i in inputs for x in (np.ravel(i) if isinstance(i, np.ndarray) else np.concatenate([np.ravel(q) for q in i]) if isinstance(i, types.Anchorage) else ())}
    seen = {}
    for sd in ctx.rng.integers(0, 2 ** 31, 5):
        for x in {float(v) for v in np.ravel(new(f(np.random.default_rng(int(sd)), 1)))} - old:
            ctx.check(seen.setdefault(x, sd) == sd, 'different generators drew the same value', sampler=name, value=x, seeds=[int(sd), int(seen[x])])
            ctx.event('drawn_values')


def inference(ctx, which):
    rng = ctx.rng
    src = Sources()
    for _ in range(ctx.n(6, 60)):
        try:
            with ctx.affordable(budget=20_000_000, after=10):
                jobs = which(rng)
        except mon.TooExpensive:
            continue
        for name, f, inputs, cont in jobs:
            ctx.case(name, repr(inputs)[:300])
            try:
                compare(ctx, src, name, lambda o: f(o, 1), inputs, cont)
                new = FRESH.get((which, name))
                if new:
                    with ctx.affordable(budget=20_000_000, after=10):
                        fresh(ctx, name, f, inputs, new)
            except mon.TooExpensive:
                pass
    ctx.expect('pairs', 8)


def workers(ctx, which):
    """The number of worker processes does not matter."""
    rng = ctx.rng
    src = Sources()
    for i in range(ctx.n(2, 12)):
        for name, f, inputs, cont in which(rng):
            if name == 'generator update':
                continue
            sd = int(rng.integers(0, 2 ** 31))
            ctx.case('workers', name, repr(inputs)[:300])
            out = {}
            try:
                for n in (1, 2, 3) if i % 2 else (2, 1):
                    src.stir(rng)
                    with ctx.affordable(budget=30_000_000, after=30.):
                        r, o = run(lambda g: f(g, n), sd)
                    out[n] = fingerprint(r), fingerprint(o), r
            except mon.TooExpensive:
                continue
            for n, (a, g, r) in out.items():
                ctx.check(a == out[1][0], 'the result depends on the number of worker processes', sampler=name, seed=sd, workers=n, result=r, sequential=out[1][2], inputs=repr(inputs)[:600])
                ctx.check(g == out[1][1], 'the generator is left in a state that depends on the number of worker processes', sampler=name, seed=sd, workers=n)
            ctx.event('worker_runs', len(out))
    ctx.expect('worker_runs', 6)


def turns(ctx):
    """Chains advanced in turns are the chains advanced alone, and states handed out keep their values."""
    rng = ctx.rng
    for _ in range(ctx.n(2, 15)):
        makers = []
        for k in range(int(rng.integers(3, 6))):
            kind = ['ito', 'switching', 'em', 'switching em', 'paths', 'points', 'hull'][int(rng.integers(0, 7))] if k > 1 else ('ito', 'switching')[k]
            sd = int(rng.integers(0, 2 ** 31))
            if kind in ('ito', 'em'):
                _, t, v = joint_draw(rng, Prior('own'))
                f = (lambda sd=sd, t=t, v=v: ou.sample_posterior(t, v, np.random.default_rng(sd))) if kind == 'ito' else (lambda sd=sd, t=t, v=v: ou.maximize_posterior(t, v, np.random.default_rng(sd), ftol=1e-9))
            elif kind in ('switching', 'switching em'):
                st = State(rng, 'ou', own=True, lam=gen.generator(rng, 2, spread=.3))
                f = (lambda sd=sd, st=st: st.m.sample_posterior(st.t, st.v, 2, 2., 1., np.random.default_rng(sd))) if kind == 'switching' else (lambda sd=sd, st=st: st.m.maximize_posterior(st.t, st.v, 2, 3., 1., np.random.default_rng(sd), ftol=1e-9))
            elif kind == 'paths':
                thi, T, v0, v1 = ou_cfg(rng)
                f = lambda sd=sd, a=(thi, np.array([.3, .5]) * T, T, v0, None): ou.sample_sde(*a, np.random.default_rng(sd))
            elif kind == 'points':
                f = lambda sd=sd: K.sample_batch_ppp(200., (1., 2.), 3, np.random.default_rng(sd))
            else:
                f = lambda sd=sd: ars.sample(lambda x: -x * x / 2, lambda x: -x, ome=np.random.default_rng(sd))
            makers.append((kind, f, 3))
        try:
            with ctx.affordable(budget=30_000_000, after=30.):
                alone, kept = [], []
                for kind, f, n in makers:
                    states, prints = [], []
                    for x in it.islice(f(), n):
                        states.append(x)
                        prints.append(fingerprint(x))
                    alone.append(prints)
                    kept.append(states)
                live = [f() for _, f, _ in makers]
                order = rng.permutation(np.repeat(np.arange(len(makers)), [n for _, _, n in makers]))
                mixed = [[] for _ in makers]
                for j in order:
                    x = next(live[j], None)
                    if x is not None:
                        kept[j].append(x)
                        mixed[j].append(fingerprint(x))
        except mon.TooExpensive:
            continue
        ctx.case('turns', [k for k, _, _ in makers], order)
        for (kind, _, n), a, b, k in zip(makers, alone, mixed, kept):
            ctx.check(a == b, 'a chain advanced in turns with others differs from the chain alone', kind=kind)
            ctx.check([fingerprint(x) for x in k] == a + b, 'a state that was handed out earlier was modified', kind=kind)
            ctx.check(kind == 'ito' or len(set(a)) == len(a), 'a chain handed out the same state twice', kind=kind)
            ctx.event('chains')
            ctx.event('states', len(k))
    ctx.expect('chains', 3)


def tasks(tier):
    out = []
    for k in range(1 if tier == 'quick' else 4):
        out += [(f'ito inference{k}', inference, dict(which=ito_parts)), (f'switching inference{k}', inference, dict(which=switching_parts)),
                (f'ito workers{k}', workers, dict(which=ito_parts)), (f'switching workers{k}', workers, dict(which=switching_parts)),
                (f'turns{k}', turns, {}), (f'turns again{k}', turns, {})]
        out += [(f'{n}{k}', samplers, dict(which=w)) for n, w in (('brownian', brownian), ('lazy', lazy), ('tools', tools))]
    return out
