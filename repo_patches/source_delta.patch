From cd298ff81878e7f959ca0c0a6327c00475984dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 01/26] fix: MyopicRwSampler.propose summed scalar
 log-densities, so every ito sample_posterior call raised TypeError

---
 ctbayes/misc/adapt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 0436463..d7127ca 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -105,7 +105,7 @@ class MyopicRwSampler(object):
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
         prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
-        return prop, sum(log_p_forw), sum(log_p_backw)
+        return prop, log_p_forw, log_p_backw
 
     def adapt(self, sample: float, prob: float):
 
-- 
2.43.0


From 6c5de63fcb31bc8eb6267f68b1bda54b959fe334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 02/26] fix: random walk proposals drew from the global numpy
 state instead of the generator passed in

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index d7127ca..1bfe943 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -68,7 +68,7 @@ class MyopicMvRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (np.ndarray, float, float):
 
         state_real, log_p_backw = zip(*[transform_to_reals(x_, lb_, ub_) for x_, lb_, ub_ in zip(self.state, *self.bounds)])
-        prop_real = np.random.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = zip(*[transform_to_const(y_, lb_, ub_) for y_, lb_, ub_ in zip(prop_real, *self.bounds)])
         return np.array(prop), sum(log_p_forw), sum(log_p_backw)
 
@@ -103,7 +103,7 @@ class MyopicRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (float, float, float):
 
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
-        prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
         return prop, log_p_forw, log_p_backw
 
-- 
2.43.0


From 72eec0998a408fa055261f3a468717486b358445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 03/26] fix: seq_update_normal did not track the sample mean
 and covariance its contract promises

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 1bfe943..dd3030f 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -23,8 +23,8 @@ def seq_update_normal(obs: np.ndarray, n: float, mean: np.ndarray, cov: np.ndarr
     """
 
     dev = obs - mean
-    mean = mean + dev / n
-    cov = cov + (np.outer(dev, dev) - cov) / n
+    mean = mean + dev / (n + 1)
+    cov = cov + np.outer(dev, dev) / (n + 1) - cov / n
 
     return mean, cov
 
-- 
2.43.0


From 4b94b265941496235c196f72379465a78cd570a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 04/26] fix: sample_batch_ppp placed later batches beyond its
 bounds and with the wrong law

---
 ctbayes/mjplib/skeleton.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 01f2014..fad3b61 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -55,8 +55,10 @@ def sample_batch_ppp(intensity: float, bounds: Tuple[float, ...] = (1, 1), batch
         batch_sizes = it.chain(batch_sizes, [n_points % batch_size])
 
     ub = 0
+    n_left = n_points
     for i in batch_sizes:
-        lb, ub = ub, ub + bounds[0] * ome.beta(i, n_points + 1 - i)
+        lb, ub = ub, ub + (bounds[0] - ub) * ome.beta(i, n_left + 1 - i)
+        n_left -= i
         if i == 1:
             u0 = np.array([ub])
         else:
-- 
2.43.0


From 990257792bb707664cf7be25997e669731bb7d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 05/26] fix: sample_backwards ignored the stationary initial
 law that sample_forwards starts from

---
 ctbayes/mjplib/skeleton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index fad3b61..531f778 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -160,7 +160,8 @@ def sample_backwards(fin_t: float, fin_x: int, gen: np.ndarray, ome: np.random.G
     """
 
     ftrans = get_trans(fin_t, gen)
-    btrans = ftrans[:, fin_x] / np.sum(ftrans[:, fin_x])
+    btrans = get_stat(gen) * ftrans[:, fin_x]
+    btrans = btrans / np.sum(btrans)
     init_x = ome.choice(np.arange(len(btrans)), 1, p=btrans).item()
 
     return sample_bridge(fin_t, init_x, fin_x, gen, ome)
-- 
2.43.0


From a56bb5e185efeb444d5c8f76ae5cb0cccfb4d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 06/26] fix: generator statistics and likelihood dropped the
 final, censored holding time

---
 ctbayes/mjplib/inference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/mjplib/inference.py b/ctbayes/mjplib/inference.py
index eb48efd..2ebc14f 100755
--- a/ctbayes/mjplib/inference.py
+++ b/ctbayes/mjplib/inference.py
@@ -33,7 +33,7 @@ def update(skel: Skeleton, alp0: np.ndarray, bet0: np.ndarray) -> (np.ndarray, n
     dim = bet0.shape[0]
     trans = np.float64([np.bincount(skel.xt[np.hstack([False, (skel.xt == i)[:-1]])], minlength=dim) for i in range(dim)])
     np.fill_diagonal(trans, np.nan)
-    hold = np.array([np.sum(np.ediff1d(skel.t, to_end=(0,))[skel.xt == i]) for i in range(dim)])
+    hold = np.array([np.sum(np.ediff1d(np.float64(skel.t), to_end=(skel.fin_t - skel.t[-1],))[skel.xt == i]) for i in range(dim)])
     return trans + alp0, (hold + bet0.T).T
 
 
@@ -57,7 +57,8 @@ def eval_loglik(skel: Skeleton, gen: np.ndarray) -> float:
     :return:
     """
 
-    return np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]]) + (skel.t[1:] - skel.t[:-1]) * np.diag(gen)[skel.xt[:-1]]).item()
+    hold = np.ediff1d(np.float64(skel.t), to_end=(skel.fin_t - skel.t[-1],))
+    return (np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]])) + np.sum(hold * np.diag(gen)[skel.xt])).item()
 
 
 def eval_logprior(gen: np.ndarray, alp: np.ndarray, bet: np.ndarray) -> float:
-- 
2.43.0


From 20916383368cabffab04ec066cfe0152865cb0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 07/26] fix: interpolating only at known times forgot which
 sectors reach the layer edge

---
 ctbayes/sdelib/interpolators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/sdelib/interpolators.py b/ctbayes/sdelib/interpolators.py
index 4dfcd29..e8aa869 100755
--- a/ctbayes/sdelib/interpolators.py
+++ b/ctbayes/sdelib/interpolators.py
@@ -128,7 +128,7 @@ def fill_wiener_inner(t: np.ndarray, x: np.ndarray, new_t: np.ndarray, min_x: fl
     """
 
     if not len(new_t):
-        return t, x, np.int64([]), None
+        return t, x, np.int64([]), hit_i
 
     assert 0 <= np.min(t) < np.min(new_t) <= np.max(new_t) < np.max(t)
     assert min_x <= np.min(x)
-- 
2.43.0


From d2c410578a5b2f6dbb72f7e2d9edc5e5bb1c8058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 08/26] fix: the ito parameter precoin left out the likelihood
 of the observations

---
 ctbayes/ito/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcmc.py b/ctbayes/ito/mcmc.py
index f014aa5..73a12aa 100755
--- a/ctbayes/ito/mcmc.py
+++ b/ctbayes/ito/mcmc.py
@@ -88,8 +88,8 @@ def eval_param_weight(thi: np.ndarray, mod: Model) -> float:
 def flip_param_precoin(thi_nil: np.ndarray, thi_prime: np.ndarray, log_p_for: float, log_p_back: float,
                        mod: Model, ome: np.random.Generator) -> bool:
 
-    weight_prime = mod.eval_log_prior(thi_prime) + log_p_back
-    weight_nil = mod.eval_log_prior(thi_nil) + log_p_for
+    weight_prime = eval_param_weight(thi_prime, mod) + log_p_back
+    weight_nil = eval_param_weight(thi_nil, mod) + log_p_for
     return np.log(ome.uniform()) < weight_prime - np.logaddexp(weight_prime, weight_nil)
 
 
-- 
2.43.0


From 57b12d9ee067b17c40de0f18f003bf75e806f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 09/26] fix: ito mcem passed its number of cores as the target
 acceptance probability

---
 ctbayes/ito/mcem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/mcem.py b/ctbayes/ito/mcem.py
index ef32f4a..ca80f4c 100755
--- a/ctbayes/ito/mcem.py
+++ b/ctbayes/ito/mcem.py
@@ -68,7 +68,7 @@ def update_particles(thi: np.ndarray, init_z: seed.Partition, n_particles: int,
 
     z, zz = init_z, []
     for i in range(n_particles * ctrl.n_thin_mcmc):
-        z = mcmc.update_sde(thi, z, mcmc.Model(*mod, None), mcmc.Controls(ctrl.n_cores), ome, pool)
+        z = mcmc.update_sde(thi, z, mcmc.Model(*mod, None), mcmc.Controls(n_cores=ctrl.n_cores), ome, pool)
         if not i % ctrl.n_thin_mcmc:
             zz.append(z)
     return zz
-- 
2.43.0


From cf82e4191fb8886047fd9597331a94df3976360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 10/26] fix: regime proposals trimmed the observation times
 twice and crashed on two or three observations

---
 ctbayes/switching/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 9e7c3b5..8f9b04a 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -154,7 +154,7 @@ def update_hidden(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Partition, h
                   mod: Model, ctrl: Controls, regime_sampler: MyopicMjpSampler, ome: np.random.Generator, pool: Parallel
                   ) -> (mjp_skel.Skeleton, sde_seed.Partition, types.Anchorage):
 
-    y_prime, t_cond = regime_sampler.propose(lam, mod.t[1:-1], ome)
+    y_prime, t_cond = regime_sampler.propose(lam, mod.t, ome)
     z_prime, h_prime = mod.sample_aug(thi, y_prime, mod.t, mod.vt, ome)
     z_nil_part, h_nil_part = split_hidden(z_nil, h_nil, t_cond)
     z_prime_part, h_prime_part = split_hidden(z_prime, h_prime, t_cond)
-- 
2.43.0


From d083d69f4a18f221e15fbd13df72489868eef2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 11/26] fix: ou eval_grad had the wrong derivative of the drift
 divergence term

---
 ctbayes/ito/models/ou.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/ou.py b/ctbayes/ito/models/ou.py
index fd370ec..6dd23ed 100755
--- a/ctbayes/ito/models/ou.py
+++ b/ctbayes/ito/models/ou.py
@@ -44,7 +44,7 @@ def eval_inf_disc(thi):
 def eval_grad(thi, fin_t, init_v, fin_v, t, zs):
     vt = (1 - t / fin_t) * init_v + t / fin_t * fin_v
     bet, sig = thi
-    dbet_phi = bet * (fin_t * np.square(zs) + np.square(vt / sig) + 2 * np.sqrt(fin_t) * zs * vt / sig) - 1
+    dbet_phi = bet * (fin_t * np.square(zs) + np.square(vt / sig) + 2 * np.sqrt(fin_t) * zs * vt / sig) - 1 / 2
     dsig_phi = -bet ** 2 * (np.sqrt(fin_t) * zs * vt / sig ** 2 + np.square(vt) / sig ** 3)
     return np.array([dbet_phi, dsig_phi])
 
-- 
2.43.0


From ba08dd613e849b7cf6f8490cb2e0f2cc4d87951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 12/26] fix: switching ou3 drift integral and derivative did
 not match its drift, nor vectors of regimes

---
 ctbayes/switching/models/ou3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/switching/models/ou3.py b/ctbayes/switching/models/ou3.py
index d988334..987981d 100644
--- a/ctbayes/switching/models/ou3.py
+++ b/ctbayes/switching/models/ou3.py
@@ -10,15 +10,15 @@ def eval_vol(thi, yt):
 
 @curry
 def eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) * xt
+    return -np.prod(thi[yt], -1) * xt
 
 @curry
 def sx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2 * np.square(xt) / 2
+    return -np.prod(thi[yt], -1) * np.square(xt) / 2
 
 @curry
 def dx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2
+    return -np.prod(thi[yt], -1)
 
 @curry
 def reduce(vt):
-- 
2.43.0


From 8969df2db7a41b32e687431387aca629dcc13aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 13/26] fix: bounded escape decisions used partial sums outside
 their bracketing regime

---
 ctbayes/sdelib/hitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index 600a22a..8ea166e 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -340,7 +340,7 @@ def sample_bessel3br_esc(fin_t: float, init_x: float, fin_x: float, ue_x: float,
     i0 = 1
     if not 3 * ue_x ** 2 > fin_t:
         seq = [0]
-        for i, s in enumerate(gen, i0):
+        for i, (s, _) in enumerate(zip(series_bessel3br_esc(fin_t, init_x, fin_x, ue_x), gen), i0):
             seq.append(s)
             if (i > 2 and i % 2 and seq[i] < 1 and seq[i - 2] > seq[i] > seq[i - 1]) or (seq[i] == seq[i - 1]):
                 i0 = i + 1
@@ -382,7 +382,7 @@ def series_brownbr_esc(fin_t: float,
         num_seq = series_brownbr_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_brownbr_esc(fin_t, init_x, fin_x, ub_x), 1, None)
         for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+            yield 1 - (1 - r) / (1 - s) if s < 1 else -np.inf
 
     # handle unbounded case
     s = 0
@@ -427,7 +427,7 @@ def series_bessel3br_esc(fin_t: float,
         num_seq = series_bessel3br_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_bessel3br_esc(fin_t, init_x, fin_x, ub_x), 1, None)
         for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+            yield 1 - (1 - r) / (1 - s) if s < 1 else -np.inf
 
     # handle unbounded case starting from positive value
     if init_x != 0:
-- 
2.43.0


From 3674b8d9cac130d6672e69a003eb61bea87d51b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 14/26] fix: ito mcem restarted every iteration from the
 initial parameter

---
 ctbayes/ito/mcem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcem.py b/ctbayes/ito/mcem.py
index ca80f4c..65e6635 100755
--- a/ctbayes/ito/mcem.py
+++ b/ctbayes/ito/mcem.py
@@ -33,11 +33,12 @@ class Controls(NamedTuple):
 def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np.random.Generator
                        ) -> Iterator[Tuple[float, np.ndarray, List[seed.Partition]]]:
 
-    zz = [mod.sample_aug(init_thi, mod.t, mod.vt, ome)]
+    thi = init_thi
+    zz = [mod.sample_aug(thi, mod.t, mod.vt, ome)]
     n_particles = 1
     obj_nil = -np.inf
     while True:
-        obj, thi, zz = iterate_em(init_thi, zz[-1], n_particles, mod, ctrl, ome)
+        obj, thi, zz = iterate_em(thi, zz[-1], n_particles, mod, ctrl, ome)
         n_particles = int((n_particles ** (1 / ctrl.learning_rate) + 1) ** ctrl.learning_rate)
         yield obj, thi, zz
         if np.abs(obj - obj_nil) < ctrl.ftol:
-- 
2.43.0


From c727b63dd8acc747aaacdad0df45ec6f408a6cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 15/26] fix: seed.sample_bridge accepted layers with weights
 above one, ignoring the infimum of phi

---
 ctbayes/ea3lib/seed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctbayes/ea3lib/seed.py b/ctbayes/ea3lib/seed.py
index 00bd92a..e28b437 100755
--- a/ctbayes/ea3lib/seed.py
+++ b/ctbayes/ea3lib/seed.py
@@ -49,12 +49,15 @@ def sample_bridge(bounds_x: (float, float),
     assert bounds_x[0] < bounds_x[1]
     assert 0 <= max_props
 
+    t, x = denorm_rsde(np.array([0, 1]), np.zeros(2))
+    cent_phi, _, _ = eval_bounds_disc(np.min(x), np.max(x))
+
     while True:
 
         for _ in range(max_props):
             proposal = sample_raw_seed(bounds_x, norm_rsde, denorm_rsde, ome)
             success, log_weight, proposal = flip_poisson_coin(proposal, norm_rsde, denorm_rsde, eval_disc, eval_bounds_disc, ome)
-            if success and np.log(ome.uniform()) < log_weight:
+            if success and np.log(ome.uniform()) < log_weight + (t[1] - t[0]) * cent_phi:
                 break
         else:
             raise BudgetConstraintError('None of the proposals were accepted.')
-- 
2.43.0


From 9b697d32e38ded0fa4cdbe951ff0bc6bc679ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 16/26] fix: raw skeletons with asymmetric or one-sided bounds
 left their bounds and had the wrong law

---
 ctbayes/ea3lib/skeleton.py | 10 +++++++---
 ctbayes/sdelib/layers.py   | 40 ++++++++++++++++++++++++++++++++++----
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/ctbayes/ea3lib/skeleton.py b/ctbayes/ea3lib/skeleton.py
index 11571b9..4bc206f 100755
--- a/ctbayes/ea3lib/skeleton.py
+++ b/ctbayes/ea3lib/skeleton.py
@@ -66,11 +66,15 @@ def sample_raw_skeleton(fin_t: float, init_x: float, fin_x: float, bounds_x: (fl
     """
 
     lo_anchor, lo_sector, hi_sector = layers.sample_anchor(fin_t, init_x, fin_x, *bounds_x, ome=ome)
-    tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(fin_t, init_x, fin_x, lo_sector, hi_sector, ome=ome)
+    if lo_anchor:
+        inf_sector, sup_sector = lo_sector, hi_sector
+    else:
+        inf_sector, sup_sector = [(init_x + fin_x - ue_x, init_x + fin_x - le_x) for le_x, ue_x in (hi_sector, lo_sector)]
+    tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(fin_t, init_x, fin_x, inf_sector, sup_sector, ome=ome)
     skel = Skeleton(np.array([0, tight_t, fin_t]), np.array([init_x, tight_x, fin_x]), tight_x, loose_x, hit_x, hit_i)
-    if ome.uniform() < .5:
+    if lo_anchor:
         return skel
-    return flip_skeleton(skel)
+    return flip_skeleton(skel)._replace(loose_x=lo_sector[0], hit_x=lo_sector[1])
 
 
 def flip_poisson_coin(skel: Skeleton, eval_disc: Callable[[np.ndarray], np.ndarray],
diff --git a/ctbayes/sdelib/layers.py b/ctbayes/sdelib/layers.py
index 51c7949..88209c9 100755
--- a/ctbayes/sdelib/layers.py
+++ b/ctbayes/sdelib/layers.py
@@ -116,12 +116,44 @@ def sample_anchor(fin_t: float, init_x: float, fin_x: float, lb_x: float = -np.i
     in_layer, ou_layer = [compute_edges(layer_ix - i, fin_t, init_x, fin_x, lb_x, ub_x) for i in (0, 1)]
     lo_sector, hi_sector = (in_layer[0], ou_layer[0]), (ou_layer[1], in_layer[1])
 
-    # assess sector probabilities
-    p_lo = hitting.cdf_brownbr_min(lo_sector[1], fin_t, init_x, fin_x, lo_sector[0])
-    p_hi = hitting.cdf_brownbr_min(-hi_sector[0], fin_t, -fin_x, -init_x, -hi_sector[1])
+    # the innermost layer is anchored at its minimum
+    if layer_ix == 1:
+        return True, lo_sector, hi_sector
+
+    # assess sector probabilities, where paths that reach both sectors are shared equally
+    p_stay, p_prev, p_not_hi, p_not_lo = [
+        eval_stay_prob(fin_t, init_x, fin_x, le_x, ue_x)
+        for le_x, ue_x in (in_layer, ou_layer, (lo_sector[0], hi_sector[0]), (lo_sector[1], hi_sector[1]))]
+    p_lo = (1 + (p_not_hi - p_not_lo) / (p_stay - p_prev)) / 2
 
     # simulate anchor sector
-    return ome.uniform() < p_lo / (p_lo + p_hi), lo_sector, hi_sector
+    return ome.uniform() < p_lo, lo_sector, hi_sector
+
+
+def eval_stay_prob(fin_t: float, init_x: float, fin_x: float, le_x: float, ue_x: float) -> float:
+    """Compute the probability that a Brownian bridge stays between two edges.
+
+    :param fin_t:
+    :param init_x:
+    :param fin_x:
+    :param le_x:
+    :param ue_x:
+    :return:
+    """
+
+    if not le_x < min(init_x, fin_x) or not max(init_x, fin_x) < ue_x:
+        return 0
+    if np.isinf(ue_x):
+        return 1 - hitting.cdf_brownbr_min(le_x, fin_t, init_x, fin_x)
+    if np.isinf(le_x):
+        return 1 - hitting.cdf_brownbr_min(-ue_x, fin_t, -init_x, -fin_x)
+
+    offset, width = (le_x + ue_x) / 2, ue_x - le_x
+    p_esc = np.nan
+    for s in hitting.series_brownbr_esc(fin_t, init_x - offset, fin_x - offset, width / 2):
+        if s == p_esc:
+            return 1 - s
+        p_esc = s
 
 
 def sample_edges(fin_t: float, init_x: float, fin_x: float,
-- 
2.43.0


From 3478191236ea9337f067d4f6179b55590f889387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 17/26] fix: cir endpoint proposals ignored the probability of
 the bridge staying positive

---
 ctbayes/ito/static.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctbayes/ito/static.py b/ctbayes/ito/static.py
index 73ed5ef..c51c205 100755
--- a/ctbayes/ito/static.py
+++ b/ctbayes/ito/static.py
@@ -7,6 +7,7 @@ from toolz import curry
 from ctbayes.ea3lib import seed, skeleton
 from ctbayes.ito import mcem, mcmc
 from ctbayes.misc.ars import sample as sample_logconcave
+from ctbayes.sdelib import layers
 
 
 def assemble_model(init_thi, bounds_x, bounds_thi,
@@ -88,7 +89,10 @@ def assemble_model(init_thi, bounds_x, bounds_thi,
             return sx_eval_drift(thi, x) - np.square(x - init_x) / (2 * fin_t)
         def df(x):
             return eval_drift(thi, x) - (x - init_x) / fin_t
-        return sample_logconcave(f, df, *bounds_x, ome=ome)
+        fin_x_sampler = sample_logconcave(f, df, *bounds_x, ome=ome)
+        if np.all(np.isinf(bounds_x)):
+            return fin_x_sampler
+        return (x for x in fin_x_sampler if ome.uniform() < layers.eval_stay_prob(fin_t, init_x, x, *bounds_x))
 
     return eval_disc, eval_biased_log_lik, sample_aug, gen_normops, \
         sample_sde, maximize_posterior, sample_posterior
-- 
2.43.0


From f9e7f5caab80b1c010649eaaf5d69885346b50a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 18/26] fix: splitting and pasting hidden sections shifted
 times, rounding them off the observation times until observations were lost

---
 ctbayes/switching/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 8f9b04a..8819a69 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -225,7 +225,7 @@ def split_hidden(z: sde_seed.Partition, h: types.Anchorage, new_t: np.ndarray
 
     break_r = [0] + list(np.where(np.isin(h.t[1:-1], new_t))[0] + 1) + [len(h.t) - 1]
     z_part = [z[r0:r1] for r0, r1 in zip(break_r, break_r[1:])]
-    h_part = [types.Anchorage(h.t[r0:r1+1] - h.t[r0], h.yt[r0:r1+1], h.vt[r0:r1+1])
+    h_part = [types.Anchorage(h.t[r0:r1+1], h.yt[r0:r1+1], h.vt[r0:r1+1])
               for r0, r1 in zip(break_r, break_r[1:])]
     return z_part, h_part
 
@@ -236,7 +236,7 @@ def paste_hidden(z_part: List[sde_seed.Partition], h_part: List[types.Anchorage]
     z = sum(z_part, [])
     h = h_part[0]
     for h_ in h_part[1:]:
-        h = types.Anchorage(np.append(h.t, h_.t[1:] + h.t[-1]), np.append(h.yt, h_.yt[1:]), np.append(h.vt, h_.vt[1:]))
+        h = types.Anchorage(np.append(h.t, h_.t[1:]), np.append(h.yt, h_.yt[1:]), np.append(h.vt, h_.vt[1:]))
     return z, h
 
 
-- 
2.43.0


From fce495105f4e4dc2ca785c2477b593d9ace34d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 19/26] fix: adaptive rejection sampling failed or hung on flat
 and log-linear hull segments

---
 ctbayes/misc/ars.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 3e7a613..8095ee3 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -112,7 +112,10 @@ def gen_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray) -> np.ndarray:
     array([-0.5,  1. ])
     """
 
-    return np.diff(fx - x * dfx) / (dfx[:-1] - dfx[1:])
+    # segments of equal slope coincide, and may meet anywhere in between
+    d_slope = dfx[:-1] - dfx[1:]
+    is_line = d_slope == 0
+    return np.where(is_line, (x[:-1] + x[1:]) / 2, np.diff(fx - x * dfx) / np.where(is_line, 1, d_slope))
 
 
 def eval_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarray, x_new: float) -> float:
@@ -179,16 +182,21 @@ def sample_envelope(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarra
     """
 
     # prevent over/underflows
-    offset = np.max(dfx * (y[1:] - x) + fx)
+    offset = np.max([dfx * (y[1:] - x) + fx, dfx * (y[:-1] - x) + fx])
 
-    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / dfx
-    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / dfx
+    # flat segments have a uniform density
+    is_flat = dfx == 0
+    slope = np.where(is_flat, 1, dfx)
+    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / slope
+    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / slope
 
-    cdf = np.array([0, *np.cumsum(vol_upper - vol_lower)])
+    cdf = np.array([0, *np.cumsum(np.where(is_flat, np.exp(fx - offset) * np.diff(y), vol_upper - vol_lower))])
     norm = cdf[-1]
 
     # pick sector to sample from
     z = ome.uniform()
     i = np.searchsorted(cdf / norm, z) - 1
 
+    if is_flat[i]:
+        return y[i] + (norm * z - cdf[i]) * np.exp(offset - fx[i])
     return x[i] + (np.log((norm * z - cdf[i] + vol_lower[i]) * dfx[i]) - fx[i] + offset) / dfx[i]
-- 
2.43.0


From 2b24e748a73db0dad8d594c6bd00299a43436444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 20/26] fix: bracing started at or beyond a finite bound, where
 targets that vanish there never move

---
 ctbayes/misc/ars.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 8095ee3..5f1b083 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -83,6 +83,8 @@ def brace(f: Callable[[np.ndarray], np.ndarray], lb: float = -np.inf, ub: float
     """
 
     x0 = np.mean([np.sign(x) * np.log(max(abs(np.nan_to_num(x)), 1)) for x in (lb, ub)])
+    if not lb < x0 < ub:  # the target may vanish at finite bounds
+        x0 = lb + 1 if np.isinf(ub) else ub - 1 if np.isinf(lb) else (lb + ub) / 2
     bounds = [x if not np.isinf(x) else None for x in (lb, ub)]
     mode = minimize(lambda x: -f(x[0]), np.array([x0]), bounds=(bounds,)).x[0]
 
-- 
2.43.0


From 68c2a09be55b0b25c553283957983c6ed33cd4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 21/26] fix: CIR eval_inf_disc raised TypeError

---
 ctbayes/ito/models/cir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/cir.py b/ctbayes/ito/models/cir.py
index f78ed6a..3ead68f 100755
--- a/ctbayes/ito/models/cir.py
+++ b/ctbayes/ito/models/cir.py
@@ -49,7 +49,7 @@ def f_argmin_disc(thi):
     return ((4 * thi[1] / thi[2] ** 2 - 2 / thi[0]) ** 2 - 1 / thi[0] ** 2) ** (1 / 4)
 
 def eval_inf_disc(thi):
-    return eval_disc(thi)(None, f_argmin_disc(thi))
+    return eval_disc(thi, f_argmin_disc(thi))
 
 @curry
 def eval_grad(thi, fin_t, init_v, fin_v, t, zs):
-- 
2.43.0


From 555ac53893129d8f0f5acf8ab3751c3fe3896715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 22/26] fix: escaping a two-coin toss forgot what its second
 coin had revealed, biasing the path updates

---
 ctbayes/misc/bfactories.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/misc/bfactories.py b/ctbayes/misc/bfactories.py
index d753411..7302fcf 100755
--- a/ctbayes/misc/bfactories.py
+++ b/ctbayes/misc/bfactories.py
@@ -21,7 +21,7 @@ def sample_twocoin(w1: float,
     :param c1: generator yielding heads with probability p1
     :param c2: generator yielding heads with probability p2
     :param pr_portkey: probability of escaping with coin 2
-    :param prop0:
+    :param prop0: value returned when escaping before coin 2 has been tossed; later escapes return its latest value
     :param ome:
     :param max_props: maximum number of proposals
     :return: coin flip with probability of heads w1 * p1 / (w1 * p1 + w2 * p2)
@@ -56,6 +56,7 @@ def sample_twocoin(w1: float,
             success, prop = next(c2)
             if success:
                 return False, False, prop
+            prop0 = prop
 
         # attempt escape or abort pathological proposal
         if ome.uniform() < pr_portkey:
-- 
2.43.0


From 000c21e269e3d485a1b2d20258e785dd5f14635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 23/26] fix: switching augmentations mapped back to the data
 scale twice, changing the observations of models with a transformation

---
 ctbayes/switching/static.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ctbayes/switching/static.py b/ctbayes/switching/static.py
index 302636d..6b63c27 100755
--- a/ctbayes/switching/static.py
+++ b/ctbayes/switching/static.py
@@ -48,11 +48,10 @@ def assemble_model(init_thi, bounds_x, bounds_thi,
 
         xt = reduce(vt)
         y_part = mjp_skel.partition_skeleton(y, t[1:-1])
-        xtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
+        vtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
                          in zip(y_part, xt, xt[1:])] + [vt[-1]])
         tt = np.append(np.hstack([t0 + y_.t for t0, y_ in zip(t, y_part)]), t[-1])
         ytt = np.append(np.hstack([y_.xt for y_ in y_part]), y.xt[-1])
-        vtt = dereduce(xtt)
         z = [sde_seed.sample_raw_seed(bounds_x, normop, inv_normop, ome)
              for (normop, inv_normop) in gen_normops(thi, tt, ytt, vtt)]
         return z, types.Anchorage(tt, ytt, vtt)
-- 
2.43.0


From 99d2590bb6f12b33fdfa21ebd6d655981d5dbc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 24/26] fix: the switching maximizer started from a matrix
 whose columns, not rows, sum to zero

---
 ctbayes/switching/mcem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index 044bbe2..e2f9ed9 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -37,7 +37,7 @@ def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np
                        ) -> Iterator[Tuple[float, np.ndarray, np.ndarray, List[sde_seed.Partition], List[types.Anchorage]]]:
 
     lam = mod.hyper_lam[0] / mod.hyper_lam[1]
-    lam[np.isnan(lam)] = -np.nansum(lam, 0)
+    lam[np.isnan(lam)] = -np.nansum(lam, 1)
     thi = np.repeat(init_thi[np.newaxis], lam.shape[0], 0)
     y = mjp_skel.sample_forwards(mod.t[-1], None, lam, ome)
     zz, hh = zip(mod.sample_aug(thi, y, mod.t, mod.vt, ome))
-- 
2.43.0


From 33aa27f1b945b6595812f8adb4c0eece9a824c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 25/26] fix: missing parameter bounds of the switching
 maximizer were sized by the number of regimes

---
 ctbayes/switching/mcem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index e2f9ed9..227a4a8 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -70,7 +70,7 @@ def update_param(thi_nil: np.ndarray, zz: List[sde_seed.Partition], hh: List[typ
     def f_wrap_obj(thi_: np.ndarray, i: int) -> float:
         return -np.mean(f_obj(np.vstack([thi_nil[:i], thi_, thi_nil[i+1:]]), i))
 
-    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], len(thi_nil), ctrl.bound_buffer)
+    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], thi_nil.shape[1], ctrl.bound_buffer)
     f_obj = update_objective(thi_nil, zz, hh, mod, ctrl, ome, pool)
     
     opt = pool(
@@ -159,7 +159,7 @@ def est_se(thi: np.ndarray, zz: List[sde_seed.Partition], hh: List[types.Anchora
         thi_ = np.max([np.min([thi_, opt_bounds[1]], 0), opt_bounds[0]], 0)
         return f_obj(np.vstack([thi[:i], thi_, thi[i+1:]]), i)
 
-    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], len(thi), ctrl.bound_buffer)
+    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], thi.shape[1], ctrl.bound_buffer)
     f_obj = update_objective(thi, zz, hh, mod, ctrl, ome, pool)
     se = []
     for i in range(thi.shape[0]):
-- 
2.43.0


From 32cfdfcf8bcc3df6cfd5a40483ffb442bed18d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 26/26] fix: evaluating a jump path before its start answered
 with its final state

---
 ctbayes/mjplib/skeleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 531f778..fb4944e 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -12,7 +12,7 @@ class Skeleton(NamedTuple):
     fin_t: float
 
     def __call__(self, t: np.ndarray) -> np.ndarray:
-        if np.any(t > self.fin_t):
+        if np.any(t < 0) or np.any(t > self.fin_t):
             raise ValueError
         return self.xt[np.searchsorted(self.t, t, side='right') - 1]
 
-- 
2.43.0

