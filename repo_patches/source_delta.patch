From 35bba7604779aca1c5a999480e4465aee3fc2e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 01/34] fix: keep the sign of lagged variables in the
 constraint when it may contain shocks

gen_sys negated the (already normalized) lag coefficients of the constraint
together with the shock coefficients, and did not normalize the latter by the
coefficient of the constrained variable.
---
 pydsge/gensys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 456947a..50e152a 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -248,6 +248,8 @@ def gen_sys(
 
     # y-space is the space of the original variables augmented by the shocks
     c_arg = list(vv0).index(str(self.const_var))
+    if fd0 is not None:
+        fd0 = -fd0 / fb0[c_arg]
     fc0 = -fc0 / fb0[c_arg]
     fb0 = -fb0 / fb0[c_arg]
 
@@ -291,7 +293,7 @@ def gen_sys(
     CC0 = np.block([[CC0, DD0], [np.zeros((dimeps, AA0.shape[1]))]])
     fb0 = np.pad(fb0, (0, dimeps))
     if fd0 is not None:
-        fc0 = -np.hstack((fc0, fd0))
+        fc0 = np.hstack((fc0, fd0))
     else:
         fc0 = np.pad(fc0, (0, dimeps))
 
-- 
2.43.0


From 617de03aec6d16ec794226d1f001e2f100dffa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 02/34] fix: treat forward-looking variables that are lagged in
 the constraint as hybrid

Their expectation terms were silently dropped from the system.
---
 pydsge/gensys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 50e152a..dc3d0bc 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -261,7 +261,7 @@ def gen_sys(
         print("[gen_sys:]".ljust(15, " ") + f" Backward-looking variables: {bwd_vars}", flush=True)
 
 
-    inall = ~fast0(AA0, 0) & ~fast0(CC0, 0)
+    inall = ~fast0(AA0, 0) & (~fast0(CC0, 0) | ~fast0(fc0))
 
     if verbose > 1:
         hyb_vars = [self.variables[i].name for i, e in enumerate(inall) if e]
@@ -283,6 +283,8 @@ def gen_sys(
         BB0[-sum(inall):, : -sum(inall)][:, inall] = -np.eye(sum(inall))
         CC0[:, -sum(inall):] = CC0[:, : -sum(inall)][:, inall]
         CC0[:, : -sum(inall)][:, inall] = 0
+        fc0[-sum(inall):] = fc0[: -sum(inall)][inall]
+        fc0[: -sum(inall)][inall] = 0
 
     if verbose > 1:
         print("[gen_sys:]".ljust(15, " ") + f" {sum(inall)} auxiliary variables have been added", flush=True)
-- 
2.43.0


From 1b411218d961d769451a9cd705345333d312eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 03/34] fix: chain the auxiliary variables of leads longer than
 two periods

v(+3) was replaced by the expectation of v(+2).
---
 pydsge/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 9797a5c..8a3b545 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -863,7 +863,10 @@ class DSGE(Model):
             for i in np.arange(2, abs(max_lead_endo[v]) + 1):
                 var_l = Variable(v.name + "_LEAD" + str(i - 1))
 
-                var_l_1 = v(+1)
+                if i == 2:
+                    var_l_1 = v(+1)
+                else:
+                    var_l_1 = Variable(v.name + "_LEAD" + str(i - 2), date=+1)
 
                 subs_dict[Variable(v.name, date=+i)] = var_l(+1)
                 var_ordering.append(var_l)
-- 
2.43.0


From 0fad2179c552d2ef08478b15a527d4d831cd8bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:00 +0000
Subject: [PATCH 04/34] fix: let shocks and longer lags in the constraint take
 part in the bookkeeping of lags

A shock that enters the constraint only, or a lag of more than one period in
the constraint, could not be parsed.
---
 pydsge/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 8a3b545..3cab530 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -796,7 +796,10 @@ class DSGE(Model):
         max_lead_exo = dict.fromkeys(shk_ordering)
         max_lag_exo = dict.fromkeys(shk_ordering)
 
-        all_shocks = [list(eq.atoms(Shock)) for eq in equations]
+        # the constraint may contain shocks and lags as well
+        const_eqs = [const_eq] if c_var else []
+
+        all_shocks = [list(eq.atoms(Shock)) for eq in equations + const_eqs]
 
         for s in shk_ordering:
             try:
@@ -821,8 +824,9 @@ class DSGE(Model):
                          for i in np.arange(1, abs(max_lag_exo[s]) + 1)]
                 subs_dict = dict(zip(subs1, subs2))
                 equations = [eq.subs(subs_dict) for eq in equations]
+                const_eqs = [eq.subs(subs_dict) for eq in const_eqs]
 
-        all_vars = [list(eq.atoms(Variable)) for eq in equations]
+        all_vars = [list(eq.atoms(Variable)) for eq in equations + const_eqs]
         max_lead_endo = dict.fromkeys(var_ordering)
         max_lag_endo = dict.fromkeys(var_ordering)
 
@@ -874,6 +878,9 @@ class DSGE(Model):
 
         equations = [eq.subs(subs_dict) for eq in equations]
 
+        if const_eqs:
+            const_eq = const_eqs[0].subs(subs_dict)
+
         cov = cal["covariances"]
 
         nshock = len(shk_ordering)
-- 
2.43.0


From 505db26749741ae5c45ff68516e4f7b40084eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:00 +0000
Subject: [PATCH 05/34] fix: do not silently drop lagged variables from
 measurement equations

---
 pydsge/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 3cab530..9dce211 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -340,9 +340,13 @@ class DSGE(Model):
             eq = self["obs_equations"][str(obs)]
             ZZ1[eq_i, 0] = eq.subs(subs_dict)
 
-            curr_var = filter(lambda x: x.date >= 0, eq.atoms(Variable))
+            for v in eq.atoms(Variable):
+
+                if v.date < 0:
+                    raise NotImplementedError(
+                        "Lagged variables in measurement equations are not (yet) implemented: %s" % v
+                    )
 
-            for v in curr_var:
                 v_j = vlist.index(v)
                 ZZ0[eq_i, v_j] = eq.diff(v).subs(subs_dict)
 
-- 
2.43.0


From 5f95d375ab79e209eb01ef82997f598aaa019c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:00 +0000
Subject: [PATCH 06/34] fix: do not mistake the name of a parameter set for a
 parameter vector

set_par compared the length of e.g. "calib" with the number of parameters.
---
 pydsge/mpile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index cc2be92..deb73f4 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -159,7 +159,7 @@ def get_par(
             )
 
     elif not isinstance(dummy, str) and len(dummy) == len(self.par_fix):
-        par_cand = dummy[self.prior_arg]
+        par_cand = np.array(dummy)[self.prior_arg]
     elif not isinstance(dummy, str) and len(dummy) == len(self.prior_arg):
         par_cand = dummy
     else:
@@ -315,9 +315,9 @@ def set_par(
             par = get_par(
                 self, dummy=dummy, asdict=False, full=True, verbose=verbose, **args
             )
-        elif len(dummy) == len(self.par_fix):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.par_fix):
             par = dummy
-        elif len(dummy) == len(self.prior_arg):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.prior_arg):
             par[self.prior_arg] = dummy
         else:
             par = get_par(
-- 
2.43.0


From d89c75b2b5fdf3d3a4413da07b83a33b7e573ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 07/34] fix: querying parameters does not change the current
 parameters

get_par replaced the current parameters by the calibration (and, for `cov_mat`
with `npar`, by `npar`), and returned references to the stored mode and initial
values.
---
 pydsge/mpile.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index deb73f4..d2cf8e9 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -174,8 +174,7 @@ def get_par(
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
         if dummy == "cov_mat":
-            gen_sys(self, pars, **args)
-            p = self.QQ(self.ppar)
+            p = self.QQ(self.pcompile(pars))
             if verbose:
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
@@ -190,13 +189,18 @@ def get_par(
                 )
 
         else:
-            old_par = self.par
             pars = self.par_fix
-            self.par = self.par_fix
             if dummy == "prior":
-                par_cand = prior_sampler(
-                    self, nsamples=nsamples, verbose=verbose, debug=debug, **args
-                )
+                # non-estimated parameters are taken from the calibration
+                old_par = self.par
+                self.par = self.par_fix
+                try:
+                    par_cand = prior_sampler(
+                        self, nsamples=nsamples, verbose=verbose, debug=debug, **args
+                    )
+                finally:
+                    # the sampler may have compiled the model with its draws
+                    set_par(self, old_par)
             elif dummy in ("post", "posterior"):
                 par_cand = posterior_sampler(
                     self, nsamples=nsamples, verbose=verbose, **args
@@ -204,7 +208,7 @@ def get_par(
             elif dummy == "posterior_mean" or dummy == "post_mean":
                 par_cand = post_mean(self)
             elif dummy in ("mode", "mcmc_mode", "mode_mcmc", "posterior_mode", "post_mode"):
-                par_cand = self.fdict["mode_x"]
+                par_cand = np.array(self.fdict["mode_x"])
             elif dummy == "calib":
                 par_cand = self.par_fix[self.prior_arg].copy()
             elif dummy == "prior_mean":
@@ -233,13 +237,12 @@ def get_par(
                             par_cand.append(self.prior[pp][(-2)])
 
             elif dummy == "init":
-                par_cand = self.fdict["init_value"]
+                par_cand = list(self.fdict["init_value"])
                 for i in range(self.ndim):
                     if par_cand[i] is None:
                         par_cand[i] = self.par_fix[self.prior_arg][i]
 
             else:
-                self.par = old_par
                 raise KeyError(
                     "Parameter or parametrization '%s' does not fit/exist." % dummy
                 )
-- 
2.43.0


From 6295bd34136e7808971e7dc7b4f340f6a712708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 08/34] fix: box_check compares the estimated parameters with
 their own bounds

The full parameter vector was indexed by the position in the prior.
---
 pydsge/mpile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index d2cf8e9..bd941af 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -374,6 +374,9 @@ def box_check(self, par=None):
     if par is None:
         par = self.par
 
+    if len(par) == len(self.par_fix):
+        par = np.array(par)[self.prior_arg]
+
     for i, name in enumerate(self.fdict["prior_names"]):
 
         lb, ub = self.fdict["prior_bounds"]
@@ -382,14 +385,14 @@ def box_check(self, par=None):
             print(
                 "[box_check:]".ljust(15, " ")
                 + " Parameter %s of %s lower than lb of %s."
-                % (name, par[i].round(5), lb[i])
+                % (name, np.round(par[i], 5), lb[i])
             )
 
         if par[i] > ub[i]:
             print(
                 "[box_check:]".ljust(15, " ")
                 + " Parameter %s of %s higher than ub of %s."
-                % (name, par[i].round(5), ub[i])
+                % (name, np.round(par[i], 5), ub[i])
             )
 
     return
-- 
2.43.0


From b64915d11415d4308b110456e7550a225db409e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 09/34] fix: mcmc works with the default number of tuning
 periods

The default was stored in self.tune but the (undefined) argument was used.
---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 734adc7..305d312 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -162,8 +162,8 @@ def mcmc(
 
     if temp == 1:
 
-        log_probs = sampler.get_log_prob()[-tune:]
-        chain = sampler.get_chain()[-tune:]
+        log_probs = sampler.get_log_prob()[-self.tune:]
+        chain = sampler.get_chain()[-self.tune:]
         chain = chain.reshape(-1, chain.shape[-1])
 
         arg_max = log_probs.argmax()
-- 
2.43.0


From 19bbc48aaa6f0b58db4fa172237df357657ab781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 10/34] fix: store the mode in terms of the model parameters if
 the prior is transformed

---
 pydsge/mcmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 305d312..5e9a2b8 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -170,6 +170,9 @@ def mcmc(
         mode_f = log_probs.flat[arg_max]
         mode_x = chain[arg_max].flatten()
 
+        if self.bptrans:
+            mode_x = self.bptrans(mode_x)
+
         self.fdict["mode_x"] = mode_x
         self.fdict["mode_f"] = mode_f
 
-- 
2.43.0


From 6d1905531347226320fec8c4266f683d059382d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 11/34] fix: initialize the walkers if no initial states are
 given to mcmc

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 5e9a2b8..90893e2 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -110,12 +110,12 @@ def mcmc(
                 "prior_mean",
                 asdict=False,
                 full=False,
-                nsample=nwalks,
+                nsamples=nwalks or 1,
                 verbose=verbose > 1,
             )
         else:
             p0 = get_par(
-                self, "best", asdict=False, full=False, nsample=nwalks, verbose=verbose > 1
+                self, "best", asdict=False, full=False, nsamples=nwalks or 1, verbose=verbose > 1
             )
     elif not resume:
         nwalks = p0.shape[0]
-- 
2.43.0


From c2b6ed45dbe4603402411141fdd0525eee2eb8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 12/34] fix: simulate does not require `source` if its elements
 are given

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 2e8278e..e8e7cc1 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -465,7 +465,7 @@ def simulate(
     res = wrap(
         self.mapper(runner, zip(*sample)),
         unit=" sample(s)",
-        total=len(source["pars"]),
+        total=len(pars),
         dynamic_ncols=True,
     )
 
-- 
2.43.0


From 03763c5320230628fd2c192daab478a7b9abec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 13/34] fix: traj returns the trajectory of the requested spell
 duration

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index e8e7cc1..091e41b 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -513,7 +513,7 @@ def traj(self, state, l=None, k=None, verbose=True):
 
     tmat, tterm = self.precalc_tmat
 
-    return tmat[:, l, k - 1] @ state + tterm[:, l, k - 1]
+    return tmat[:, l, k] @ state + tterm[:, l, k]
 
 
 def k_map(self, state, l=None, k=None, verbose=True):
-- 
2.43.0


From 29600cfd5b506f6ca052c0d95b2a2835320413b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 14/34] fix: drop the cached trajectory matrices when the model
 is recompiled

---
 pydsge/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 990141c..d39e803 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -187,6 +187,10 @@ def preprocess(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, parallel=False, verbose=
     l_max, k_max = self.lks
     omg, lam, x_bar = self.sys
 
+    # trajectory matrices of previous parameters are obsolete
+    if hasattr(self, "precalc_tmat"):
+        del self.precalc_tmat
+
     st = time.time()
     preprocess_jit_loc = preprocess_jit_parallel if parallel else preprocess_jit
     self.precalc_mat = preprocess_jit_loc(
-- 
2.43.0


From dde6280325195da09af4ac2b6d57d519c19bb80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 15/34] fix: load_rdict finds what save_rdict stored under the
 same name

---
 pydsge/clsmethods.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 34a8df6..a1c68eb 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -182,9 +182,12 @@ def load_rdict(self, path=None, suffix=""):
     if path is None:
         path = self.name + "_res"
 
+    if path[-4:] == ".npz":
+        path = path[:-4]
+
     path += suffix
 
-    if path[-4] != ".npz":
+    if path[-4:] != ".npz":
         path += ".npz"
 
     if not os.path.isabs(path):
-- 
2.43.0


From 14bf849d1b730e00feb8b4fe2e6afc876111b0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 16/34] fix: get_sample draws from the most recent part of the
 (given) chain

---
 pydsge/clsmethods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index a1c68eb..1bc29ce 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -336,14 +336,14 @@ def load_data(self, df, start=None, end=None):
 def get_sample(self, size, chain=None):
     """Get a (preferably recent) sample from the chain"""
 
-    chain = None or self.get_chain()
+    chain = self.get_chain() if chain is None else chain
     clen, nwalks, npar = chain.shape
-    recent = int(np.ceil(60 / nwalks))
+    recent = int(np.ceil(size / nwalks))
 
     if recent > clen:
         raise Exception("Requested sample size is larger than chain")
 
-    sample = chain[:, -recent, :].reshape(-1, npar)
+    sample = chain[-recent:].reshape(-1, npar)
     res = np.random.choice(np.arange(recent * nwalks), size, False)
 
     return sample[res]
-- 
2.43.0


From 771ca01169bedbe839549260dee6232907ff0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 17/34] fix: post_mean accepts a chain

---
 pydsge/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 7f0ae45..79939ee 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -265,7 +265,7 @@ def post_mean(self, chain=None, tune=None):
     """Calculate the mean of the posterior distribution"""
 
     tune = tune or self.get_tune
-    chain = chain or self.get_chain()[-tune:]
+    chain = self.get_chain()[-tune:] if chain is None else chain
 
     return chain.reshape(-1, chain.shape[-1]).mean(axis=0)
 
-- 
2.43.0


From ed70f0586f3e5cc65dc9e4d7d63f287ee9c8532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 18/34] fix: do not reuse a model parsed with a functions file
 if there is none

---
 pydsge/parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 9dce211..bca379b 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -30,9 +30,7 @@ def crawl_cached_models(mtxt, ftxt):
         for i in cached_models:
 
             use_cached = cached_models[i].fdict["yaml_raw"] == mtxt
-
-            if ftxt is not None:
-                use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
+            use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
 
             if use_cached:
                 processed_raw_model = cached_models[i]
-- 
2.43.0


From 9e06eb600b2797e30e429ddb31dac9039dee098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 19/34] fix: a model from the cache belongs to the directory it
 is read from

---
 pydsge/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index bca379b..a40e08a 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -519,6 +519,7 @@ class DSGE(Model):
             if verbose:
                 print("[DSGE:]".ljust(15, " ") + " Model is already parsed, reusing parsed model")
             pmodel = deepcopy(processed_raw_model)
+            pmodel.path = os.path.dirname(mfile)
 
         else:
 
-- 
2.43.0


From 844293281f7d1b1a7b9d187c1bdbc60afc4ba97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 20/34] fix: o_func accepts a single state vector

---
 pydsge/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 091e41b..4789528 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -141,8 +141,7 @@ def o_func(self, state, covs=None, pars=None):
         )
 
     if np.ndim(state) <= 1:
-        data = self.data.index if hasattr(self, "data") else None
-        obs = pd.DataFrame(obs, index=data, columns=self.observables)
+        obs = pd.Series(obs, index=self.observables)
 
     if covs is None:
         return obs
-- 
2.43.0


From 51e5611908f98aa49f7880e0629b569f88c380f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 21/34] fix: intervals of observables use the variance of the
 observables

The loadings were applied to the standard deviations of the states, which ignores
covariances and gives reversed intervals for negative loadings.
---
 pydsge/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 4789528..3c9eedf 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -150,7 +150,9 @@ def o_func(self, state, covs=None, pars=None):
     std = np.sqrt(var)
     iv95 = np.stack((state - 1.96 * std, state, state + 1.96 * std))
 
-    std_obs = (np.hstack((self.hx[0], self.hx[1])) @ std.T).T
+    hx = np.hstack((self.hx[0], self.hx[1]))
+    var_obs = np.diagonal(hx @ covs @ hx.T, axis1=1, axis2=2)
+    std_obs = np.sqrt(var_obs)
     iv95_obs = np.stack((obs - 1.96 * std_obs, obs, obs + 1.96 * std_obs))
 
     return iv95_obs, iv95
-- 
2.43.0


From 832582a1212be9baa5bf00ff6e7df6a011d3770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 22/34] fix: irfs does not alter the list of shocks

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 3c9eedf..83ca79a 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -226,7 +226,7 @@ def irfs(
         if isinstance(vec, str):
             vec = (vec, 1, 0)
         elif len(vec) == 2:
-            vec += (0,)
+            vec = (*vec, 0)
         new_shocklist.append(vec)
 
     pickled_self = dill.dumps(self, recurse=True)
-- 
2.43.0


From fb3d587bdf7063f3a693d3e468bdb49976ac059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 23/34] fix: l_max can be given without k_max

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index dc3d0bc..0493770 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -214,7 +214,7 @@ def gen_sys(
 
     # set default values of l_max & k_max
     if l_max is not None:
-        if l_max < 2 and k_max > 0:
+        if l_max < 2 and (k_max is None or k_max > 0):
             print(
                 "[get_sys:]".ljust(15, " ")
                 + " `l_max` must be at least 2 (is %s). Correcting..." % l_max
-- 
2.43.0


From b78febdf1eca6b5c59bc1639d6b0af435ea27aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:09 +0000
Subject: [PATCH 24/34] fix: irfs: solve for the durations in the initial
 period when all shocks hit later

---
 pydsge/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 83ca79a..cf1ccfa 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -268,7 +268,8 @@ def irfs(
 
             # force_init_equil will force recalculation of l,k only if the shock vec is not empty
             # but loop must be skipped if no shock is provided at all (e.g. if samplinf from a state distribution)
-            if force_init_equil and not np.any(shk_vec) and np.any([s[2] for s in new_shocklist]):
+            # (there is no equilibrium to be continued in the initial period)
+            if t and force_init_equil and not np.any(shk_vec) and np.any([s[2] for s in new_shocklist]):
                 set_k_eff = (l - 1, k) if l else (l, max(k - 1, 0))
 
                 _, (l_endo, k_endo), flag = pelf.t_func(
-- 
2.43.0


From a13246eec43c0395954525b81ea15bdd15e4d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:05 +0000
Subject: [PATCH 25/34] fix: o_func: restore the current parameters after
 evaluating a sample

---
 pydsge/tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index cf1ccfa..a8a0884 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -116,6 +116,8 @@ def o_func(self, state, covs=None, pars=None):
 
     if pars is not None:
 
+        old_par = getattr(self, "par", None)
+
         obs = []
         for sti, par in zip(state, pars):
             self.set_par(par, get_hx_only=True)
@@ -126,6 +128,10 @@ def o_func(self, state, covs=None, pars=None):
             )
             obs.append(ob)
 
+        # the system matrices still belong to the previous parameters
+        if old_par is not None:
+            self.set_par(old_par, get_hx_only=True)
+
         return np.array(obs)
 
     try:
-- 
2.43.0


From 558eee7f2f71f2b488cf10ca474db9b01c19daa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:00 +0000
Subject: [PATCH 26/34] fix: repeated linear filtering gives the same result if
 there are as many states as shocks

---
 pydsge/filtering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 519c53c..2452add 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -181,12 +181,14 @@ def run_filter(
         self.filter.F = F
         self.filter.H = np.hstack((self.hx[0], self.hx[1])), self.hx[2]
 
-        if self.filter.Q.shape[0] == self.neps:
+        # the covariance of the shocks must be mapped into the state space only once
+        if self.filter.Q.shape[0] == self.neps and self.filter.Q is not getattr(self.filter, "Q_states", None):
             E = np.vstack(
                 (pmat[1, 0][:, -self.neps:], qmat[1, 0]
                  [: -self.neps, -self.neps:])
             )
             self.filter.Q = E @ self.filter.Q @ E.T
+            self.filter.Q_states = self.filter.Q
 
         if self.filter.init_cov is None:
             p4 = sl.solve_discrete_lyapunov(
-- 
2.43.0


From da235a77223d17a2fab30588bd705f5cb9ea913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:11 +0000
Subject: [PATCH 27/34] fix: the transition works for models without
 predetermined variables

---
 pydsge/stats.py | 2 +-
 pydsge/tools.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 79939ee..9f930c8 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -184,7 +184,7 @@ def nhd(self, eps_dict, linear=False, **args):
                 eps = np.zeros(self.dimeps)
                 eps[s] = resid[s]
 
-                v = np.hstack((hd[i, s, t, -self.dimq + self.dimeps:], eps))
+                v = np.hstack((hd[i, s, t, self.dimx - self.dimq + self.dimeps:], eps))
                 p = pmat[l, k] @ v
                 q = qmat[l, k] @ v
                 hd[i, s, t + 1, :] = np.hstack((p, q))
diff --git a/pydsge/tools.py b/pydsge/tools.py
index a8a0884..3d42c35 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -81,7 +81,7 @@ def t_func(
         bterm,
         x_bar,
         *self.hx,
-        state[-dimq + dimeps:],
+        state[len(state) - dimq + dimeps:],
         shocks,
         set_l,
         set_k,
-- 
2.43.0


From 93134c61cacc65e8a22010e61bf463746620d403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:23 +0000
Subject: [PATCH 28/34] fix: do not search for spells beyond k_max if only the
 unconstrained system is available

---
 pydsge/engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index d39e803..6442aaf 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -294,7 +294,11 @@ def find_lk(bmat, bterm, x_bar, q):
             l, k = 0, 0
             loop_type = False
 
-            while True:
+            if k_max == 1:
+                # only the unconstrained system is available
+                flag = 2
+
+            while k < k_max - 1:
                 k += 1
                 if not loop_type:
                     # first iterate until r < r_bar
-- 
2.43.0


From 77b6d79ba40cfa80aae1b02c267c243c197e75e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:22 +0000
Subject: [PATCH 29/34] fix: models from dictionaries: measurement equations
 are optional, and impulse responses do not require parameters

---
 pydsge/gensys.py | 2 +-
 pydsge/tools.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 0493770..e58743d 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -240,7 +240,7 @@ def gen_sys(
 
     # start
     vv0 = self.vv
-    ZZ0 = None if not len(ZZ0) else ZZ0
+    ZZ0 = None if ZZ0 is None or not len(ZZ0) else ZZ0
 
     # z-space is the space of the original variables
     dimx = len(vv0)
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 3d42c35..3968e8a 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -212,7 +212,7 @@ def irfs(
             shocklist,
         ]
 
-    if not hasattr(self, "par"):
+    if not hasattr(self, "sys"):
         gen_sys(self, verbose=verbose, **args)
 
     if hasattr(self, "pool"):
-- 
2.43.0


From 6a4e7c62d2d137a3b130791e8b529f310cdf3f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:55 +0000
Subject: [PATCH 30/34] fix: simulate, extract and sample serially if an
 estimation was set up without a pool

---
 pydsge/estimation.py | 4 ++--
 pydsge/filtering.py  | 2 +-
 pydsge/mcmc.py       | 2 +-
 pydsge/mpile.py      | 2 +-
 pydsge/tools.py      | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index 87225ad..fa265e1 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -250,7 +250,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 
     import pathos
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         ncores = ncores or self.pool.ncpus
         self.pool.close()
     else:
@@ -281,7 +281,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 @property
 def mapper(self):
 
-    if hasattr(self, "pool") and not self.debug:
+    if getattr(self, "pool", None) and not self.debug:
         return self.pool.imap
     else:
         return map
diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 2452add..bb6a1a5 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -359,7 +359,7 @@ def extract(
     fname = self.filter.name
     verbose = max(verbose, debug)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 90893e2..ffcb411 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -79,7 +79,7 @@ def mcmc(
 
         self.pool = None
 
-    elif hasattr(self, "pool"):
+    elif getattr(self, "pool", None):
 
         from .estimation import create_pool
 
diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index bd941af..6c10113 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -73,7 +73,7 @@ def prior_sampler(
 
     self.debug |= debug
 
-    if not debug and hasattr(self, "pool"):
+    if not debug and getattr(self, "pool", None):
 
         from .estimation import create_pool
         create_pool(self)
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 3968e8a..4d07690 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -215,7 +215,7 @@ def irfs(
     if not hasattr(self, "sys"):
         gen_sys(self, verbose=verbose, **args)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
@@ -424,7 +424,7 @@ def simulate(
 
     self.debug |= debug
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
-- 
2.43.0


From 846f8ae375d68c1a2bafcd5233fe576d1ae299b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:55 +0000
Subject: [PATCH 31/34] fix: continue the backend file of a loaded model

---
 pydsge/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index ffcb411..008d674 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -126,7 +126,8 @@ def mcmc(
             # backend_file will only be loaded later if explicitely defined before
             self.fdict["backend_file"] = backend
         try:
-            backend = self.fdict["backend_file"]
+            # this is an array if the model was loaded from a file
+            backend = str(self.fdict["backend_file"])
         except KeyError:
             # this is the default case
             suffix = str(suffix) if suffix else "_sampler.h5"
-- 
2.43.0


From 295467efbd7ca9e3a55946eed64925a1b8d306ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:19 +0000
Subject: [PATCH 32/34] fix: load models that were saved without data

---
 pydsge/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index a40e08a..1bf80f0 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -621,7 +621,8 @@ class DSGE(Model):
         pmodel.fdict = fdict
         pmodel.name = str(fdict["name"])
         pmodel.path = os.path.dirname(npzfile)
-        pmodel.data = cpickle.loads(fdict["data"])
+        if "data" in fdict:
+            pmodel.data = cpickle.loads(fdict["data"])
         pmodel.fdict["model_dump"] = cpickle.dumps(pmodel, protocol=4)
 
         # pmodel.debug = platform == "darwin" or platform == "win32"
-- 
2.43.0


From dd164bc0e68fc088fbe3babad6791b3605cf4c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:41 +0000
Subject: [PATCH 33/34] fix: report about models without a chain

---
 pydsge/clsmethods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 1bc29ce..a438ef3 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -277,7 +277,7 @@ def info_m(self, verbose=True, **args):
         res += "Parameters: %s\n" % cshp[2]
         res += "Chains: %s\n" % cshp[1]
         res += "Last %s of %s samples\n" % (tune, cshp[0])
-    except (AttributeError, KeyError):
+    except (AttributeError, KeyError, NameError):
         pass
 
     if verbose:
-- 
2.43.0


From f93893583d028abec41b6ae2555698209bc7ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:47 +0000
Subject: [PATCH 34/34] fix: keep the description of loaded models if the model
 has been read before

---
 pydsge/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 1bf80f0..a24af18 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -637,6 +637,10 @@ class DSGE(Model):
             if str(pmodel.fdict[ob]) == "None":
                 pmodel.fdict[ob] = None
 
+        # a cached model would have its own description
+        description = pmodel.fdict.get("description")
+        pmodel.description = description if description is None else str(description)
+
         if verbose:
             print(
                 "[DSGE:]".ljust(15, " ")
-- 
2.43.0

