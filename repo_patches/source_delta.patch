From 63ab912e07c41420e2d0e1ad5d216bc6d22ea797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 01/38] fix: keep the caller's num_samples list intact in
 MultiFidelitySampler

get_samples popped the entries from the list it was given, so a second
call with the same list (or the num_init kept by mfUnConsBayesOpt) saw an
empty list.
---
 src/mfpml/design_of_experiment/mf_samplers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 5b572f3..91703c6 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -60,6 +60,8 @@ class MultiFidelitySampler:
         data = []
         # check the number of samples
         self._mf_samples_rules(num_samples)
+        # work on a copy, the list of the caller should not be consumed
+        num_samples = list(num_samples)
 
         # get the samples of low fidelity first
         data.insert(0, self._get_non_nested_samples(
-- 
2.43.0


From ea309e4a34f0ed950cf1b1b42608ca315caa1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 02/38] fix: draw nested MFLatinHyperCube subsets from the
 given seed

The nested subset was drawn from the global numpy random state, so
get_samples(seed=...) was not reproducible.
---
 src/mfpml/design_of_experiment/mf_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 91703c6..5d52510 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -213,7 +213,7 @@ class MFLatinHyperCube(MultiFidelitySampler):
                             data_higher_fidelity) -> None:
 
         # generate index randomly for nested sampling without repeating
-        index = np.random.choice(
+        index = np.random.RandomState(self.seed).choice(
             np.arange(data_higher_fidelity.shape[0]),
             size=num_sample,
             replace=False
-- 
2.43.0


From c3a9d18d07f315157a776379e008a929927f1c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 03/38] fix: do not draw 2**num_samples points in SobolSequence

random_base2(m=num_samples) generated 2**num_samples points only to throw
them away with reset(); from about 25 samples on it exhausted the memory
or raised.
---
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 891412d..8d76d64 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,9 +311,6 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        # generate lots of samples first
-        sobol_sampler.random_base2(m=num_samples)
-        _ = sobol_sampler.reset()
         _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
-- 
2.43.0


From d8488003e983e7e2271d37377348302ad7be4b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 04/38] fix: report the generations that ran when PSO/DE stop
 early

With stopping_error the loop breaks before num_gen, but the results took
the last row of the preallocated histories: best_x and best_y were zeros
that no evaluation ever produced.
---
 src/mfpml/optimization/evolutionary_algorithms.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 3b53049..cc32582 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -40,7 +40,7 @@ class EABase:
     ) -> None:
         fig, ax = plt.subplots()
         ax.plot(
-            np.linspace(0, self.num_gen, self.num_gen + 1, endpoint=True),
+            np.arange(len(self.gen_best)),
             self.gen_best,
             label="optimum",
         )
@@ -233,6 +233,11 @@ class PSO(EABase):
                 if self.gen_best[iter + 1, 0] < self.stopping_error:
                     break
 
+        # drop the generations that did not run (early stopping)
+        self.gen_best = self.gen_best[:iter + 2, :]
+        self.gen_best_x = self.gen_best_x[:iter + 2, :]
+        self.samples = self.samples[:iter + 2]
+        self.responses = self.responses[:iter + 2]
         # get the final results
         results = {
             "best_x": self.gen_best_x[-1, :],
@@ -400,6 +405,11 @@ class DE(EABase):
             if self.stopping_error is not None:
                 if self.gen_best[iter + 1, 0] < self.stopping_error:
                     break
+        # drop the generations that did not run (early stopping)
+        self.gen_best = self.gen_best[:iter + 2, :]
+        self.gen_best_x = self.gen_best_x[:iter + 2, :]
+        self.samples = self.samples[:iter + 2]
+        self.responses = self.responses[:iter + 2]
         # get the final results
         results = {
             "best_x": self.gen_best_x[-1, :],
-- 
2.43.0


From e0fbba3bdd953718e6e4150dd982b00ef419c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 05/38] fix: pass the surrogates to the optimizer plugged into
 an acquisition

query() with a custom optimizer called eval(x) without its surrogate
arguments and raised TypeError.
---
 src/mfpml/optimization/sf_cons_acqusitions.py   | 1 +
 src/mfpml/optimization/sf_uncons_acqusitions.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index a13115f..2c852fa 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -69,6 +69,7 @@ class SFConsAcq(ABC):
                 self.eval,
                 num_dim=obj_surrogate.num_dim,
                 design_space=obj_surrogate.bounds,
+                args=(obj_surrogate, cons_surrogate),
             )
 
         return opt_x
diff --git a/src/mfpml/optimization/sf_uncons_acqusitions.py b/src/mfpml/optimization/sf_uncons_acqusitions.py
index 2a90b30..ce64e29 100644
--- a/src/mfpml/optimization/sf_uncons_acqusitions.py
+++ b/src/mfpml/optimization/sf_uncons_acqusitions.py
@@ -66,6 +66,7 @@ class SFUnConsAcq(ABC):
                 self.eval,
                 num_dim=surrogate.num_dim,
                 design_space=surrogate.bounds,
+                args=(surrogate,),
             )
 
         return opt_x
-- 
2.43.0


From 54791d20ff0f8ac3331103554a47300e4fd4577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 06/38] fix: evaluate CEI for more than one location

pof() could not store the (n, 1) predictions for n > 1, and its (n,)
result broadcast against the (n, 1) expected improvement to (n, n).
---
 src/mfpml/optimization/sf_cons_acqusitions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index 2c852fa..d379cc2 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -132,9 +132,9 @@ class CEI(SFConsAcq):
         mse_g = np.zeros((x.shape[0], num_cons))
         for ii in range(num_cons):
             cons_surrogate = cons_surrogates[ii]
-            u_g[:, ii], mse_g[:, ii] = cons_surrogate.predict(
-                x, return_std=True)
+            u_hat, sigma = cons_surrogate.predict(x, return_std=True)
+            u_g[:, ii], mse_g[:, ii] = u_hat.ravel(), sigma.ravel()
 
         # probability of feasibility
         pof = np.prod(norm.cdf(0-u_g / (mse_g + 1e-9)), axis=1)
-        return pof
+        return pof.reshape(-1, 1)
-- 
2.43.0


From 38d0677841b3d0a5e4c06c1263ab2290edabf6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 07/38] fix: CoKriging.predict must not rescale the noise of
 the model

Every predict(return_std=True) multiplied self.noise by yh_std, so the
standard deviation changed from call to call.
---
 src/mfpml/models/co_kriging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index ff5ffec..01b62be 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -457,8 +457,8 @@ class CoKriging:
                 - c.T.dot(solve(self.LC.T, solve(self.LC, c)))
             )
             self.epis_std = np.sqrt(np.maximum(np.diag(s2), 0))*self.yh_std
-            self.noise = self.noise * self.yh_std
-            total_std = np.sqrt((self.epis_std**2 + self.noise**2))
+            noise = self.noise * self.yh_std
+            total_std = np.sqrt((self.epis_std**2 + noise**2))
             return fmean.reshape(-1, 1), total_std.reshape(-1, 1)
 
     def predict_lf(
-- 
2.43.0


From 09144871632ab9b433a8ce338624247c6509356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 08/38] fix: scale the CoKriging noise prior once per training

train() divided self.noise by yh_std again on every retraining, the
likelihood divided it a second time, and without a prior the noise found
by the first training was frozen for the later ones.
---
 src/mfpml/models/co_kriging.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 01b62be..b117948 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -350,7 +350,9 @@ class CoKriging:
             optimizer_restart=optimizer_restart,
             noise_prior=noise_prior)
 
-        # noise (unscaled, it will be scaled later)
+        # noise prior (unscaled), self.noise is set on the scale of the
+        # normalized responses for every training
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self, samples: List, responses: List) -> None:
@@ -378,10 +380,12 @@ class CoKriging:
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh.copy())
         self.sample_yl_scaled = (self.sample_yl - self.yh_mean) / self.yh_std
         # scale the noise value
-        if self.noise is not None:
-            self.noise = self.noise / self.yh_std
-            # update the noise value of the low-fidelity model
-            self.lfGP.noise = self.noise
+        if self.noise_prior is not None:
+            self.noise = self.noise_prior / self.yh_std
+        else:
+            self.noise = None
+        # update the noise value of the low-fidelity model
+        self.lfGP.noise = self.noise
         # train the low-fidelity model
         start_time = time.time()
 
@@ -569,7 +573,7 @@ class CoKriging:
                 theta = params[i, 2:]
             else:
                 rho = params[i, 0]
-                noise_sigma = self.noise / self.yh_std
+                noise_sigma = self.noise
                 theta = params[i, 1:]
             # correlation matrix R
             K = self.kernel(self.sample_xh_scaled,
-- 
2.43.0


From 94ee4dce070021df6a403e5a473e21d7f9e16cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 09/38] fix: scale the low-fidelity part in
 ScaledKriging.predict

Without return_std the scale factor was applied to the discrepancy
instead of the low-fidelity prediction.
---
 src/mfpml/models/scale_kriging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 5b0b92f..15f7c8f 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -122,8 +122,8 @@ class ScaledKriging(_mfGaussianProcess):
             prediction of high-fidelity
         """
         if not return_std:
-            return self.disc_model.predict(X) * self.rho \
-                + self.lfGP.predict(X)
+            return self.rho * self.lfGP.predict(X) \
+                + self.disc_model.predict(X)
         else:
             pre_lf, std_lf = self.lfGP.predict(X, return_std)
             pre_disc, std_disc = self.disc_model.predict(X, return_std)
-- 
2.43.0


From 38a49d56f5ffe8f76159dad78f9b8d5593cd7566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 10/38] fix: optimum and optimum_scheme of AckleyN2 were
 swapped

---
 src/mfpml/problems/sf_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 197fb0b..9a7a80b 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -506,8 +506,8 @@ class AckleyN2(Functions):
     num_obj: int = 1
     num_cons: int = 0
     input_domain: np.ndarray = np.array([[-32.0, 32.0], [-32.0, 32.0]])
-    optimum: float = [0.0, 0.0]
-    optimum_scheme: List = -200.0
+    optimum: float = -200.0
+    optimum_scheme: List = [0.0, 0.0]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From d2a67a21b31bc5d413ac998c097b85d2346fdf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 11/38] fix: the minimizer of the Goldstein-Price function is
 (0, -1)

optimum_scheme was (0, 1), where the function is 28611 instead of the
declared optimum 3.
---
 src/mfpml/problems/sf_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 9a7a80b..2a423bb 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -93,7 +93,7 @@ class GoldPrice(Functions):
     num_cons: int = 0
     input_domain = np.array([[-2.0, 2.0], [-2.0, 2.0]])
     optimum: float = 3.0
-    optimum_scheme: List = [0.0, 1.0]
+    optimum_scheme: List = [0.0, -1.0]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From 2ef84f0ce97050a1c492ca64e82cc5f551814fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 12/38] fix: correct the minimizer of the Hartman3 functions

The declared optimum -3.86278 is attained at (0.114614, 0.555649,
0.852547), the value at the former optimum_scheme was -3.8626.
---
 src/mfpml/problems/mf_functions.py | 2 +-
 src/mfpml/problems/sf_functions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 826070a..94a5ca4 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -150,7 +150,7 @@ class mf_Hartman3(MultiFidelityFunctions):
     input_domain: np.ndarray = np.array([[0.0, 1.0], [0.0, 1.0], [0.0, 1.0]])
     design_space: dict = {"x1": [0.0, 1.0], "x2": [0.0, 1.0], "x3": [0.0, 1.0]}
     optimum: float = -3.86278214782076
-    optimum_scheme: list = [0.1, 0.55592003, 0.85218259]
+    optimum_scheme: list = [0.114614, 0.555649, 0.852547]
     low_fidelity: list = ["low"]
 
     def __init__(self, num_dim: int = 3, cost: list = [1.0, 0.2]) -> None:
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 2a423bb..a9903e3 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -228,7 +228,7 @@ class Hartman3(Functions):
     num_cons: int = 0
     input_domain = np.array([[0.0, 1.0], [0.0, 1.0], [0.0, 1.0]])
     optimum: float = -3.86278214782076
-    optimum_scheme: List = [0.1, 0.55592003, 0.85218259]
+    optimum_scheme: List = [0.114614, 0.555649, 0.852547]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From bbefa3d9563f84870f9d5e045e5765717232be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 13/38] fix: mf_Park91A is defined on the boundary x1 = 0 of
 its domain

The division by x1**2 returned NaN there.
---
 src/mfpml/problems/mf_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 94a5ca4..8fcf867 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -950,7 +950,9 @@ class mf_Park91A(MultiFidelityFunctions):
         x4 = x[:, 3]
 
         # calculate the terms
-        term1 = x1/2 * (np.sqrt(1 + (x2 + x3**2) * x4/x1**2) - 1)
+        # x1/2 * (sqrt(1 + (x2 + x3**2) * x4/x1**2) - 1), without the
+        # division that is undefined on the boundary x1 = 0
+        term1 = (np.sqrt(x1**2 + (x2 + x3**2) * x4) - x1) / 2
         term2 = (x1 + 3*x4)*np.exp(1 + np.sin(x3))
 
         # calculate the objective function
-- 
2.43.0


From 23ac4d524b7e953ee2949cb92f9a3eafa8ebc628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 14/38] fix: mf_CurrinExp.lf truncated its shifts for integer
 input

---
 src/mfpml/problems/mf_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 8fcf867..4e5c737 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -754,7 +754,7 @@ class mf_CurrinExp(MultiFidelityFunctions):
     def lf(x: np.ndarray) -> np.ndarray:
 
         # reshape the input
-        x = np.atleast_2d(x)
+        x = np.atleast_2d(x).astype(float)
 
         # calculate the terms
         xx = x.copy()
-- 
2.43.0


From eaceae3857b3f7b6ee5e084bf88ea8d9395ec49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 15/38] fix: keep the data of an Ackley/Thevenot instance on
 the instance

The constructors wrote dimension, domain and optimum to the class, so
creating a second problem changed the metadata of the first.
---
 src/mfpml/problems/functions.py    | 10 +++++-----
 src/mfpml/problems/sf_functions.py | 19 +++++++------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/mfpml/problems/functions.py b/src/mfpml/problems/functions.py
index bb09e83..c1e0a54 100644
--- a/src/mfpml/problems/functions.py
+++ b/src/mfpml/problems/functions.py
@@ -227,7 +227,7 @@ class Functions(ABC):
         dimension: int
             dimension of the problem
         """
-        return self.__class__.num_dim
+        return self.num_dim
 
     @property
     def _get_low_fidelity(self) -> list:
@@ -240,7 +240,7 @@ class Functions(ABC):
 
         """
 
-        return self.__class__.low_fidelity
+        return self.low_fidelity
 
     @property
     def _optimum(self) -> float:
@@ -252,7 +252,7 @@ class Functions(ABC):
             name of the class
 
         """
-        return self.__class__.optimum
+        return self.optimum
 
     @property
     def _optimum_variable(self) -> list:
@@ -264,7 +264,7 @@ class Functions(ABC):
             Best design scheme
 
         """
-        return self.__class__.optimum_scheme
+        return self.optimum_scheme
 
     @property
     def _input_domain(self) -> np.ndarray:
@@ -274,7 +274,7 @@ class Functions(ABC):
         -------
 
         """
-        return self.__class__.input_domain
+        return self.input_domain
 
 
 class FunctionWrapper:
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index a9903e3..138d71a 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -380,7 +380,7 @@ class Thevenot(Functions):
         )
         self.m = m
         self.beta = beta
-        # update the information of function class
+        # update the information of this instance
         self.__update_parameters()
 
     def f(self, x: np.ndarray) -> np.ndarray:
@@ -404,14 +404,12 @@ class Thevenot(Functions):
 
     def __update_parameters(self):
 
-        self.__class__.num_dim = self.num_dim
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for i in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for i in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class Ackley(Functions):
@@ -453,7 +451,7 @@ class Ackley(Functions):
         self.a = a
         self.b = b
         self.c = c
-        # update the information of function class
+        # update the information of this instance
         self.__update_parameters()
 
     def get_param(self) -> dict[str, float]:
@@ -483,21 +481,18 @@ class Ackley(Functions):
 
     def __update_parameters(self) -> None:
         """
-        update the class variable information
+        update the information of the instance
         Returns
         -------
 
         """
 
-        self.__class__.num_dim = self.num_dim
-
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for _ in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for _ in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class AckleyN2(Functions):
-- 
2.43.0


From 8422edf4bf0026ebd617f16f35f32d51b6891082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 16/38] fix: AckleyN2 refuses dimensions other than 2

---
 src/mfpml/problems/sf_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 138d71a..7449fc3 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -507,10 +507,10 @@ class AckleyN2(Functions):
 
     @classmethod
     def is_dim_compatible(cls, d):
-        assert (d is None) or (
-            isinstance(d, int) and (not d < 0)
-        ), "The dimension d must be None or a positive integer"
-        return d == 2
+        assert (
+            d == cls.num_dim
+        ), f"Can not change dimension for {cls.__name__} function"
+        return True
 
     def __init__(self, num_dim: int = 2) -> None:
         self.is_dim_compatible(d=num_dim)
-- 
2.43.0


From c36a0eec1a5f0489e714c9b9ad00652ded7fb8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 17/38] fix: GaussianProcessRegression keeps its own copy of
 the training data

y_mean and y_std are computed from the stored responses at every
prediction, so changing the array that was passed to train() afterwards
changed the predictions of the trained model.
---
 src/mfpml/models/gaussian_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 0b98649..caacd32 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -80,10 +80,10 @@ class GaussianProcessRegression:
         # get number samples
         self.num_samples = X.shape[0]
         # the original sample_x
-        self.sample_x = X
+        self.sample_x = X.copy()
         self.sample_scaled_x = self.normalize_input(X, self.bounds)
         # get the response
-        self.sample_y = Y.reshape(-1, 1)
+        self.sample_y = Y.reshape(-1, 1).copy()
         self.sample_y_scaled = self.normalize_output(self.sample_y)
 
         # optimizer hyper-parameters
-- 
2.43.0


From b0380054d4c9df84c58dfcd3b72e93b650527cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 18/38] fix: estimate the noise again when a Kriging model is
 retrained

With noise_prior=None the noise found by the first training replaced the
prior, so retraining on new data silently kept it.
---
 src/mfpml/models/gaussian_process.py     | 3 +++
 src/mfpml/models/hierarchical_kriging.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index caacd32..4235de0 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -61,6 +61,7 @@ class GaussianProcessRegression:
         # basis function
         self.regr = regr
         # noisy data prior or not
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self,
@@ -86,6 +87,8 @@ class GaussianProcessRegression:
         self.sample_y = Y.reshape(-1, 1).copy()
         self.sample_y_scaled = self.normalize_output(self.sample_y)
 
+        # without a prior, the noise is estimated again for every training
+        self.noise = self.noise_prior
         # optimizer hyper-parameters
         self._hyper_paras_optimization()
 
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 8c43517..422adb2 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -29,6 +29,7 @@ class HierarchicalKriging(_mfGaussianProcess):
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
         self.kernel = RBF(theta=np.zeros(self.num_dim), bounds=kernel_bound)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
         # define the low-fidelity model
         self.lfGP = GP(design_space=design_space,
@@ -55,6 +56,8 @@ class HierarchicalKriging(_mfGaussianProcess):
         # prediction of low-fidelity at high-fidelity locations
         F = self.predict_lf(X)
         self.F = (F-self.yh_mean)/self.yh_std
+        # without a prior, the noise is estimated again for every training
+        self.noise = self.noise_prior
         # optimize the hyper parameters
         self._optHyp()
         # update the parameters
-- 
2.43.0


From 50b6cd80b98198fdc17e67732280b4d5de5c431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 19/38] fix: run mfUnConsBayesOpt on problems without a known
 optimum

The error is 1.0 when the optimum is unknown, and with the default
stopping_error of 1.0 no iteration was ever run; the single-fidelity
optimizers continue while error >= stopping_error.
---
 src/mfpml/optimization/mf_uncons_bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index dd685b9..1d1775f 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -78,7 +78,7 @@ class mfUnConsBayesOpt:
         iteration = 0
         error = self.__update_error()
         print(f"Error: {error}")
-        while iteration < max_iter and error > stopping_error:
+        while iteration < max_iter and error >= stopping_error:
             # update the surrogate model
             update_x, fidelity = self.acquisition.query(
                 mf_surrogate=self.surrogate,
-- 
2.43.0


From e51803c3dc71f6299fe3da0aa563b25575180ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 20/38] fix: never report an infeasible best_x in BayesConsOpt

best_x was looked up among all samples with the best objective value, so
an infeasible sample with the same value was reported as well.
---
 src/mfpml/optimization/sf_cons_bo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 515cbe1..620d341 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -129,7 +129,9 @@ class BayesConsOpt(ABC):
                 == self.problem.num_cons)
             # get the best feasible sample
             self.best = np.min(self.init_obj_response[feasible_index])
-            min_index = np.where(self.init_obj_response == self.best)[0]
+            min_index = np.intersect1d(
+                np.where(self.init_obj_response == self.best)[0],
+                feasible_index)
             # get the best feasible sample
             self.best_x = self.init_sample[min_index, :]
             # record the optimization history
@@ -154,7 +156,8 @@ class BayesConsOpt(ABC):
                 == self.problem.num_cons)
             # get the best feasible sample
             min_y = np.min(self.obj_response[feasible_index])
-            min_index = np.where(self.obj_response == min_y)[0]
+            min_index = np.intersect1d(
+                np.where(self.obj_response == min_y)[0], feasible_index)
             print(f"min_index: {min_index}")
             # update best
             self.best = min_y
-- 
2.43.0


From 979ce90cf16499f18d41f29e07b0fe0ec625380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 21/38] fix: multi-fidelity models keep their own copy of the
 training data

The acquisition functions read the samples back from the model, which
still were the arrays of the caller.
---
 src/mfpml/models/co_kriging.py           | 8 ++++----
 src/mfpml/models/hierarchical_kriging.py | 4 ++--
 src/mfpml/models/mf_gaussian_process.py  | 4 ++--
 src/mfpml/models/scale_kriging.py        | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index b117948..1253629 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -369,10 +369,10 @@ class CoKriging:
             responses and 'lf' contains low-fidelity ones
         """
         # load the samples and responses at the original scale
-        self.sample_xh = samples[0]
-        self.sample_yh = responses[0]
-        self.sample_xl = samples[1]
-        self.sample_yl = responses[1]
+        self.sample_xh = samples[0].copy()
+        self.sample_yh = responses[0].copy()
+        self.sample_xl = samples[1].copy()
+        self.sample_yl = responses[1].copy()
 
         # normalize the input and output
         self.sample_xh_scaled = self.normalize_input(self.sample_xh.copy())
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 422adb2..026fba8 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -48,8 +48,8 @@ class HierarchicalKriging(_mfGaussianProcess):
             array of high-fidelity responses
         """
         # get samples
-        self.sample_xh = X
-        self.sample_yh = Y
+        self.sample_xh = X.copy()
+        self.sample_yh = Y.copy()
         # normalization
         self.sample_xh_scaled = self.normalize_input(self.sample_xh)
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh)
diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index 547a8cd..f9b8c57 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -87,9 +87,9 @@ class _mfGaussianProcess:
         # gaussian process regression will normalize the input directly
         self.lfGP.train(X, Y)
         # normalize the input
-        self.sample_xl = X
+        self.sample_xl = X.copy()
         self.sample_xl_scaled = self.normalize_input(X)
-        self.sample_yl = Y
+        self.sample_yl = Y.copy()
 
     def predict_lf(
         self, X: np.ndarray, return_std: bool = False
diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 15f7c8f..c82e826 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -97,8 +97,8 @@ class ScaledKriging(_mfGaussianProcess):
         sample_yh : np.ndarray
             array of high-fidelity responses
         """
-        self.sample_xh = sample_xh
-        self.sample_yh = sample_yh.reshape(-1, 1)
+        self.sample_xh = sample_xh.copy()
+        self.sample_yh = sample_yh.reshape(-1, 1).copy()
         if self.rho_optimize:
             self._rho_optimize()
         self.disc_model.train(self.sample_xh, self._getDisc())
-- 
2.43.0


From a8935f40629775e68ef8ca8855a89de9c4fd2df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 22/38] fix: evaluate ExtendedPI pointwise

eta had shape (n,) and broadcast the (n, 1) values to (n, n).
---
 src/mfpml/optimization/mf_acqusitions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index edf9705..314eb9b 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -519,11 +519,13 @@ class ExtendedPI(MFUnConsAcq):
         if fidelity == 0:
             cr = 1
             eta = np.prod(mf_surrogate._eval_corr(
-                x, mf_surrogate._get_sample_hf, fidelity=0), axis=1)
+                x, mf_surrogate._get_sample_hf, fidelity=0),
+                axis=1, keepdims=True)
         elif fidelity == 1:
             cr = cost_ratio
             eta = np.prod(mf_surrogate._eval_corr(
-                x, mf_surrogate._get_sample_lf, fidelity=1), axis=1)
+                x, mf_surrogate._get_sample_lf, fidelity=1),
+                axis=1, keepdims=True)
         return -pi*corr*cr*eta
 
     def query(self, mf_surrogate: _mfGaussianProcess,
-- 
2.43.0


From 56d7804f0d9d00aac79e2219fcfedee27d838f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 23/38] fix: use the standard deviation of the queried fidelity
 in VFEI

eval() computed s for the requested fidelity and then used the
high-fidelity one, so both fidelities always had the same value.
---
 src/mfpml/optimization/mf_acqusitions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 314eb9b..c4f6418 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -281,12 +281,12 @@ class VFEI(MFUnConsAcq):
         elif fidelity == 1:
             # get predicted standard deviation for low-fidelity
             _, std_lf = mf_surrogate.predict_lf(x, return_std=True)
-            s = mf_surrogate.beta * std_lf
+            s = np.abs(mf_surrogate.beta) * std_lf
         else:
             ValueError('Unknown fidelity input.')
         # expected improvement
-        z = (fmin - pre) / (std + 1e-8)
-        vfei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
+        z = (fmin - pre) / (s + 1e-8)
+        vfei = (fmin - pre) * norm.cdf(z) + s * norm.pdf(z)
         vfei[s < np.finfo(float).eps] = 0.
         return (- vfei).ravel()
 
-- 
2.43.0


From 7cb85b93fe6535cf8dd7803232d35edc09da9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 24/38] fix: ExtendedPI discourages sampling next to existing
 samples

The sample density term of the extended probability of improvement is the
product of 1 - R(x, x_i); the product of the correlations itself
underflows to zero away from all samples and hides the improvement.
---
 src/mfpml/optimization/mf_acqusitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index c4f6418..0990076 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -518,12 +518,12 @@ class ExtendedPI(MFUnConsAcq):
         corr = self.corr(x, mf_surrogate, fidelity)
         if fidelity == 0:
             cr = 1
-            eta = np.prod(mf_surrogate._eval_corr(
+            eta = np.prod(1 - mf_surrogate._eval_corr(
                 x, mf_surrogate._get_sample_hf, fidelity=0),
                 axis=1, keepdims=True)
         elif fidelity == 1:
             cr = cost_ratio
-            eta = np.prod(mf_surrogate._eval_corr(
+            eta = np.prod(1 - mf_surrogate._eval_corr(
                 x, mf_surrogate._get_sample_lf, fidelity=1),
                 axis=1, keepdims=True)
         return -pi*corr*cr*eta
-- 
2.43.0


From da3cbfdc02e829bb2cb8097360536f1bb05f1d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 25/38] fix: predictions must not depend on the position of a
 row in the batch

RBF added its 1e-10 nugget to the diagonal of any kernel matrix, also to
the covariance between the training samples and the i-th predicted point.
Multiplied by the weights of an ill-conditioned fit this changed
predictions by up to 1e-3 of the response's standard deviation depending
on how the points were ordered or batched.
---
 src/mfpml/models/kernels.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/kernels.py b/src/mfpml/models/kernels.py
index 1c2dd30..2499d6f 100644
--- a/src/mfpml/models/kernels.py
+++ b/src/mfpml/models/kernels.py
@@ -1,3 +1,5 @@
+from typing import Any
+
 import numpy as np
 from scipy.spatial.distance import cdist
 
@@ -131,7 +133,7 @@ class RBF(KernelCore):
         XY = XY = np.dot(np.sqrt(self.param) * X, (np.sqrt(self.param) * Y).T)
         dist = X_sq + Y_sq - 2 * XY
 
-        return np.exp(-dist) + np.eye(X.shape[0], Y.shape[0]) * 10 ** -10
+        return np.exp(-dist) + self._nugget(X, Y)
 
     def __call__(self,
                  X: np.ndarray,
@@ -166,7 +168,27 @@ class RBF(KernelCore):
         XY = np.dot(np.sqrt(param) * X, (np.sqrt(param) * Y).T)
         dist = X_sq + Y_sq - 2 * XY
 
-        return np.exp(-dist) + np.eye(X.shape[0], Y.shape[0]) * 10 ** -10
+        return np.exp(-dist) + self._nugget(X, Y)
+
+    @staticmethod
+    def _nugget(X: np.ndarray, Y: np.ndarray) -> Any:
+        """Small diagonal term that keeps the covariance matrix of a sample
+        set with itself positive definite. The covariance between different
+        sets has none, otherwise it would depend on the order of the rows.
+
+        Parameters
+        ----------
+        X : np.ndarray
+            array of the first samples shape=((n1, num_dims))
+        Y : np.ndarray
+            array of the second samples shape=((n2, num_dims))
+
+        Returns
+        -------
+        Any
+            diagonal matrix if X is Y, otherwise zero
+        """
+        return np.eye(X.shape[0]) * 10 ** -10 if X is Y else 0.0
 
     def set_params(self, params) -> None:
         """
-- 
2.43.0


From 68cac95ac64a2773d4f129d4a0f3c11bac6e5fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 26/38] fix: ScaledKriging uses its kernel for the discrepancy
 model

kernel_bound had no effect because the discrepancy model built a kernel of
its own, and _eval_corr evaluated a kernel that was never trained.
---
 src/mfpml/models/scale_kriging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index c82e826..992fcc2 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -80,6 +80,7 @@ class ScaledKriging(_mfGaussianProcess):
         if disc_model is None:
             self.disc_model = GaussianProcessRegression(
                 design_space=design_space,
+                kernel=self.kernel,
                 optimizer=optimizer,
                 optimizer_restart=optimizer_restart,
                 noise_prior=noise_prior
-- 
2.43.0


From 5d469c8f1cde8ab933c37b33e32214f27577bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 27/38] fix: CoKriging provides what the multi-fidelity
 acquisitions need

mfUnConsBayesOpt accepts surrogate_name='CoKriging', but the acquisition
functions read .bound and _eval_corr of the surrogate and failed.
---
 src/mfpml/models/co_kriging.py | 42 ++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 1253629..cf93e01 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -716,6 +716,48 @@ class CoKriging:
         self.yh_std = np.std(outputs)
         return (outputs - self.yh_mean) / self.yh_std
 
+    def _eval_corr(
+        self, X: np.ndarray, Xprime: np.ndarray, fidelity: int = 0
+    ) -> np.ndarray:
+        """Evaluate the correlation values based on current multi-
+        fidelity model
+
+        Parameters
+        ----------
+        X : np.ndarray
+            x
+        Xprime : np.ndarray
+            x'
+        fidelity : int, optional
+            fidelity level, 0 for high-fidelity (the difference process) and
+            1 for low-fidelity, by default 0
+
+        Returns
+        -------
+        np.ndarray
+            correlation matrix
+        """
+        X = self.normalize_input(X)
+        Xprime = self.normalize_input(Xprime)
+        if fidelity == 0:
+            return self.kernel.get_kernel_matrix(X, Xprime)
+        elif fidelity == 1:
+            return self.lfGP.kernel.get_kernel_matrix(X, Xprime)
+        else:
+            raise ValueError("Unknown fidelity input.")
+
+    @property
+    def bound(self) -> np.ndarray:
+        """Return the design space, the multi-fidelity acquisition functions
+        search in it
+
+        Returns
+        -------
+        np.ndarray
+            design space
+        """
+        return self.bounds
+
     @property
     def _get_lf_model(self) -> Any:
         """Get the low-fidelity model
-- 
2.43.0


From 5ae437349443814f0072399ec977e2b0e4edee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 28/38] fix: honour the optimizer of the multi-fidelity
 acquisition functions

query() with an optimizer did nothing and failed with UnboundLocalError.
---
 src/mfpml/optimization/mf_acqusitions.py | 56 ++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 0990076..55ebb1f 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -166,7 +166,19 @@ class AugmentedEI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # identify the best point of each fidelity by the given optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 1),
+            )
         # choose fidelity
         if opt_hf <= opt_lf:
             update_x = np.atleast_2d(x_hf)
@@ -330,7 +342,19 @@ class VFEI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # identify the best point of each fidelity by the given optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(fmin, mf_surrogate, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(fmin, mf_surrogate, 1),
+            )
         # choose fidelity
         if opt_hf <= opt_lf:
             update_x = np.atleast_2d(x_hf)
@@ -444,7 +468,19 @@ class VFLCB(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # identify the best point of each fidelity by the given optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 1),
+            )
         # choose fidelity with better optimal value
         if opt_hf <= opt_lf:
             # choose high high fidelity
@@ -572,7 +608,19 @@ class ExtendedPI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # identify the best point of each fidelity by the given optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, premin.fun, cost_ratio, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, premin.fun, cost_ratio, 1),
+            )
         # choose fidelity with better optimal value
         if opt_hf <= opt_lf:
             # choose high high fidelity
-- 
2.43.0


From a9760b026198452ce640410c8c36df9a2d6c1ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 29/38] fix: raise the ValueError for an unknown fidelity

The exception was created but not raised.
---
 src/mfpml/models/mf_gaussian_process.py  | 2 +-
 src/mfpml/optimization/mf_acqusitions.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index f9b8c57..c5c3070 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -137,7 +137,7 @@ class _mfGaussianProcess:
         elif fidelity == 1:
             return self.lfGP.kernel.get_kernel_matrix(X, Xprime)
         else:
-            ValueError("Unknown fidelity input.")
+            raise ValueError("Unknown fidelity input.")
 
     def normalize_input(self, inputs: np.ndarray) -> np.ndarray:
         """Normalize samples to range [0, 1]
diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 55ebb1f..a16b908 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -119,7 +119,7 @@ class AugmentedEI(MFUnConsAcq):
         elif fidelity == 1:
             alpha3 = cost_ratio
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # calculate the augmented expected improvement
         z = (fmin - pre) / std
         aei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
@@ -295,7 +295,7 @@ class VFEI(MFUnConsAcq):
             _, std_lf = mf_surrogate.predict_lf(x, return_std=True)
             s = np.abs(mf_surrogate.beta) * std_lf
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # expected improvement
         z = (fmin - pre) / (s + 1e-8)
         vfei = (fmin - pre) * norm.cdf(z) + s * norm.pdf(z)
@@ -423,7 +423,7 @@ class VFLCB(MFUnConsAcq):
         elif fidelity == 1:
             std = std_lf * cr
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # vflcb
         vflcb = self.kappa[0] * mean_hf - self.kappa[1] * std
         return vflcb.ravel()
-- 
2.43.0


From ab7958809b9af72c33a7918698a5879605244011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 30/38] fix: accept num_skip=0 in the Sobol samplers

fast_forward of scipy raises OverflowError for n=0, so the whole sequence
could not be drawn.
---
 src/mfpml/design_of_experiment/mf_samplers.py | 4 +++-
 src/mfpml/design_of_experiment/sf_samplers.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 5d52510..f181574 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -267,7 +267,9 @@ class MFSobolSequence(MultiFidelitySampler):
         """
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
         _ = sobol_sampler.reset()
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        # scipy can not skip zero points
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples
         samples = sobol_sampler.random(n=num_sample)
 
diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 8d76d64..63da847 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,7 +311,9 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        # scipy can not skip zero points
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
 
-- 
2.43.0


From 6d328d514527fb658d8c88806ce05e8ac5885293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 31/38] fix: Thevenot overflowed for integer input in many
 dimensions

---
 src/mfpml/problems/sf_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 7449fc3..f1a431f 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -384,6 +384,8 @@ class Thevenot(Functions):
         self.__update_parameters()
 
     def f(self, x: np.ndarray) -> np.ndarray:
+        # the product of many squared integers would overflow
+        x = np.asarray(x, dtype=float)
         # only can compute sequentially
         if x.ndim == 1:
             res = np.exp(-np.sum((x / self.beta) ** (2 * self.m)))
-- 
2.43.0


From 550540a4e2af4278aa640a3a9c47f2563b4209be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 32/38] fix: the error method of ScaledKriging finds the
 least-squares scale

---
 src/mfpml/models/scale_kriging.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 992fcc2..67987e5 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -146,13 +146,15 @@ class ScaledKriging(_mfGaussianProcess):
         """Optimize the rho value"""
         if self.rho_optimizer is None:
             if self.rho_method == "error":
-                x0 = np.random.uniform(self.rho_bound[0], self.rho_bound[1], 1)
-                optRes = minimize(
-                    self._eval_error,
-                    x0=x0,
-                    method="L-BFGS-B",
-                    bounds=np.array([self.rho_bound]),
-                )
+                # the squared error is a parabola in rho; the minimum within
+                # the bounds is the clipped linear least squares solution
+                # (a gradient search stops anywhere for small responses)
+                rho = np.linalg.lstsq(
+                    self.predict_lf(self.sample_xh),
+                    self.sample_yh,
+                    rcond=None,
+                )[0].ravel()
+                rho = np.clip(rho, self.rho_bound[0], self.rho_bound[1])
             elif self.rho_method == "bumpiness":
                 x0 = np.random.uniform(self.rho_bound[0], self.rho_bound[1], 1)
                 optRes = minimize(
@@ -161,9 +163,10 @@ class ScaledKriging(_mfGaussianProcess):
                     method="L-BFGS-B",
                     bounds=np.array([self.rho_bound]),
                 )
+                rho = optRes.x
             else:
                 pass
-            self.rho = optRes.x
+            self.rho = rho
         else:
             if self.rho_method == "error":
                 optRes, _, _ = self.rho_optimizer.run_optimizer(
-- 
2.43.0


From 6bb6023c219f1249656016ccbe456cb7ed3dcecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 33/38] fix: mfUnConsBayesOpt keeps its own copy of the best
 point

---
 src/mfpml/optimization/mf_uncons_bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index 1d1775f..88288b4 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -145,7 +145,7 @@ class mfUnConsBayesOpt:
         if fidelity == 0:
             if update_y[0][0] < self.best:
                 self.best = update_y[0][0]
-                self.best_x = update_x
+                self.best_x = np.array(update_x)
 
         # record the optimization history
         self.history_best.append(self.best)
-- 
2.43.0


From 14058750c25fc6ab76d84eddc318704055de0a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 34/38] fix: PSO and DE keep their own copy of the responses

---
 src/mfpml/optimization/evolutionary_algorithms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index cc32582..cd60a24 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -281,7 +281,7 @@ class PSO(EABase):
         """calculate the objective values for the initial population"""
         self.x = self._location_initialzer()
         self.__velocity_initialzer()
-        self.obj = self.func(self.x)
+        self.obj = np.array(self.func(self.x))
         self.obj = np.reshape(self.obj, (self.num_pop, 1))
 
         # find the best values for individuals
@@ -315,7 +315,7 @@ class PSO(EABase):
         self.samples[iter + 1, :, :] = self.x.copy()
 
     def __update_obj(self, iter: int) -> None:
-        self.obj = self.func(self.x)
+        self.obj = np.array(self.func(self.x))
         self.obj = np.reshape(self.obj, (self.num_pop, 1))
         self.responses[iter + 1, :, :] = self.obj.copy()
 
@@ -433,7 +433,7 @@ class DE(EABase):
         self.x = self._location_initialzer()
         self.v = np.zeros([self.num_pop, self.num_dim])
         self.u = np.zeros([self.num_pop, self.num_dim])
-        self.obj = self.func(self.x)
+        self.obj = np.array(self.func(self.x))
         self.obj = np.reshape(self.obj, (self.num_pop, 1))
         # find the best value for population
         self.gen_best[0, :] = self._gen_best_obj(obj=self.obj)
@@ -502,7 +502,7 @@ class DE(EABase):
             raise ValueError("This strategy is not defined! \n ")
 
     def __update_obj(self, iter: int) -> None:
-        self.obj_u = self.func(self.u)
+        self.obj_u = np.array(self.func(self.u))
         self.obj_u = np.reshape(self.obj_u, (self.num_pop, 1))
         # decide the next parent population
         for ii in range(self.num_pop):
-- 
2.43.0


From 7e5141252bc9e8cafc2d1366be8a99788748ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 35/38] fix: Sobol sequence of a flat design space skips as
 many points as it has variables

---
 src/mfpml/design_of_experiment/sf_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 63da847..e42ecc3 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -282,7 +282,7 @@ class SobolSequence(SingleFidelitySampler):
         """
         super(SobolSequence, self).__init__(design_space=design_space)
         if num_skip is None:
-            self.num_skip = len(design_space)
+            self.num_skip = self.num_dim
         else:
             self.num_skip = num_skip
 
-- 
2.43.0


From 3a5e74addc2e7d68b7d69c4d0b4104427159a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 36/38] fix: multi-fidelity Sobol design does not depend on how
 the bounds are passed

---
 src/mfpml/design_of_experiment/mf_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index f181574..b9517aa 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -251,7 +251,7 @@ class MFSobolSequence(MultiFidelitySampler):
                                               nested=nested)
 
         if num_skip is None:
-            self.num_skip = len(design_space)
+            self.num_skip = self.num_dim
         else:
             self.num_skip = num_skip
 
-- 
2.43.0


From aad145c7160cf291950f81e6bd891674edd8db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 37/38] fix: correlations of a scaled model with a given
 discrepancy model are those of that model

---
 src/mfpml/models/scale_kriging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 67987e5..52b1e80 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -87,6 +87,8 @@ class ScaledKriging(_mfGaussianProcess):
             )
         else:
             self.disc_model = disc_model
+            # correlations are those of the model in use
+            self.kernel = getattr(disc_model, "kernel", self.kernel)
 
     def _train_hf(self, sample_xh: np.ndarray, sample_yh: np.ndarray) -> None:
         """Train the discrepancy model in mf models
-- 
2.43.0


From f529cc5f83e1bccf797d39910ade772966282330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 38/38] fix: the reported log likelihood is that of the adopted
 parameters

---
 src/mfpml/models/co_kriging.py           | 6 ++++--
 src/mfpml/models/gaussian_process.py     | 3 ++-
 src/mfpml/models/hierarchical_kriging.py | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index cf93e01..ce44f48 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -196,7 +196,8 @@ class _GP:
             / self.num_samples
 
         # step 3: get the optimal log likelihood
-        self.logp = (-0.5 * self.num_samples * self.sigma2 -
+        fit = np.log(self.sigma2) if self.noise == 0.0 else self.sigma2
+        self.logp = (-0.5 * self.num_samples * fit -
                      np.sum(np.log(np.diag(self.L)))).item()
 
     def predict(self,
@@ -621,7 +622,8 @@ class CoKriging:
         gamma = solve(L.T, solve(L, (self.diff_y - self.mu_d)))
         self.sigma2 = (np.dot((self.diff_y - self.mu_d).T,
                        gamma) / self._num_xh).item()
-        self.logp = (-0.5 * self._num_xh * np.log(self.sigma2) -
+        fit = np.log(self.sigma2) if self.noise == 0.0 else self.sigma2
+        self.logp = (-0.5 * self._num_xh * fit -
                      np.sum(np.log(np.diag(L)))).item()
         # cov matrix for Co-Kriging
         self.C = np.concatenate(
diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 4235de0..74f1653 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -301,7 +301,8 @@ class GaussianProcessRegression:
             / self.num_samples
 
         # step 3: get the optimal log likelihood
-        self.logp = (-0.5 * self.num_samples * self.sigma2 -
+        fit = np.log(self.sigma2) if self.noise == 0.0 else self.sigma2
+        self.logp = (-0.5 * self.num_samples * fit -
                      np.sum(np.log(np.diag(self.L)))).item()
 
     def change_optimizer(self, optimizer: Any) -> None:
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 026fba8..5ab7d68 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -259,5 +259,6 @@ class HierarchicalKriging(_mfGaussianProcess):
                              self.gamma) / self._num_xh
 
         # step 3: get the optimal log likelihood
-        self.logp = (-0.5 * self._num_xh * self.sigma2 -
+        fit = np.log(self.sigma2) if self.noise == 0.0 else self.sigma2
+        self.logp = (-0.5 * self._num_xh * fit -
                      np.sum(np.log(np.diag(self.L)))).item()
-- 
2.43.0

