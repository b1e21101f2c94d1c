From 463757c7c379438fac4d183f43612eb1ad8f6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 01/89] fix: secondary eclipse time is the first one after
 periastron, for scalars and arrays

---
 radvel/orbit.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/radvel/orbit.py b/radvel/orbit.py
index 281ea81..a5c53cb 100644
--- a/radvel/orbit.py
+++ b/radvel/orbit.py
@@ -56,10 +56,7 @@ def timeperi_to_timetrans(tp, per, ecc, omega, secondary=False):
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
 
         # ensure that ee is between 0 and 2*pi (always the eclipse AFTER tp)
-        if isinstance(ee, np.float64):
-            ee = ee + 2 * np.pi
-        else:
-            ee[ee < 0.0] = ee + 2 * np.pi
+        ee = np.where(ee < 0.0, ee + 2 * np.pi, ee)[()]
     else:
         f = np.pi/2 - omega                                         # true anomaly during transit
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
-- 
2.43.0


From 6e0ede53c0c0d4e16c278af80adf4ea55139a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 02/89] fix: converting parameters no longer relabels the basis
 they are expressed in

---
 radvel/basis.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 0d3a786..11c0848 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -602,9 +602,6 @@ class Basis(object):
                     _delpar('w')
                     _delpar('k')
 
-                # basis_name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -626,9 +623,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -652,9 +646,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw logk':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -679,9 +670,6 @@ class Basis(object):
                     _delpar('w')
                     _delpar('k')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc ecosw esinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -703,9 +691,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tp e w logk':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -726,9 +711,6 @@ class Basis(object):
                     _delpar('per')
                     _delpar('k')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
-- 
2.43.0


From 4fc6afbf5c5b027e84f615db9e020ef507bf41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 03/89] fix: from_synth works on DataFrames for every basis and
 with keep=False

---
 radvel/basis.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 11c0848..c62aae9 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -542,7 +542,7 @@ class Basis(object):
                 if isinstance(params_in, OrderedDict):
                     del params_out['{}{}'.format(key, num_planet)]
                 elif isinstance(params_in, pd.core.frame.DataFrame):
-                    params_out.drop('{}{}'.format(key, num_planet))
+                    params_out.drop(columns='{}{}'.format(key, num_planet), inplace=True)
 
             if newbasis == 'per tc e w k':
                 per = _getpar('per')
@@ -584,7 +584,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -607,7 +607,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -628,7 +628,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -651,7 +651,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -675,7 +675,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -696,7 +696,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
-- 
2.43.0


From c83a2874d18e0822f2d3b33045f7380ef13e2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 04/89] fix: converting to 'logper tp e w logk' does not add
 tc, which shares the slot of tp

---
 radvel/basis.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index c62aae9..de8a75d 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -705,7 +705,6 @@ class Basis(object):
 
                 _setpar('logper', np.log(per))
                 _setpar('logk', np.log(k))
-                _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
                 if not kwargs.get('keep', True):
                     _delpar('per')
-- 
2.43.0


From 90cae1def4ef802f850f81c2ec016144e1930ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 05/89] fix: from_synth(keep=False) removes every parameter of
 the old basis

---
 radvel/basis.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/radvel/basis.py b/radvel/basis.py
index de8a75d..e159c54 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -710,6 +710,16 @@ class Basis(object):
                     _delpar('per')
                     _delpar('k')
 
+        if not kwargs.get('keep', True):
+            # drop whatever else is left of the bases the parameters came from
+            newpars = newbasis.split()
+            oldpars = {par for name in BASIS_NAMES for par in name.split() if par not in newpars}
+            for num_planet in range(1, 1+self.num_planets):
+                for par in sorted(oldpars):
+                    key_name = '{}{}'.format(par, num_planet)
+                    if key_name in params_out:
+                        del params_out[key_name]
+
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
-- 
2.43.0


From aaa19cfc4782b1222c592de2d518286930cd2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 06/89] fix: to_any_basis leaves usable vary flags on the
 parameters it creates

---
 radvel/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index e159c54..299b9f6 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -113,7 +113,7 @@ class Basis(object):
             radvel.Parameters object expressed in the new basis
 
         """
-        synth_params = self.to_synth(params_in)
+        synth_params = self.to_synth(params_in, noVary=False)
         arbbasis_params = self.from_synth(synth_params, newbasis, keep=False)
         return arbbasis_params
 
-- 
2.43.0


From a262996393b02d49459aba6009acd3951fe35166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:17 +0000
Subject: [PATCH 07/89] fix: every parameter has a row in the parameter vector,
 so that names and rows stay aligned

---
 radvel/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/radvel/model.py b/radvel/model.py
index 255089a..2ffbae9 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -206,6 +206,11 @@ class Vector(object):
                          'w'+str(num_planet):-2+(5*num_planet),'k'+str(num_planet):-1+(5*num_planet),
                          'logk'+str(num_planet):-1+(5*num_planet)})
         indices.update({'dvdt':(5*self.params.num_planets),'curv':1+(5*self.params.num_planets)})
+        # any other parameter (e.g. those of a user-defined forward model)
+        for k in self.params.keys():
+            if k not in indices:
+                indices.update({k:2 + n + (5*self.params.num_planets)})
+                n += 1
         self.indices = indices
 
     def dict_to_vector(self):
-- 
2.43.0


From f4ca50b7565f6366b715acc890b8d05ed02899d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 08/89] fix: the trend is not added into the array a user's
 forward model returned

---
 radvel/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 2ffbae9..43e9d93 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -295,8 +295,9 @@ class GeneralRVModel(object):
             vel (array of floats): model at each time in `t`
         """
         vel = self._forward_model(t,self.params,self.vector,*args,**kwargs)
-        vel += self.vector.vector[self.vector.indices['dvdt']][0] * (t - self.time_base)
-        vel += self.vector.vector[self.vector.indices['curv']][0] * (t - self.time_base)**2
+        # not in place: the array belongs to the forward model
+        vel = vel + self.vector.vector[self.vector.indices['dvdt']][0] * (t - self.time_base)
+        vel = vel + self.vector.vector[self.vector.indices['curv']][0] * (t - self.time_base)**2
         return vel
 
     def array_to_params(self,param_values):
-- 
2.43.0


From cd3ed243a16cb015c650e2e7a3b8ffd356530864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:39 +0000
Subject: [PATCH 09/89] fix: decorrelation terms use exactly their own variable
 and enter the analytic offset

---
 radvel/likelihood.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 6f41f9a..1a7bdf7 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -358,28 +358,25 @@ class RVLikelihood(Likelihood):
         """
         mod = self.model(self.x)
 
+        # data minus everything but gamma
+        res = self.y - mod
+
+        if len(self.decorr_params) > 0:
+            suffix = self.gamma_param[len('gamma'):]
+            for parname in self.decorr_params:
+                var = parname[len('c1_'):len(parname)-len(suffix)]
+                if np.isfinite(self.decorr_vectors[var]).all():
+                    vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
+                    res = res - self.vector.vector[self.vector.indices[parname]][0] * vec
+
         if self.vector.vector[self.gamma_index][3] and not self.vector.vector[self.gamma_index][1]:
-            ztil = np.sum((self.y - mod)/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
+            ztil = np.sum(res/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
                    np.sum(1/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2))
             if np.isnan(ztil):
                  ztil = 0.0
             self.vector.vector[self.gamma_index][0] = ztil
 
-        res = self.y - self.vector.vector[self.gamma_index][0] - mod
-
-        if len(self.decorr_params) > 0:
-            for parname in self.decorr_params:
-                var = parname.split('_')[1]
-                pars = []
-                for par in self.decorr_params:
-                    if var in par:
-                        pars.append(self.vector.vector[self.vector.indices[par]][0])
-                pars.append(0.0)
-                if np.isfinite(self.decorr_vectors[var]).all():
-                    vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
-                    p = np.poly1d(pars)
-                    res -= p(vec)
-        return res
+        return res - self.vector.vector[self.gamma_index][0]
 
     def errorbars(self):
         """
-- 
2.43.0


From b95b2e970eab7e6d6c0b6e3a3a7098b8296bbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 10/89] fix: a non-positive-definite GP covariance gives -inf
 also where np.linalg.linalg is gone

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 1a7bdf7..52572f1 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -505,7 +505,7 @@ class GPLikelihood(RVLikelihood):
 
             return like
 
-        except (np.linalg.linalg.LinAlgError, ValueError):
+        except (np.linalg.LinAlgError, ValueError):
             warnings.warn("Non-positive definite kernel detected.", RuntimeWarning)
             return -np.inf
 
-- 
2.43.0


From 4956562a70822329ea9fa8271223a762d5bf77c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 11/89] fix: a combined data set holds the velocities of every
 instrument as they were given

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 52572f1..3087882 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -258,7 +258,7 @@ class CompositeLikelihood(Likelihood):
             like = like_list[i]
 
             self.x = np.append(self.x, like.x)
-            self.y = np.append(self.y, like.y - like.vector.vector[like.vector.indices[like.gamma_param]][0])
+            self.y = np.append(self.y, like.y)
             self.yerr = np.append(self.yerr, like.yerr)
             self.telvec = np.append(self.telvec, like.telvec)
             self.extra_params = np.append(self.extra_params, like.extra_params)
-- 
2.43.0


From 04c5a5a659026c651800e61f915db1a3d260203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 12/89] fix: a combined likelihood knows the GP hyperparameters
 of its first instrument too

---
 radvel/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 3087882..a3f6561 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -252,7 +252,7 @@ class CompositeLikelihood(Likelihood):
         self.extra_params = like0.extra_params
         self.suffixes = like0.suffix
         self.uparams = like0.uparams
-        self.hnames = []
+        self.hnames = list(getattr(like0, 'hnames', []))
 
         for i in range(1, self.nlike):
             like = like_list[i]
@@ -264,7 +264,7 @@ class CompositeLikelihood(Likelihood):
             self.extra_params = np.append(self.extra_params, like.extra_params)
             self.suffixes = np.append(self.suffixes, like.suffix)
             if hasattr(like, 'hnames'):
-                self.hnames.extend(like.hnames)
+                self.hnames.extend([h for h in like.hnames if h not in self.hnames])
             try:
                 self.uparams = self.uparams.update(like.uparams)
             except AttributeError:
-- 
2.43.0


From 1a49e22fee0cd305f82d5728d73296d0524b5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 13/89] fix: the celerite kernel uses the sorted times

---
 radvel/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index a3f6561..28f4fc4 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -584,6 +584,7 @@ class CeleriteLikelihood(GPLikelihood):
         self.y = self.y[order]
         self.yerr = self.yerr[order]
         self.N = len(self.x)
+        self.kernel.compute_distances(self.x, self.x)
 
     def logprob(self):
 
-- 
2.43.0


From d2051587b0c8e94e96363aca445d9a598035eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 14/89] fix: a quasi-periodic GP that is switched off has its
 own covariance, of the right shape

---
 radvel/gp.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index 40bca99..480b521 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -327,13 +327,12 @@ class QuasiPerKernel(Kernel):
         # If any GP parameter is 0, this is likely a "no GP" model comparison
         # In this case, return a zero covariance matrix
         if amp == 0 or per == 0 or explength == 0 or perlength == 0:
-            n = len(self.dist_se)
-            K = np.zeros((n, n))
-            if isinstance(errors, (int, float)) and errors == 0:
-                return K
-            else:
-                K[np.diag_indices_from(K)] += errors**2
-                return K
+            self.covmatrix = np.zeros(self.dist_se.shape)
+            try:
+                self.covmatrix += (errors**2) * np.identity(self.covmatrix.shape[0])
+            except ValueError:  # errors can't be added along diagonal to a non-square array
+                pass
+            return self.covmatrix
 
         # Compute covariance matrix step by step
         exp_term1 = -self.dist_se/(explength**2)
-- 
2.43.0


From 33099b4eb44e3d8912212b6948bf9dd5ad51e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 15/89] fix: the celerite kernel rejects surplus
 hyperparameters like the other kernels

---
 radvel/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index 480b521..c079534 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -402,7 +402,7 @@ class CeleriteKernel(Kernel):
             if par.startswith('gp_Prot'):
                 self.hparams['gp_Prot'] = hparams[par]
 
-        assert len(self.hparams) == 4, """
+        assert len(hparams) == 4 and len(self.hparams) == 4, """
 CeleriteKernel requires exactly 4 hyperparameters with names 'gp_B', 'gp_C', 'gp_L', and 'gp_Prot'.
         """
 
-- 
2.43.0


From 5b4def8f351601956582fd12d8312ea28f84db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 16/89] fix: Posterior.aic returns the AIC

---
 radvel/posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 654e2b7..757bd8b 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -215,7 +215,7 @@ class Posterior(Likelihood):
     def aic(self):
         """Moved to Likelihood.aic"""
 
-        raise self.likelihood.aic()
+        return self.likelihood.aic()
 
 
 def load(filename):
-- 
2.43.0


From 6cb5d09c7428e70f86ebb8db63e49f0d87b63508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:44 +0000
Subject: [PATCH 17/89] fix: celerite prediction with a negative jitter uses
 its square like the likelihood

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 28f4fc4..ae85683 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -625,7 +625,7 @@ class CeleriteLikelihood(GPLikelihood):
 
         # build celerite kernel with current values of hparams
         kernel = celerite.terms.JitterTerm(
-                log_sigma = np.log(self.vector.vector[self.jit_index][0])
+                log_sigma = np.log(np.abs(self.vector.vector[self.jit_index][0]))
                 )
 
         kernel += celerite.terms.RealTerm(
-- 
2.43.0


From 632eae8f033cb817dbca5b172251a8e551ef3e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:53 +0000
Subject: [PATCH 18/89] fix: celerite prediction at times that are not in
 increasing order

---
 radvel/likelihood.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index ae85683..f172574 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -642,7 +642,11 @@ class CeleriteLikelihood(GPLikelihood):
 
         gp = celerite.GP(kernel)
         gp.compute(self.x, self.yerr)
-        mu, var = gp.predict(self._resids(), xpred, return_var=True)
+
+        # celerite predicts at increasing times only
+        order = np.argsort(xpred)
+        mu, var = np.empty(len(xpred)), np.empty(len(xpred))
+        mu[order], var[order] = gp.predict(self._resids(), np.asarray(xpred)[order], return_var=True)
 
         stdev = np.sqrt(var)
 
-- 
2.43.0


From 481b83f9001321748bb0b9e72a195c9ed2d9c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 19/89] fix: the secondary eclipse prior compares phases modulo
 the period

---
 radvel/prior.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 5bd5754..c6e196e 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -297,7 +297,9 @@ class SecondaryEclipsePrior(Prior):
         pts = utils.t_to_phase_vector(vector, self.ts, self.planet_num)
         epts = self.ts_err / per
 
-        penalty = -0.5 * ((ts_phase - pts) / epts)**2 - 0.5*np.log((epts**2)*2.*np.pi)
+        # phases are cyclic: take the shorter way around
+        dphase = (ts_phase - pts + 0.5) % 1.0 - 0.5
+        penalty = -0.5 * (dphase / epts)**2 - 0.5*np.log((epts**2)*2.*np.pi)
 
         return penalty
 
-- 
2.43.0


From b55cd936c95f0675f5d9545af0ca1c8dcf092193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 20/89] fix: any prior can be an extra constraint in nested
 sampling, as SecondaryEclipsePrior is

---
 radvel/posterior.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 757bd8b..0334184 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -142,7 +142,8 @@ class Posterior(Likelihood):
         _logprob = 0
         for prior in self.priors:
             if prior.extra_constraint:
-                _logprob += prior(self.params, self.vector, finite=True)
+                prior_logprob = prior(self.params, self.vector)
+                _logprob += prior_logprob if np.isfinite(prior_logprob) else -1e100
         return _logprob
 
     def extra_likelihood_array(self, param_values_array):
-- 
2.43.0


From 98518a3389f313ca9bbbfdf6ad74d9fda89a3c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 21/89] fix: the nested sampling likelihood is finite also
 where the likelihood is not

---
 radvel/posterior.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 0334184..7974a6f 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -172,7 +172,9 @@ class Posterior(Likelihood):
         self.likelihood.set_vary_params(param_values_array, fast=True)
         extra_likelihood = self.extra_likelihood()
         if np.isfinite(extra_likelihood):
-            return extra_likelihood + self.likelihood.logprob()
+            _logprob = extra_likelihood + self.likelihood.logprob()
+            if np.isfinite(_logprob):
+                return _logprob
         # Ultranest requires finite values, so return very large negative instead of -inf
         return -1e100
 
-- 
2.43.0


From 4637de059b83190326e4e0d5ad6d37c02aecf0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 22/89] fix: nested sampling uses numerical and user-defined
 priors instead of ignoring them

---
 radvel/posterior.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 7974a6f..01a488f 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -57,13 +57,14 @@ class Posterior(Likelihood):
         prior_dict = dict()
         for prior in self.priors:
             try:
-                param = prior.param
+                params = [prior.param]
             except AttributeError:
-                continue
-            if param not in prior_dict:
-                prior_dict[param] = [prior]
-            else:
-                prior_dict[param] += [prior]
+                params = getattr(prior, 'param_list', [])
+            for param in params:
+                if param not in prior_dict:
+                    prior_dict[param] = [prior]
+                else:
+                    prior_dict[param] += [prior]
         return prior_dict
 
     def check_proper_priors(self):
@@ -95,6 +96,11 @@ class Posterior(Likelihood):
                     )
         for pname in prior_dict:
             for prior in prior_dict[pname]:
+                if not prior.extra_constraint and len(getattr(prior, 'param_list', [pname])) != 1:
+                    raise ValueError(
+                        "Prior transform of several parameters ({}) not supported for nested sampling. "
+                        "Use `extra_constraint=True` to put additional constraints on them".format(prior.param_list)
+                    )
                 if pname not in vary_params and not prior.extra_constraint:
                     raise ValueError(
                         "Prior transform specified for fixed parameter {}. "
-- 
2.43.0


From 28c078cc7bc9e41b8b2b76a0401c25a180e205c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 23/89] fix: EccentricityPrior takes any scalar as limit or
 number of planets

---
 radvel/prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index c6e196e..c1f3fe0 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -98,14 +98,14 @@ class EccentricityPrior(Prior):
 
     def __init__(self, num_planets, upperlims=0.99):
 
-        if type(num_planets) == int:
+        if np.ndim(num_planets) == 0:
             self.planet_list = range(1, num_planets+1)
             npl = num_planets
         else:
             self.planet_list = num_planets
             npl = len(self.planet_list)
 
-        if type(upperlims) == float:
+        if np.ndim(upperlims) == 0:
             self.upperlims = [upperlims] * npl
         else:
             assert len(upperlims) == len(self.planet_list), "Number of eccentricity \
-- 
2.43.0


From 70367619cd747c44b0f26ca22462c8d75c24bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 24/89] fix: t_to_phase works for bases with log period

---
 radvel/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index fa70ce1..04e356c 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -362,7 +362,10 @@ def t_to_phase(params, t, num_planet, cat=False):
     elif ('tp%i' % num_planet) in params:
         timeparam = 'tp%i' % num_planet
 
-    P = params['per%i' % num_planet].value
+    if ('per%i' % num_planet) in params:
+        P = params['per%i' % num_planet].value
+    else:
+        P = np.exp(params['logper%i' % num_planet].value)
     tc = params[timeparam].value
     phase = np.mod(t - tc, P)
     phase /= P
-- 
2.43.0


From ff2c2ab89dfea040549c2ed2d85b144df84e2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 25/89] fix: t_to_phase_vector has the same zero of phase as
 t_to_phase

---
 radvel/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 04e356c..c71c96a 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -378,7 +378,10 @@ def t_to_phase_vector(vector, t, num_planet, cat=False):
     synth_params = vector.params.basis.v_to_synth(vector)
 
     P = synth_params[-5+(5*num_planet)][0]
-    tc = synth_params[-4+(5*num_planet)][0]
+    if 'tc' in vector.params.basis.name.split():
+        tc = vector.vector[vector.indices['tc%i' % num_planet]][0]
+    else:
+        tc = synth_params[-4+(5*num_planet)][0]
     phase = np.mod(t - tc, P)
     phase /= P
     if cat:
-- 
2.43.0


From d208ab03518d604f720821152aff7c1fb0d9524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 26/89] fix: date2jd keeps fractions of a second

---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index c71c96a..14e08f2 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -426,7 +426,7 @@ def date2jd(date):
      """
 
     jd_td = date - datetime(2000, 1, 1, 12, 0, 0)
-    jd = 2451545.0 + jd_td.days + jd_td.seconds/86400.0
+    jd = 2451545.0 + jd_td.days + (jd_td.seconds + jd_td.microseconds/1e6)/86400.0
     return jd
 
 
-- 
2.43.0


From 249d5fa64994db508ae31edf8770b5d663c4f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 27/89] fix: geterr does not wrap the angles of the samples it
 is given

---
 radvel/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/utils.py b/radvel/utils.py
index 14e08f2..dd10564 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -468,6 +468,7 @@ def geterr(vec, angular=False):
         pass
 
     if angular:
+        vec = np.array(vec)  # the caller's samples stay as they are
         val, edges = np.histogram(vec, bins=50)
         med = edges[np.argmax(val)]
         if med > np.radians(90):
-- 
2.43.0


From b048d0ed9e3605cb82b849c60268d215dc27563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 28/89] fix: PositiveKPrior does not take log(K) for K

---
 radvel/prior.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index c1f3fe0..9b696a0 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -174,10 +174,10 @@ class PositiveKPrior(Prior):
             return vector.vector[vector.indices['{}{}'.format(key, num_planet)]][0]
 
         for num_planet in range(1, self.num_planets+1):
-            try:
-                k = _getpar('k', num_planet)
-            except KeyError:
+            if 'logk' in params.basis.name.split():
                 k = np.exp(_getpar('logk', num_planet))
+            else:
+                k = _getpar('k', num_planet)
 
             if k < 0.0:
                 return -np.inf if not finite else -1e100
-- 
2.43.0


From 621f1db3d7052c9113c46d9257d5d4ccfe95a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 29/89] fix: copies of Parameters keep the order of the
 parameters and removed ones

Unpickling or copying a Parameters object recreated the planet parameters of
its basis first, so that parameters removed from it came back without a value
and parameters added in another order were reordered.
---
 radvel/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 43e9d93..1ff19b5 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -122,10 +122,10 @@ should have only integers as keys."""
 
     def __reduce__(self):
 
-        red = (self.__class__, (self.num_planets,
-                                self.basis.name,
-                                self.planet_letters),
-                                None,None,iter(self.items()))
+        # start from an object without planets: the items bring the planets'
+        # parameters, in their order and only those that are still there
+        red = (self.__class__, (0, self.basis.name),
+               self.__dict__, None, iter(self.items()))
         return red
 
     def tex_labels(self, param_list=None):
-- 
2.43.0


From 84f95f6a0c8360fb919a46018c0e54d8b6e4850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 30/89] fix: maxlike_fitting returns the best point found, not
 the last one tried

---
 radvel/fitting.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index b4d011e..9d5b30a 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -28,14 +28,20 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
 
     """
 
+    initial = post.logprob()
+    start = np.array(post.get_vary_params())
     if verbose:
-        print("Initial loglikelihood = %f" % post.logprob())
+        print("Initial loglikelihood = %f" % initial)
         print("Performing maximum a posteriori fit...")
     with warnings.catch_warnings():
         warnings.filterwarnings("ignore", category=RuntimeWarning, message="invalid value encountered")
-        _ = scipy.optimize.minimize(
-            post.neglogprob_array, post.get_vary_params(), method=method,
+        res = scipy.optimize.minimize(
+            post.neglogprob_array, start, method=method,
             options=dict(maxiter=200, maxfev=100000, xtol=1e-8))
+        # the last point tried need not be the best one
+        final = post.logprob_array(np.atleast_1d(res.x))
+        if final < initial or (np.isnan(final) and not np.isnan(initial)):
+            post.logprob_array(start)
     post.vector.vector_to_dict()
 
     if verbose:
-- 
2.43.0


From 2eac29982ecabb57935c8567338b39ff1b514821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 31/89] fix: model_comp leaves its arguments alone

The default list was shared by all calls, so that a second comparison also
listed the models of the first; and the posterior compared was itself fitted.
---
 radvel/fitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 9d5b30a..fbf97c4 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -87,11 +87,14 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
             "The valid model comparison strings in the params argument are: " \
             + ", ".join(valid_mc_args)
 
+    # neither the list nor the posterior given are changed
+    mc_list = list(mc_list)
+
     # If there are no parameters to compare simply do a maximum likelihood fit
     #   to get BIC and AIC values among other diagnostics.
     if not params:
 
-        fitpost = maxlike_fitting(post, verbose=verbose)
+        fitpost = maxlike_fitting(copy.deepcopy(post), verbose=verbose)
 
         ndata = len(fitpost.likelihood.y)
         nfree = len(fitpost.get_vary_params())
-- 
2.43.0


From d628a5313b7efcb0f8112925c87a5569c4ef6a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 32/89] fix: model comparison lists the likelihood its BIC and
 AIC are computed from

The value listed as the log-likelihood was the log-posterior.
---
 radvel/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index fbf97c4..421c506 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -126,7 +126,7 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
         #    np.round(chi_red,2), "jitter fixed"
         # )
         pdict[r'$\ln{\mathcal{L}}$'] = (
-            np.round(fitpost.logprob(), 2), "natural log of the likelihood"
+            np.round(fitpost.likelihood.logprob(), 2), "natural log of the likelihood"
         )
         pdict['BIC'] = (
             np.round(fitpost.likelihood.bic(), 2),
-- 
2.43.0


From 849ea7475c9a462f7e4672727f9a33fea6c31c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 33/89] fix: the model without GP has no free hyperparameters
 in model comparisons

The hyperparameters were set to zero and stayed free instead of being fixed.
---
 radvel/fitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 421c506..e69a933 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -194,14 +194,16 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
         if have_gpamp:
             gpparamlist = post.likelihood.hnames
             ipost = copy.deepcopy(post)
-            allfixed = False
+            allfixed = True
             for gpparam in gpparamlist:
                 if len(gpparam) >= 6 and gpparam.startswith('gp_amp'):
                     ipost.vector.vector[ipost.vector.indices[gpparam]][0] = 0.
                 if ipost.vector.vector[ipost.vector.indices[gpparam]][1]:
                     allfixed = False
-                    ipost.vector.vector[ipost.vector.indices[gpparam]][0] = False
+                    ipost.vector.vector[ipost.vector.indices[gpparam]][1] = 0
             if not allfixed:
+                ipost.list_vary_params()
+                ipost.likelihood.list_vary_params()
                 mc_list = model_comp(ipost, newparams, mc_list=mc_list)
             post.list_vary_params()
             post.likelihood.list_vary_params()
-- 
2.43.0


From 29f716d185d0bdcaf085fa9eb6f74f7974dac89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 34/89] fix: priors on parameters a compared model does not
 have do not apply to it

With a prior that excludes the value at which such a parameter is frozen (such
as a Jeffreys prior on the amplitude of a planet that is taken away) the
log-posterior was -inf everywhere, so that the model was never fitted and the
statistics listed were those of its starting point.
---
 radvel/fitting.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index e69a933..8545321 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -52,6 +52,18 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     return post
 
 
+def _drop_priors(post, removed):
+    """Drop the priors on parameters that a model being compared does not have
+
+    They may forbid the values at which these parameters are frozen (e.g. K = 0).
+    """
+    post.priors = [
+        prior for prior in post.priors
+        if getattr(prior, 'param', None) not in removed
+        and not (getattr(prior, 'param_list', None) and set(prior.param_list) <= set(removed))
+    ]
+
+
 def model_comp(post, params=[], mc_list=[], verbose=False):
     """Model Comparison
 
@@ -202,6 +214,7 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
                     allfixed = False
                     ipost.vector.vector[ipost.vector.indices[gpparam]][1] = 0
             if not allfixed:
+                _drop_priors(ipost, gpparamlist)
                 ipost.list_vary_params()
                 ipost.likelihood.list_vary_params()
                 mc_list = model_comp(ipost, newparams, mc_list=mc_list)
@@ -228,6 +241,7 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
                     and ipost.vector.vector[ipost.vector.indices[parami]][1]:
                 cpost.vector.vector[cpost.vector.indices[parami]][0] = 1e-6
                 cpost.vector.vector[cpost.vector.indices[parami]][1] = 0
+                _drop_priors(cpost, [parami])
                 anyjitteron = True
         if anyjitteron:
             cpost.list_vary_params()
@@ -255,6 +269,7 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
                 cpost.likelihood.list_vary_params()
                 mc_list = model_comp(cpost, newparams, mc_list=mc_list)
                 ipost.vector.vector[ipost.vector.indices[cparam]][1] = 0
+                _drop_priors(ipost, [cparam])
                 anytrendparam = True
         if not anytrendparam:
             if verbose:
@@ -292,6 +307,7 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
                         if len(pari) >= 4 and pari[0:4] == 'logk':
                             cpost.vector.vector[cpost.vector.indices[pari]][0] = -np.inf
                         cpost.vector.vector[cpost.vector.indices[pari]][1] = 0
+                    _drop_priors(cpost, pparam)
                 del cpost.vary_params
                 cpost.list_vary_params()
                 cpost.likelihood.list_vary_params()
@@ -323,6 +339,7 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
                     for pari in pparam:
                         cpost.vector.vector[cpost.vector.indices[pari]][0] = 0.
                         cpost.vector.vector[cpost.vector.indices[pari]][1] = 0.
+                    _drop_priors(cpost, pparam)
                 cpost.list_vary_params()
                 cpost.likelihood.list_vary_params()
                 mc_list = model_comp(cpost, newparams, mc_list=mc_list)
-- 
2.43.0


From 4b7b07938fe151c5f8f0f4a50580e4a74121b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 35/89] fix: model_comp accepts user-defined parameters
 starting like an orbital element

A free parameter such as 'kick' or 'extra' made it raise a ValueError.
---
 radvel/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 8545321..3d28368 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -161,10 +161,10 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
             planet_letters = [ALPHABET[i] for i in range(num_planets+1)]
         jitterchecked = False
         for pari in fitpost.vector.names:
-            if (len(pari) >= lcparam) and (pari[0:lcparam] == circparam) \
+            if (len(pari) >= lcparam) and (pari[0:lcparam] == circparam) and pari[lcparam:].isdigit() \
                     and fitpost.vector.vector[fitpost.vector.indices[pari]][1]:
                 freepar.append('$K_{'+planet_letters[int(pari[lcparam+0:])]+'}$')
-            if (len(pari) >= leparam) and (pari[0:leparam] == eparam) \
+            if (len(pari) >= leparam) and (pari[0:leparam] == eparam) and pari[leparam:].isdigit() \
                     and fitpost.vector.vector[fitpost.vector.indices[pari]][1]:
                 freepar.append('$e_{'+planet_letters[int(pari[leparam+0:])]+'}$')
             if (pari == 'dvdt') \
-- 
2.43.0


From c0ef145f775f0450de9af23f8963852ee85fec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 36/89] fix: models with a trend are compared from the trend
 they were given

The trend was set to zero before the fit of the model that keeps it, which
could make that fit worse than the solution it was given.
---
 radvel/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 3d28368..62ed38e 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -263,11 +263,11 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
         anytrendparam = False
         for cparam in trendparamlist:
             if ipost.vector.vector[ipost.vector.indices[cparam]][1]:
-                ipost.vector.vector[ipost.vector.indices[cparam]][0] = 0
                 cpost = copy.deepcopy(ipost)
                 cpost.list_vary_params()
                 cpost.likelihood.list_vary_params()
                 mc_list = model_comp(cpost, newparams, mc_list=mc_list)
+                ipost.vector.vector[ipost.vector.indices[cparam]][0] = 0
                 ipost.vector.vector[ipost.vector.indices[cparam]][1] = 0
                 _drop_priors(ipost, [cparam])
                 anytrendparam = True
-- 
2.43.0


From 3acf220783c3c8904197b735e28e6a13578ea6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 37/89] fix: mcmc closes the files of raw chains

The file resumed from stayed open for the rest of the session, so that saving
to it again in the same session (e.g. resuming twice) raised an OSError.
---
 radvel/mcmc.py | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 271a4e9..f32273a 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -223,6 +223,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
     """
 
     statevars.reset()
+    h5f = None
 
     try:
         if save and savename is None:
@@ -235,28 +236,28 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             if proceedname is None:
                 raise ValueError('proceed set to true but no proceedname provided')
             else:
-                h5p = h5py.File(proceedname, 'r')
                 msg = 'Loading chains and run information from previous MCMC'
                 print(msg)
             statevars.prechains = []
             statevars.prelog_probs = []
             statevars.preaccepted = []
-            statevars.preburned = h5p['burned'][0]
-            statevars.minafactor = h5p['crit'][0]
-            statevars.maxarchange = h5p['crit'][1]
-            statevars.mintz = h5p['crit'][2]
-            statevars.maxgr = h5p['crit'][3]
-            statevars.autosamples = list(h5p['autosample'])
-            statevars.automin = list(h5p['automin'])
-            statevars.automean = list(h5p['automean'])
-            statevars.automax = list(h5p['automax'])
-            for i in range(0,int((len(h5p.keys()) - 6)/3)):
-                str_chain = str(i) + '_chain'
-                str_log_prob = str(i) + '_log_prob'
-                str_accepted = str(i) + '_accepted'
-                statevars.prechains.append(h5p[str_chain])
-                statevars.prelog_probs.append(h5p[str_log_prob])
-                statevars.preaccepted.append(h5p[str_accepted])
+            with h5py.File(proceedname, 'r') as h5p:
+                statevars.preburned = h5p['burned'][0]
+                statevars.minafactor = h5p['crit'][0]
+                statevars.maxarchange = h5p['crit'][1]
+                statevars.mintz = h5p['crit'][2]
+                statevars.maxgr = h5p['crit'][3]
+                statevars.autosamples = list(h5p['autosample'])
+                statevars.automin = list(h5p['automin'])
+                statevars.automean = list(h5p['automean'])
+                statevars.automax = list(h5p['automax'])
+                for i in range(0,int((len(h5p.keys()) - 6)/3)):
+                    str_chain = str(i) + '_chain'
+                    str_log_prob = str(i) + '_log_prob'
+                    str_accepted = str(i) + '_accepted'
+                    statevars.prechains.append(h5p[str_chain][()])
+                    statevars.prelog_probs.append(h5p[str_log_prob][()])
+                    statevars.preaccepted.append(h5p[str_accepted][()])
 
         # check if one or more likelihoods are GPs
         if isinstance(post.likelihood, radvel.likelihood.CompositeLikelihood):
@@ -290,8 +291,9 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             statevars.nwalkers = 2 * statevars.ndim
 
         if proceed:
-            if len(h5p.keys()) != (3 * statevars.ensembles + 6) or h5p['0_chain'].shape[2] != statevars.ndim \
-               or h5p['0_chain'].shape[1] != statevars.nwalkers:
+            if len(statevars.prechains) != statevars.ensembles \
+               or statevars.prechains[0].shape[2] != statevars.ndim \
+               or statevars.prechains[0].shape[1] != statevars.nwalkers:
                 raise ValueError('nensembles, nwalkers, and the number of ' +
                                  'parameters must be equal to those from previous run.')
 
@@ -488,6 +490,10 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
     except KeyboardInterrupt:
         curses.endwin()
 
+    finally:
+        if h5f is not None:
+            h5f.close()
+
 
 def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, minTz, maxGR):
     """Calculate Convergence Criterion
-- 
2.43.0


From 925c947c94cb02f853cd7dffa82c58b72dff410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 38/89] fix: mcmc takes the number of steps asked for, and
 stores each of them once

Every round of checkinterval steps restarted from the position it began with
after one step, which repeated (and stored twice) that step. A run shorter than
half a round took no step and returned the chains of the previous run.
---
 radvel/mcmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index f32273a..e9f26e6 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -277,7 +277,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
 
         statevars.ensembles = ensembles
         statevars.nwalkers = nwalkers
-        statevars.checkinterval = checkinterval - 1
+        statevars.checkinterval = checkinterval
 
         nrun = int(nrun)
 
@@ -345,7 +345,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                 sampler.backend.accepted = statevars.preaccepted[i]
                 sampler.backend.iteration = statevars.prechains[i].shape[0]
 
-        num_run = int(np.round(nrun / (checkinterval -1)))
+        num_run = max(1, int(np.round(nrun / checkinterval)))
         statevars.totsteps = nrun*statevars.nwalkers*statevars.ensembles
         statevars.mixcount = 0
         statevars.ismixed = 0
@@ -375,7 +375,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                 else:
                     p1 = sampler.get_last_sample()
                 for sample in sampler.sample(p1, store=True):
-                    mcmc_input = (sampler, p1, (checkinterval - 1))
+                    mcmc_input = (sampler, sample, (checkinterval - 1))
                     mcmc_input_array.append(mcmc_input)
 
             if serial:
-- 
2.43.0


From f3a7f3af9910faf32f8e2d9a550d6b0ce881a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 39/89] fix: mcmc starts with a free period of one day

The default scale of the initial positions was zero for per = 1 and logper = 0,
so that emcee refused them.
---
 radvel/mcmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index e9f26e6..493a738 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -318,6 +318,9 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                     pscale = .00001
                 else:
                     pscale = np.abs(0.10 * val)
+                if pscale == 0:
+                    # e.g. a period of one day: log10(val) = 0
+                    pscale = .00001
                 post.vector.vector[par][2] = pscale
             else:
                 pscale = post.vector.vector[par][2]
-- 
2.43.0


From 516a84dda84837b47a99ece644e56460b8699b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:49 +0000
Subject: [PATCH 40/89] fix: mcmc in serial leaves the posterior where it was

---
 radvel/mcmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 493a738..b3ead10 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -488,6 +488,9 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
 
         statevars.factor = [minAfactor] * len(statevars.autosamples)
 
+        # sampling in this process (serial) has moved the posterior around
+        post.set_vary_params(pi)
+
         return df
 
     except KeyboardInterrupt:
-- 
2.43.0


From 720ff06e0d49b06de713052df298fa8be6336ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:09 +0000
Subject: [PATCH 41/89] fix: the second mcmc step follows the first one

---
 radvel/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index b3ead10..e0acf0e 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -372,7 +372,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             t1 = time.time()
             mcmc_input_array = []
             for i, sampler in enumerate(statevars.samplers):
-                if sampler.iteration <= 1 or statevars.proceed_started == 0:
+                if sampler.iteration < 1 or statevars.proceed_started == 0:
                     p1 = statevars.initial_positions[i]
                     statevars.proceed_started = 1
                 else:
-- 
2.43.0


From 54ae0553dfb70d760fb2e48e658d93afc90ddb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 42/89] fix: parameters whose chains agree have all draws
 independent, instead of no Tz

---
 radvel/mcmc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index e0acf0e..7416da9 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -592,9 +592,7 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
         varz = (nsteps-1.0)/bz + varianceofmeans
         # Equation 26: T(z) in Ford 2006
         vbz = varEstimate / bz
-        tz = nchains*nsteps*vbz[vbz < 1]
-        if tz.size == 0:
-            tz = [-1]
+        tz = nchains*nsteps*np.minimum(vbz, 1)
     else:
         tz = [-1]
         minTz = -np.inf
-- 
2.43.0


From 35ba3f6898b659146fbb87fda3498ba52da49ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 43/89] fix: the variance between chains of Gelman-Rubin and Tz
 divides by their number less one

---
 radvel/mcmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 7416da9..690dbdc 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -577,7 +577,8 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
 
     # Equation 23: B(z) in Ford 2006
     means = np.mean(pars,axis=1)
-    betweenChainVariances = np.var(means,axis=1, dtype=np.float64) * nsteps
+    # (zero for a single chain)
+    betweenChainVariances = np.var(means,axis=1, dtype=np.float64, ddof=min(1, int(nchains) - 1)) * nsteps
     varEstimate = (
         (1.0 - 1.0/nsteps) * withinChainVariances
         + 1.0 / nsteps * betweenChainVariances
@@ -586,7 +587,7 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
     # Tz calculation will yield only NaNs if nchains = 1.
     # Avoid calculation and warning by skipping explicitly
     if nchains != 1:
-        varianceofmeans = np.var(means,axis=1, dtype=np.float64) / (nchains-1)
+        varianceofmeans = np.var(means,axis=1, dtype=np.float64, ddof=1)
         bz = varianceofmeans * nsteps
         # Equation 24: varhat+(z) in Ford 2006
         varz = (nsteps-1.0)/bz + varianceofmeans
-- 
2.43.0


From 3a61a3d2629ee4d0404f2899f969c75862feb9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 44/89] fix: nested sampling leaves the option dictionaries it
 is given alone

---
 radvel/nested_sampling.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 1716546..92acfbd 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -41,8 +41,8 @@ def _run_dynesty(
     """
     from dynesty import DynamicNestedSampler, NestedSampler
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if sampler_type == "static":
         sampler_class = NestedSampler
@@ -137,8 +137,8 @@ def _run_ultranest(
     from ultranest import ReactiveNestedSampler
     from ultranest.stepsampler import SliceSampler, generate_mixture_random_direction
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if "log_dir" in sampler_kwargs:
         raise ValueError(
@@ -207,7 +207,7 @@ def _run_multinest(
     """
     import pymultinest
 
-    run_kwargs = run_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
 
     # By default, assume we want a temporary output dir
     tmp = True
@@ -298,8 +298,8 @@ def _run_nautilus(
     """
     from nautilus import Sampler
 
-    sampler_kwargs = sampler_kwargs or {}
-    run_kwargs = run_kwargs or {}
+    sampler_kwargs = dict(sampler_kwargs or {})
+    run_kwargs = dict(run_kwargs or {})
     run_kwargs.setdefault("verbose", True)
 
     if "filepath" in sampler_kwargs:
-- 
2.43.0


From 82e1b82891575aaa7cf35a6de06efc4691ee7fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 45/89] fix: dynesty can write to an existing directory

---
 radvel/nested_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 92acfbd..df52485 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -85,7 +85,7 @@ def _run_dynesty(
 
     if checkpoint_file is not None and not os.path.exists(checkpoint_file):
         outdir = os.path.dirname(checkpoint_file)
-        os.makedirs(outdir)
+        os.makedirs(outdir, exist_ok=True)
 
     sampler.run_nested(**run_kwargs)
 
-- 
2.43.0


From b3fb88173fbbb0822c3d769639b049d7c7c9bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 46/89] fix: multinest without output does not delete the
 user's ./tmpdir

---
 radvel/nested_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index df52485..94f76d2 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -1,5 +1,6 @@
 import os
 import shutil
+import tempfile
 from typing import Optional
 
 import h5py
@@ -213,7 +214,7 @@ def _run_multinest(
     tmp = True
 
     if output_dir is None:
-        output_dir = "tmpdir"
+        output_dir = tempfile.mkdtemp()
     else:
         # if an actual outupt dir was specified, it is not temporary
         tmp = False
-- 
2.43.0


From ad4ad61d7b2e3358ccc4f46a1ab3dc113d45a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 47/89] fix: nested sampling leaves the posterior where it was

---
 radvel/nested_sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 94f76d2..a0ec256 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -382,6 +382,7 @@ def run(
     - `PyMultiNest <https://johannesbuchner.github.io/PyMultiNest/pymultinest.html#>`_
     """
     post.check_proper_priors()
+    start = post.get_vary_params()
 
     # Proceed automatically enables overwrite.
     overwrite = overwrite or proceed
@@ -419,7 +420,8 @@ def run(
     for i, row in df.iterrows():
         lnprob_arr[i] = post.logprob_array(row.values)
     df["lnprobability"] = lnprob_arr
-
+    # sampling has moved the posterior around
+    post.set_vary_params(start)
 
     results["samples"] = df
 
-- 
2.43.0


From b4f373b298d685170483083a2eee4ddcec494f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:27 +0000
Subject: [PATCH 48/89] fix: dynesty with proceed and no output directory
 starts afresh

---
 radvel/nested_sampling.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index a0ec256..6078e37 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -76,13 +76,8 @@ def _run_dynesty(
             len(post.name_vary_params()),
             **sampler_kwargs,
         )
-        # Dynesty cannot resume when the file does not exist
-        if (
-            proceed
-            and checkpoint_file is not None
-            and not os.path.exists(checkpoint_file)
-        ):
-            run_kwargs["resume"] = False
+        # Dynesty cannot resume when there is no file to resume from
+        run_kwargs["resume"] = False
 
     if checkpoint_file is not None and not os.path.exists(checkpoint_file):
         outdir = os.path.dirname(checkpoint_file)
-- 
2.43.0


From cce248dc04f4fcef505c88cfd7a70062d2a66516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 49/89] fix: ic --fixjitter fixes the jitter terms

---
 radvel/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radvel/driver.py b/radvel/driver.py
index 0669b86..3df5457 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -431,6 +431,9 @@ def ic_compare(args):
             for param in ipost.params:
                 if len(param) >= 3 and param[0:3] == 'jit':
                     ipost.params[param].vary = False
+                    ipost.vector.vector[ipost.vector.indices[param]][1] = 0
+            ipost.list_vary_params()
+            ipost.likelihood.list_vary_params()
 
         for compareparam in compareparams:
             assert compareparam in choices, \
-- 
2.43.0


From 6cf76c4f3d41435b32e2c848b2c7f2d844f6cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 50/89] fix: sampler options may hold '=' and be separated by
 several spaces

---
 radvel/driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 3df5457..4bc6add 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -333,9 +333,9 @@ def _process_kwargs_str(kwargs_str):
         return {}
 
     kwargs_dict = {}
-    pairs_str = kwargs_str.split(" ")
+    pairs_str = kwargs_str.split()
     for pair in pairs_str:
-        key, value = pair.split("=")
+        key, value = pair.split("=", 1)
         kwargs_dict[key] = _cast_str_arg(value)
     return kwargs_dict
 
-- 
2.43.0


From b02cfe644eb2ee4204758db405a85d79fbc1a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 51/89] fix: 'radvel ic' without -t compares the trend

---
 radvel/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index e60ee55..5e7c0c1 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -169,7 +169,7 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
 
     # Information Criteria comparison (BIC/AIC)
     psr_ic = subpsr.add_parser('ic', parents=[psr_parent],)
-    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default='trend',
+    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default=['trend'],
                         choices=['nplanets', 'e', 'trend', 'jit', 'gp'],
                         help="parameters to include in BIC/AIC model comparison"
                         )
-- 
2.43.0


From f32e689b2aa5fa8ba434117a1e7d820840b0688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:01 +0000
Subject: [PATCH 52/89] fix: 'radvel mcmc --serial False' does not run in
 serial

---
 radvel/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index 5e7c0c1..50c2b4a 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -111,7 +111,8 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
     psr_mcmc.add_argument('--thin', dest='thin', action='store', default=10, type=int,
                           help="Save one sample every N steps [default=10, save every 10th sample]"
                           )
-    psr_mcmc.add_argument('--serial', dest='serial', action='store', default=False, type=bool,
+    psr_mcmc.add_argument('--serial', dest='serial', action='store', default=False,
+                          type=lambda value: value.lower() in ('true', 't', 'yes', 'y', '1'),
                           help='''If True, run MCMC in serial instead of parallel. [False]'''
                           )
     psr_mcmc.add_argument('--save', dest='save', action='store_true',
-- 
2.43.0


From 13545b5cf031a274a9af298896efdd3c200387e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:54 +0000
Subject: [PATCH 53/89] fix: Msini of heavy companions converges, for scalars
 and arrays alike

---
 radvel/utils.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index dd10564..84b5d9e 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -10,7 +10,6 @@ from astropy import constants as c
 from astropy import units as u
 
 import radvel
-from scipy.optimize import root
 
 # Normalization.
 # RV m/s of a 1.0 Jupiter mass planet tugging on a 1.0
@@ -588,25 +587,11 @@ def Msini(K, P, Mstar, e, Msini_units='earth'):
             warnings.warn("Mpsini << Mstar assumption broken, correcting Msini calculation.", stacklevel=2)
 
         a = K*(((2*(np.pi)*G)/P)**(-1/3.))*np.sqrt(1-(e**2))
-        Msini = []
-        if isinstance(P, float):
-            n_elements = 1
-        else:
-            assert type(K) == type(P) == type(Mstar) == type(e), "All input data types must match."
-            assert K.size == P.size == Mstar.size == e.size, "All input arrays must have the same length."
-            n_elements = len(P)
-        for i in range(n_elements):
-            def func(x):
-                try:
-                    return x - a[i]*((Mstar[i]+x)**(2/3.))
-                except IndexError:
-                    return x - a * ((Mstar + x) ** (2 / 3.))
-
-            sol = root(func, Mjup)
-            Msini.append(sol.x[0])
-
-        Msini = np.array(Msini)
-        Msini = Msini/Mjup
+        # solve x = a*(Mstar + x)**(2/3): every iteration leaves less than 2/3 of the error
+        x = np.zeros_like(a)
+        for i in range(100):
+            x = a*((Mstar + x)**(2/3.))
+        Msini = x/Mjup
     
     if Msini_units.lower() == 'jupiter':
         pass
-- 
2.43.0


From 47d2a4a447d29932539e012216c93762bd26b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:58 +0000
Subject: [PATCH 54/89] fix: timebin ends for any binsize and any number of
 measurements

---
 radvel/utils.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 84b5d9e..17c299f 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -241,19 +241,16 @@ def timebin(time, meas, meas_err, binsize):
     meas = meas[ind_order]
     meas_err = meas_err[ind_order]
     ct = 0
+    time_out, meas_out, meas_err_out = [], [], []
     while ct < len(time):
-        ind = np.where((time >= time[ct]) & (time < time[ct]+binsize))[0]
+        # at least the measurements at time[ct], however small the binsize
+        ind = np.where((time >= time[ct]) & ((time < time[ct]+binsize) | (time == time[ct])))[0]
         num = len(ind)
         wt = (1./meas_err[ind])**2.     # weights based in errors
         wt = wt/np.sum(wt)              # normalized weights
-        if ct == 0:
-            time_out = [np.sum(wt*time[ind])]
-            meas_out = [np.sum(wt*meas[ind])]
-            meas_err_out = [1./np.sqrt(np.sum(1./(meas_err[ind])**2))]
-        else:
-            time_out.append(np.sum(wt*time[ind]))
-            meas_out.append(np.sum(wt*meas[ind]))
-            meas_err_out.append(1./np.sqrt(np.sum(1./(meas_err[ind])**2)))
+        time_out.append(np.sum(wt*time[ind]))
+        meas_out.append(np.sum(wt*meas[ind]))
+        meas_err_out.append(1./np.sqrt(np.sum(1./(meas_err[ind])**2)))
         ct += num
 
     return time_out, meas_out, meas_err_out
-- 
2.43.0


From c41f80e0a56eef8f699741ef81ed93826c0a6cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 55/89] fix: bins of equal values have an uncertainty of zero,
 not NaN

---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 17c299f..b7df416 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -322,7 +322,7 @@ def fastbin(x, y, nbins=30):
     with warnings.catch_warnings():
         warnings.filterwarnings("ignore", message="invalid value encountered", category=RuntimeWarning)
         bindat = sy / n
-        binerr = np.sqrt(sy2/n - bindat*bindat) / np.sqrt(n)
+        binerr = np.sqrt(np.maximum(sy2/n - bindat*bindat, 0)) / np.sqrt(n)
     bint = (_[1:] + _[:-1])/2.
 
     binN = n
-- 
2.43.0


From d3d02bfb0fbb7e383db9786d931a89c3726254a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:52 +0000
Subject: [PATCH 56/89] fix: setup files with logjit parameters can be loaded

---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index b7df416..50d1344 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -76,7 +76,7 @@ Parameters in config file must be converted to fitting basis.
     else:
         decorr_vars = []
 
-    for key in params.keys():
+    for key in list(params.keys()):
         if key.startswith('logjit'):
             msg = """
 Fitting log(jitter) is depreciated. Please convert your config
-- 
2.43.0


From 622c833d86bb41e6a7a9e005bbd64595ea8233f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 57/89] fix: draw_models_from_chain returns the models of the
 samples it draws

---
 radvel/model.py | 27 ++++++++++++++++-----------
 radvel/utils.py | 18 ++++++++++++------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 1ff19b5..f8f3d60 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -300,17 +300,22 @@ class GeneralRVModel(object):
         vel = vel + self.vector.vector[self.vector.indices['curv']][0] * (t - self.time_base)**2
         return vel
 
-    def array_to_params(self,param_values):
-    
-    	new_params = self.params
-    	
-    	vary_parameters = self.list_vary_params()
-    	
-    	for i in range(len(vary_parameters)):
-    		new_params[vary_parameters[i]] = Parameter(value=param_values[i])
-    		
-    	return new_params
-             
+    def array_to_params(self, param_values):
+        """Set the free parameters of the model
+
+        Args:
+            param_values (array): values, in the order of ``list_vary_params``
+
+        Returns:
+            radvel.Parameters: the parameters of the model
+        """
+        for key, value in zip(self.list_vary_params(), param_values):
+            self.params[key].value = value
+            if key in self.vector.indices:
+                self.vector.vector[self.vector.indices[key]][0] = value
+
+        return self.params
+
     def list_vary_params(self):
         keys = self.list_params()
 
diff --git a/radvel/utils.py b/radvel/utils.py
index 50d1344..c6b187d 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -646,12 +646,18 @@ def draw_models_from_chain(mod, chain, t, nsamples=50):
         array: 2D array with the different models as different rows
     """
 
-    np.random.seed(0)
-    chain_samples = chain.iloc[np.random.choice(chain.index, nsamples)]
+    # the same draws each time, without touching the global random state
+    rows = np.random.RandomState(0).choice(len(chain), nsamples)
+    samples = chain[mod.list_vary_params()].values[rows]
+    values = [mod.params[key].value for key in mod.list_vary_params()]
+    vector = mod.vector.vector.copy()
     models = []
-    for i in chain_samples.index:
-        params = np.array(chain.loc[i, mod.list_vary_params()])
-        params = mod.array_to_params(params)
-        models += [mod(t)]
+    try:
+        for sample in samples:
+            mod.array_to_params(sample)
+            models += [mod(t)]
+    finally:
+        mod.array_to_params(values)
+        mod.vector.vector[:] = vector
     models = np.vstack(models)
     return models
-- 
2.43.0


From e43a241d876fb2cb1aa6a33c9f2539210d9f8873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 58/89] fix: parameter table prints the step parameters in the
 fitting basis

---
 radvel/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/report.py b/radvel/report.py
index 2a54dcc..0dd4288 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -187,7 +187,7 @@ class TexTable(RadvelReport):
         self.report = report
         self.post = report.post
         self.quantiles = report.quantiles
-        self.fitting_basis = report.post.params.basis.name
+        self.fitting_basis = report.planet.fitting_basis
         self.minafactor = report.minafactor
         self.maxarchange = report.maxarchange
         self.maxgr = report.maxgr
-- 
2.43.0


From 60bb72df2f268d8d272f4cc2589749f4354b59e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 59/89] fix: parameter table lists the time of conjunction for
 tp bases

---
 radvel/report.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/report.py b/radvel/report.py
index 0dd4288..3329b79 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -208,7 +208,10 @@ class TexTable(RadvelReport):
             low = self.quantiles[param][0.5] - self.quantiles[param][0.159]
             high = self.quantiles[param][0.841] - self.quantiles[param][0.5]
 
-        maxlike = self.post.maxparams[param]
+        if param in self.post.maxparams:
+            maxlike = self.post.maxparams[param]
+        else:  # converted from the fitting basis
+            maxlike = self.post.params[param].value
         tex = self.report.latex_dict[param]
 
         low = radvel.utils.round_sig(low)
-- 
2.43.0


From 00f84345c3ef5c278482352dbfadb4c99776546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 60/89] fix: parameter table does not mix up instruments such
 as 'j' and 'j1'

---
 radvel/report.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index 3329b79..ba94c5a 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -197,9 +197,6 @@ class TexTable(RadvelReport):
         """
         Helper function to output the rows in the parameter table
         """
-        if param not in self.quantiles.keys():
-            param = param[:-1]
-
         if unit == 'radians':
             par = radvel.utils.geterr(self.report.chains[param], angular=True)
             med, low, high = par
@@ -249,7 +246,7 @@ class TexTable(RadvelReport):
 
         for n in range(1, nloop):
             for p in basis.split():  # loop over variables
-                par = p+str(n)
+                par = p if dontloop else p+str(n)
 
                 # get unit for parameter
                 unit = units.get(p, '')
-- 
2.43.0


From 03078fd6f041d15b6f06d4482000ec3731e45a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 61/89] fix: parameter table has the units of offsets and
 jitters for one instrument

---
 radvel/report.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index ba94c5a..e412a17 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -237,7 +237,7 @@ class TexTable(RadvelReport):
             dontloop (Bool): if True, don't loop over number of planets (useful for
                 printing out gamma, dvdt, jitter, curv)
         """
-        suffixes = ['_'+j for j in self.report.post.likelihood.suffixes]
+        suffixes = ['_'+j for j in np.atleast_1d(self.report.post.likelihood.suffixes)]
         rows = []
 
         nloop = self.report.planet.nplanets+1
@@ -254,9 +254,10 @@ class TexTable(RadvelReport):
                 # try to remove suffix
                 if unit == '' and par not in units.keys():
                     for s in suffixes:
-                        if s in p:
-                            unit = units.get(p.replace(s, ''), '')
-                            break
+                        if p.endswith(s):
+                            unit = units.get(p[:-len(s)], '')
+                            if unit != '':
+                                break
 
                 # if still can't find units get it by the parameter itself
                 # (derived parameters)
-- 
2.43.0


From 26bb8e5f257f22b535a6375af287f297fa031cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 62/89] fix: labels of planets beyond the ninth and of
 parameters of instruments such as 'h1'

---
 radvel/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index f8f3d60..64afdd3 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -144,9 +144,9 @@ should have only integers as keys."""
 
         tex_labels = {}
         for k in param_list:
-            n = k[-1]
-            p = k[:-1]
-            if n.isdigit() and (not 'gamma' in p and not 'jit' in p):
+            p = k.rstrip('0123456789')
+            n = k[len(p):]
+            if n.isdigit() and '_' not in p and (not 'gamma' in p and not 'jit' in p):
                 tex_labels[k] = self._planet_texlabel(p, n)
             elif k in texdict.keys():
                 tex_labels[k] = "$%s$" % texdict[k]
-- 
2.43.0


From 3dec2d94d77b15370e6a96d5d82c9a471c5be11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 63/89] fix: making a report leaves the posterior and chains as
 they are

---
 radvel/report.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index e412a17..0f30ace 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import pandas as pd
 
@@ -58,12 +60,15 @@ class RadvelReport(object):
     def __init__(self, planet, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=None,
                  derived=False):
         self.planet = planet
-        self.post = post
         self.starname = planet.starname
         self.starname_tex = planet.starname.replace('_', '\\_')
         self.runname = self.starname_tex
         self.derived = derived
 
+        # work on copies, the posterior and chains of the caller stay as they are
+        self.post = post = copy.copy(post)
+        chains = chains.copy()
+
         post.params = post.params.basis.to_synth(post.params)
         post.params = post.params.basis.from_synth(
             post.params, print_basis
@@ -187,6 +192,7 @@ class TexTable(RadvelReport):
         self.report = report
         self.post = report.post
         self.quantiles = report.quantiles
+        self.maxparams = dict(self.post.maxparams)
         self.fitting_basis = report.planet.fitting_basis
         self.minafactor = report.minafactor
         self.maxarchange = report.maxarchange
@@ -205,8 +211,8 @@ class TexTable(RadvelReport):
             low = self.quantiles[param][0.5] - self.quantiles[param][0.159]
             high = self.quantiles[param][0.841] - self.quantiles[param][0.5]
 
-        if param in self.post.maxparams:
-            maxlike = self.post.maxparams[param]
+        if param in self.maxparams:
+            maxlike = self.maxparams[param]
         else:  # converted from the fitting basis
             maxlike = self.post.params[param].value
         tex = self.report.latex_dict[param]
@@ -432,7 +438,7 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
         for par in derived_params:
             # self.report.post.maxparams[par] = self.report.chains[par].iloc[
             #     self.report.chains['lnprobability'].argmax]
-            self.post.maxparams[par] = dpl.chains.loc[dpl.chains['lnprobability'].idxmax(), par]
+            self.maxparams[par] = dpl.chains.loc[dpl.chains['lnprobability'].idxmax(), par]
 
         kw = dict()
         kw['derived_rows'] = self._data(derived_basis)
-- 
2.43.0


From 5a0de9d5f5e17267b020f569d89de8ce8814c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 64/89] fix: derived plot and table do not convert the masses
 of the caller's chains

---
 radvel/plot/mcmc_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index c14ef39..a1d7386 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -178,7 +178,7 @@ class DerivedPlot(object):
 
     def __init__(self, chains, P, saveplot=None):
 
-        self.chains = chains
+        self.chains = chains.copy()  # masses may be converted
         self.saveplot = saveplot
 
         if 'planet_letters' in dir(P):
-- 
2.43.0


From 712762816edb901b2f5c973a9424f38bd3d72c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 65/89] fix: Jupiter masses of derived parameters were 0.1% too
 large

---
 radvel/plot/mcmc_plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index a1d7386..4f7faaa 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -1,5 +1,6 @@
 import numpy as np
 import corner
+from astropy import constants as c
 from matplotlib.backends.backend_pdf import PdfPages
 from matplotlib import pyplot as pl
 from matplotlib import rcParams
@@ -211,7 +212,7 @@ class DerivedPlot(object):
                     unit = "M$_{\\oplus}$"
                     if np.median(self.chains[label]) > 100:
                         unit = "M$_{\\rm Jup}$"
-                        self.chains[label] *= 0.00315
+                        self.chains[label] *= (c.M_earth / c.M_jup).value
                     elif np.median(self.chains[label]) > 100:
                         unit = "M$_{\\odot}$"
                         self.chains[label] *= 0.000954265748
-- 
2.43.0


From bb39fd26d5e10e46c5ab9ff7ae9d68b2b8c2a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 66/89] fix: derived parameters of planets beyond the ninth are
 in the table, in the same order every time

---
 radvel/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/report.py b/radvel/report.py
index 0f30ace..cf9ddc3 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -426,7 +426,7 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
 
         dpl = radvel.plot.mcmc_plots.DerivedPlot(self.report.chains, self.report.planet)
         derived_params = dpl.labels
-        derived_basis = ' '.join(set([s[:-1] for s in derived_params]))
+        derived_basis = ' '.join(sorted(set([s.rstrip('0123456789') for s in derived_params])))
         derived_tex = dpl.texlabels
         derived_units = dpl.units
 
-- 
2.43.0


From c772a825e3a24a4b301dd0ce3f24c50aba1fd5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 67/89] fix: 'radvel table' after another 'radvel fit' of the
 same run

---
 radvel/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/report.py b/radvel/report.py
index cf9ddc3..996c83d 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -192,7 +192,7 @@ class TexTable(RadvelReport):
         self.report = report
         self.post = report.post
         self.quantiles = report.quantiles
-        self.maxparams = dict(self.post.maxparams)
+        self.maxparams = dict(getattr(self.post, 'maxparams', {}))
         self.fitting_basis = report.planet.fitting_basis
         self.minafactor = report.minafactor
         self.maxarchange = report.maxarchange
-- 
2.43.0


From e57049db39eb6af111718ab52ca350615f72e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 68/89] fix: a report without LaTeX compiler leaves the process
 in a temporary directory

---
 radvel/report.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index 996c83d..853f21c 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -171,11 +171,11 @@ or pass in the path as an argument
 """ % (latex_compiler, latex_compiler)
             print(msg)
             return
-
-        shutil.copy(pdfname, current)
-
-        shutil.rmtree(temp)
-        os.chdir(current)
+        else:
+            shutil.copy(pdfname, current)
+        finally:
+            os.chdir(current)
+            shutil.rmtree(temp)
 
 
 class TexTable(RadvelReport):
-- 
2.43.0


From 6192a6306449a08b0bde1fa2276dd3fac57de2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:11 +0000
Subject: [PATCH 69/89] fix: eccentricity prior of planets beyond the ninth can
 be printed

---
 radvel/prior.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 9b696a0..eef825f 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -86,12 +86,10 @@ class EccentricityPrior(Prior):
         return msg[:-1]
 
     def __str__(self):
-        tex = model.Parameters(9, basis='per tc e w k').tex_labels()
-
         msg = ""
         for i, num_planet in enumerate(self.planet_list):
             par = "e{}".format(num_planet)
-            label = tex[par]
+            label = model.Parameters(num_planet).tex_labels(param_list=[par])[par]
             msg += "{} constrained to be $<{}$ \\\\\\\\\n".format(label, self.upperlims[i])
 
         return msg[:-5]
-- 
2.43.0


From c72567bffed82d44a827316a5ffc683287035214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 70/89] fix: GP plots added the GP to the stored model once
 more each time

---
 radvel/plot/orbit_plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index a5ce002..df8bb35 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -664,7 +664,7 @@ class GPMultipanelPlot(MultipanelPlot):
         if self.subtract_orbit_model:
             orbit_model4data = np.zeros(self.rvmod.shape)
         else:
-            orbit_model4data = self.rvmod
+            orbit_model4data = self.rvmod.copy()
 
         ci = 0
         for like in self.like_list:
@@ -753,7 +753,7 @@ class GPMultipanelPlot(MultipanelPlot):
                 if self.subtract_orbit_model:
                     orbit_model4data = np.zeros(self.rvmod.shape)
                 else:
-                    orbit_model4data = self.rvmod
+                    orbit_model4data = self.rvmod.copy()
 
                 self.plot_gp_like(like, orbit_model4data, ci)
 
-- 
2.43.0


From c344b2fe678673e8367e917c94c7a1122d39219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 71/89] fix: GPMultipanelPlot.plot_multipanel returns the
 figure and honours nophase

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index df8bb35..0699a6f 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -712,7 +712,7 @@ class GPMultipanelPlot(MultipanelPlot):
         """
 
         if not self.plot_likelihoods_separately:
-            super(GPMultipanelPlot, self).plot_multipanel()
+            return super(GPMultipanelPlot, self).plot_multipanel(nophase=nophase)
         else:
 
             if nophase:
-- 
2.43.0


From 3cb9080990666ff3f59d2cb894936185ae18003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 72/89] fix: GP plots accept formats without colour, as
 documented

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 0699a6f..e8481fe 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -623,7 +623,7 @@ class GPMultipanelPlot(MultipanelPlot):
             if like.suffix not in self.telfmts and like.suffix in plot.telfmts_default:
                 color = plot.telfmts_default[like.suffix]['color']
             if like.suffix in self.telfmts:
-                color = self.telfmts[like.suffix]['color']
+                color = self.telfmts[like.suffix].get('color', plot.default_colors[ci])
             if like.suffix not in self.telfmts and like.suffix not in plot.telfmts_default:
                 color = plot.default_colors[ci]
                 ci += 1
-- 
2.43.0


From f0021bec1f70d32aea83115e0d689342324f52e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 73/89] fix: GP plots with separate curves and the mean GP
 subtracted

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index e8481fe..61b6e7f 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -614,7 +614,7 @@ class GPMultipanelPlot(MultipanelPlot):
                 xpred = xpred - self.epoch
 
             if self.subtract_gp_mean_model:
-                gpmu = 0.
+                gpmu = np.zeros(xpred.shape)
             else:
                 gp_mean4data, _ = like.predict(like.x)
                 indx = np.where(self.post.likelihood.telvec == like.suffix)
-- 
2.43.0


From 1f8ff40b7334fcb652349523a4659d4ce10b85f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 74/89] fix: GP plots with separate panels of a model without
 planets

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 61b6e7f..8fff150 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -795,7 +795,7 @@ class GPMultipanelPlot(MultipanelPlot):
 
             # phase-folded plots
             if not nophase:
-                gs_phase = gridspec.GridSpec(self.phase_nrows, self.phase_ncols)
+                gs_phase = gridspec.GridSpec(max([1, self.phase_nrows]), max([1, self.phase_ncols]))
 
                 if self.phase_ncols == 1:
                     gs_phase.update(left=0.12, right=0.93,
-- 
2.43.0


From 6ee17f6239973073b0e5069adc87a260c9228da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 75/89] fix: Jupiter masses printed in phase plots were 0.1%
 too large

---
 radvel/plot/orbit_plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 8fff150..a6ece84 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -6,6 +6,7 @@ from matplotlib import rcParams, gridspec
 from matplotlib import pyplot as pl
 from matplotlib.ticker import MaxNLocator
 from astropy.time import Time
+from astropy import constants as c
 import copy
 
 import radvel
@@ -384,7 +385,7 @@ class MultipanelPlot(object):
 
                         unit = units[index]
                         if unit == "M$_{\\rm Jup}$":
-                            conversion_fac = 0.00315
+                            conversion_fac = (c.M_earth / c.M_jup).value
                         elif unit == "M$_{\\odot}$":
                             conversion_fac = 0.000954265748
                         else:
-- 
2.43.0


From 88d201bf9580206492a9026972817bf9db0c93ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 76/89] fix: plotting does not add colours to the formats it is
 given

---
 radvel/plot/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/__init__.py b/radvel/plot/__init__.py
index c24e887..b6dfcf4 100644
--- a/radvel/plot/__init__.py
+++ b/radvel/plot/__init__.py
@@ -116,7 +116,7 @@ def mtelplot(x, y, e, tel, ax, lw=1., telfmts={}, **kwargs):
         telfmt = {}
 
         if t in telfmts:
-            telfmt = telfmts[t]
+            telfmt = dict(telfmts[t])
             if 'color' not in telfmt:
                 telfmt['color'] = default_colors[ci]
                 ci +=1
-- 
2.43.0


From c8c66b653010a4a193d8abd57be08b4ebb8c88aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 77/89] fix: plots of more than nine instruments without a
 default colour

---
 radvel/plot/__init__.py    | 4 ++--
 radvel/plot/orbit_plots.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/radvel/plot/__init__.py b/radvel/plot/__init__.py
index b6dfcf4..2545cec 100644
--- a/radvel/plot/__init__.py
+++ b/radvel/plot/__init__.py
@@ -118,10 +118,10 @@ def mtelplot(x, y, e, tel, ax, lw=1., telfmts={}, **kwargs):
         if t in telfmts:
             telfmt = dict(telfmts[t])
             if 'color' not in telfmt:
-                telfmt['color'] = default_colors[ci]
+                telfmt['color'] = default_colors[ci % len(default_colors)]
                 ci +=1
         elif t not in telfmts and t not in telfmts_default:
-            telfmt = dict(color=default_colors[ci])
+            telfmt = dict(color=default_colors[ci % len(default_colors)])
             ci +=1 
         else:
             telfmt = {}
diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index a6ece84..40f7570 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -624,9 +624,9 @@ class GPMultipanelPlot(MultipanelPlot):
             if like.suffix not in self.telfmts and like.suffix in plot.telfmts_default:
                 color = plot.telfmts_default[like.suffix]['color']
             if like.suffix in self.telfmts:
-                color = self.telfmts[like.suffix].get('color', plot.default_colors[ci])
+                color = self.telfmts[like.suffix].get('color', plot.default_colors[ci % len(plot.default_colors)])
             if like.suffix not in self.telfmts and like.suffix not in plot.telfmts_default:
-                color = plot.default_colors[ci]
+                color = plot.default_colors[ci % len(plot.default_colors)]
                 ci += 1
 
             ax.fill_between(xpred, gpmu+gp_orbit_model-stddev, gpmu+gp_orbit_model+stddev, 
-- 
2.43.0


From 59a4c9f4536e2d371d8a9b322d2063c7d1c96cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:17 +0000
Subject: [PATCH 78/89] fix: posteriors without trend parameters can be plotted

---
 radvel/plot/orbit_plots.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 40f7570..7aee652 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -121,10 +121,7 @@ class MultipanelPlot(object):
 
         self.rawresid = self.post.likelihood.residuals()
 
-        self.resid = (
-            self.rawresid + self.post.params['dvdt'].value*(self.rvtimes-self.model.time_base)
-            + self.post.params['curv'].value*(self.rvtimes-self.model.time_base)**2
-        )
+        self.resid = self.rawresid + self._trend(self.rvtimes)
 
         if self.saveplot is not None:
             resolution = 10000
@@ -166,18 +163,19 @@ class MultipanelPlot(object):
             self.plttimes = self.rvtimes - self.epoch
             self.mplttimes = self.rvmodt - self.epoch
 
-        self.slope = (
-            self.post.params['dvdt'].value * (self.rvmodt-self.model.time_base)
-            + self.post.params['curv'].value * (self.rvmodt-self.model.time_base)**2
-        )
-        self.slope_low = (
-            self.post.params['dvdt'].value * (self.rvtimes-self.model.time_base)
-            + self.post.params['curv'].value * (self.rvtimes-self.model.time_base)**2
-        )
+        self.slope = self._trend(self.rvmodt)
+        self.slope_low = self._trend(self.rvtimes)
 
         # list for Axes objects
         self.ax_list = []
 
+    def _trend(self, t):
+        """Velocities of the linear and quadratic trend, parameters the posterior does not have being zero"""
+        dvdt, curv = [
+            self.post.params[par].value if par in self.post.params else 0.0 for par in ['dvdt', 'curv']
+        ]
+        return dvdt * (t-self.model.time_base) + curv * (t-self.model.time_base)**2
+
     def plot_timeseries(self):
         """
         Make a plot of the RV data and model in the current Axes.
-- 
2.43.0


From 1737841b5b400916fb917b9ec0a7f6c1ac8de948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:26 +0000
Subject: [PATCH 79/89] fix: models are drawn at the times of the axis when
 set_xlim is used with times relative to an epoch

---
 radvel/plot/orbit_plots.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 7aee652..834ecde 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -136,10 +136,19 @@ class MultipanelPlot(object):
         else:
             longp = max(self.post.likelihood.x) - min(self.post.likelihood.x)
 
+        # times from which (most of) the epoch was subtracted already are plotted as they are
+        if ((self.rvtimes - self.epoch) < -2.4e6).any():
+            self.plt_epoch = 0
+        else:
+            if self.epoch == 0:
+                self.epoch = 2450000
+            self.plt_epoch = self.epoch
+
         if self.set_xlim is not None:
             self.dt = self.set_xlim[1] - self.set_xlim[0]
             self.rvmodt = np.linspace(
-                (self.set_xlim[0]+self.epoch) - 0.05 * self.dt, (self.set_xlim[1]+self.epoch) + 0.05 * self.dt + longp,
+                (self.set_xlim[0]+self.plt_epoch) - 0.05 * self.dt,
+                (self.set_xlim[1]+self.plt_epoch) + 0.05 * self.dt + longp,
                 int(resolution)
             )
         else:
@@ -152,16 +161,8 @@ class MultipanelPlot(object):
         self.orbit_model = self.model(self.rvmodt)
         self.rvmod = self.model(self.rvtimes)
 
-        if ((self.rvtimes - self.epoch) < -2.4e6).any():
-            self.plttimes = self.rvtimes
-            self.mplttimes = self.rvmodt
-        elif self.epoch == 0:
-            self.epoch = 2450000
-            self.plttimes = self.rvtimes - self.epoch
-            self.mplttimes = self.rvmodt - self.epoch
-        else:
-            self.plttimes = self.rvtimes - self.epoch
-            self.mplttimes = self.rvmodt - self.epoch
+        self.plttimes = self.rvtimes - self.plt_epoch
+        self.mplttimes = self.rvmodt - self.plt_epoch
 
         self.slope = self._trend(self.rvmodt)
         self.slope_low = self._trend(self.rvtimes)
@@ -594,7 +595,7 @@ class GPMultipanelPlot(MultipanelPlot):
         if isinstance(like, radvel.likelihood.GPLikelihood):
 
             if self.set_xlim is not None:
-                xpred = np.linspace(self.set_xlim[0]+self.epoch, self.set_xlim[1]+self.epoch, num=int(3e3))
+                xpred = np.linspace(self.set_xlim[0]+self.plt_epoch, self.set_xlim[1]+self.plt_epoch, num=int(3e3))
             else:
                 xpred = np.linspace(np.min(like.x), np.max(like.x), num=int(3e3))
 
@@ -604,13 +605,7 @@ class GPMultipanelPlot(MultipanelPlot):
             else:
                 gp_orbit_model = self.model(xpred)
 
-            if ((xpred - self.epoch) < -2.4e6).any():
-                pass
-            elif self.epoch == 0:
-                self.epoch = 2450000
-                xpred = xpred - self.epoch
-            else:
-                xpred = xpred - self.epoch
+            xpred = xpred - self.plt_epoch
 
             if self.subtract_gp_mean_model:
                 gpmu = np.zeros(xpred.shape)
-- 
2.43.0


From cb2e069bd999f3bb510feb7e1e20301606c908ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:53 +0000
Subject: [PATCH 80/89] fix: planet letters of the parameters in labels of
 derived parameters

---
 radvel/plot/mcmc_plots.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index 4f7faaa..458832d 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -182,9 +182,10 @@ class DerivedPlot(object):
         self.chains = chains.copy()  # masses may be converted
         self.saveplot = saveplot
 
-        if 'planet_letters' in dir(P):
-            planet_letters = P.planet_letters
-        else:
+        planet_letters = getattr(P, 'planet_letters', None)
+        if planet_letters is None:
+            planet_letters = getattr(getattr(P, 'params', None), 'planet_letters', None)
+        if planet_letters is None:
             planet_letters = {1: 'b', 2: 'c', 3: 'd', 4: 'e', 5: 'f', 6: 'g', 7: 'h', 8: 'i', 9: 'j', 10: 'k'}
 
         # Determine which columns to include in corner plot
-- 
2.43.0


From a9b6b45f4363efe8ac41234e4dbfe1a584d6eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 81/89] fix: planet letters in the table of priors

---
 radvel/prior.py  | 16 ++++++++++------
 radvel/report.py |  2 ++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index eef825f..e255528 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -16,6 +16,10 @@ class Prior(object):
     # Relevant only for nested sampling.
     extra_constraint = False
 
+    # Custom planet letters for the label of the prior
+    # (default: b, c, etc.). See radvel.Parameters.
+    planet_letters = None
+
     def __repr__(self):
         return "Generic Prior"
 
@@ -51,7 +55,7 @@ class Gaussian(Prior):
 
     def __str__(self):
         try:
-            tex = model.Parameters(9).tex_labels(param_list=[self.param])[self.param]
+            tex = model.Parameters(9, planet_letters=self.planet_letters).tex_labels(param_list=[self.param])[self.param]
 
             s = "Gaussian prior on {}: ${} \\pm {}$ \\\\".format(tex, self.mu, self.sigma)
         except KeyError:
@@ -89,7 +93,7 @@ class EccentricityPrior(Prior):
         msg = ""
         for i, num_planet in enumerate(self.planet_list):
             par = "e{}".format(num_planet)
-            label = model.Parameters(num_planet).tex_labels(param_list=[par])[par]
+            label = model.Parameters(num_planet, planet_letters=self.planet_letters).tex_labels(param_list=[par])[par]
             msg += "{} constrained to be $<{}$ \\\\\\\\\n".format(label, self.upperlims[i])
 
         return msg[:-5]
@@ -236,7 +240,7 @@ class HardBounds(Prior):
 
     def __str__(self):
         try:
-            tex = model.Parameters(9).tex_labels(param_list=[self.param])[self.param]
+            tex = model.Parameters(9, planet_letters=self.planet_letters).tex_labels(param_list=[self.param])[self.param]
 
             s = "Bounded prior: ${} < {} < {}$".format(self.minval,
                                                        tex.replace('$', ''),
@@ -349,7 +353,7 @@ class Jeffreys(Prior):
         return s
     def __str__(self):
         try:
-            tex = model.Parameters(9).tex_labels(param_list=[self.param])[self.param]
+            tex = model.Parameters(9, planet_letters=self.planet_letters).tex_labels(param_list=[self.param])[self.param]
 
             s = "Jeffrey's prior: ${} < {} < {}$".format(self.minval,
                                                        tex.replace('$',''),
@@ -405,7 +409,7 @@ class ModifiedJeffreys(Prior):
         return s
     def __str__(self):
         try:
-            tex = model.Parameters(9).tex_labels(param_list=[self.param])[self.param]
+            tex = model.Parameters(9, planet_letters=self.planet_letters).tex_labels(param_list=[self.param])[self.param]
 
             s = "Modified Jeffrey's prior: knee = {}; ${} < {} < {}$".format(
                 self.kneeval, self.minval, tex.replace('$',''), self.maxval
@@ -475,7 +479,7 @@ class NumericalPrior(Prior):
 
     def __str__(self):
         try:
-            tex = model.Parameters(9).tex_labels(param_list=self.param_list)
+            tex = model.Parameters(9, planet_letters=self.planet_letters).tex_labels(param_list=self.param_list)
             t=[tex[key] for key in tex.keys()]
             if len(self.param_list) == 1:
                 str2print = '{0}'.format(*t)
diff --git a/radvel/report.py b/radvel/report.py
index 853f21c..88d19db 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -290,6 +290,8 @@ class TexTable(RadvelReport):
         prior_list = self.post.priors
         rows = []
         for prior in prior_list:
+            prior = copy.copy(prior)
+            prior.planet_letters = self.post.likelihood.params.planet_letters
             row = prior.__str__()
             if not row.endswith("\\\\"):
                 row = row + "\\\\"
-- 
2.43.0


From c4c7b2ea58d3ecb08cfa5710885a0e1434c50997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:41 +0000
Subject: [PATCH 82/89] fix: labels of parameters whose name contains the start
 of another's or several underscores

---
 radvel/model.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 64afdd3..0866c6b 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -148,17 +148,25 @@ should have only integers as keys."""
             n = k[len(p):]
             if n.isdigit() and '_' not in p and (not 'gamma' in p and not 'jit' in p):
                 tex_labels[k] = self._planet_texlabel(p, n)
-            elif k in texdict.keys():
+            elif k in texdict.keys() and not k.endswith('_'):
                 tex_labels[k] = "$%s$" % texdict[k]
             elif p not in self.planet_parameters:
+                # name of a parameter, followed by the name of an instrument
                 for tex in texdict.keys():
-                    if tex in k and len(tex) > 1:
-                        tex_labels[k] = "$%s}$" % k.replace(tex, texdict[tex])
-                        if k.startswith('gp_'):
-                            tex_labels[k] = tex_labels[k].replace("}_", ", \\rm ")
+                    name = tex.rstrip('_') + '_'
+                    if not k.startswith(name) or k == name:
+                        continue
+                    suffix = k[len(name):].replace('_', '\\_')
+                    if tex.endswith('_'):
+                        tex_labels[k] = "$%s%s}$" % (texdict[tex], suffix)
+                    elif tex.startswith('gp_') and texdict[tex].endswith('}'):
+                        tex_labels[k] = "$%s, \\rm %s}$" % (texdict[tex][:-1], suffix)
+                    elif tex.startswith('gp_'):
+                        tex_labels[k] = "$%s_{\\rm %s}$" % (texdict[tex], suffix)
 
             if k not in tex_labels.keys():
-                tex_labels[k] = k
+                # underscores are not allowed in text
+                tex_labels[k] = "$\\rm %s$" % k.replace('_', '\\_') if '_' in k else k
 
         return tex_labels
 
-- 
2.43.0


From 0c3c58968ea39e4041f381be1dc01ff92898850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:41 +0000
Subject: [PATCH 83/89] fix: instrument names with several underscores in the
 table of velocities

---
 radvel/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index 88d19db..94f8f8a 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -334,8 +334,8 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
             e = self.post.likelihood.yerr[i]
             inst = self.post.likelihood.telvec[i]
             if '_' in inst:
-                inst = inst.replace('_', r'$_{\rm ')
-                inst += '}$'
+                name, sub = inst.split('_', 1)
+                inst = name + r'$_{\rm ' + sub.replace('_', r'\_') + '}$'
             row = "{:.5f} & {:.2f} & {:.2f} & {:s}".format(t, v, e, inst)
             rows.append(row)
 
-- 
2.43.0


From e33a66858624c6b1f36983fd2eea58a550026108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:10 +0000
Subject: [PATCH 84/89] fix: hard bounds do not contain NaN

---
 radvel/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index e255528..645aa85 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -219,7 +219,7 @@ class HardBounds(Prior):
 
     def __call__(self, params, vector):
         x = vector.vector[vector.indices[self.param]][0]
-        if x <= self.minval or x >= self.maxval:
+        if not self.minval < x < self.maxval:  # NaN is out of bounds
             return -np.inf
         else:
             if self.finite:
-- 
2.43.0


From e22bb8920d30634855602cf9799ff1c7896178cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:06 +0000
Subject: [PATCH 85/89] fix: GP likelihood of a singular covariance matrix was
 infinite

---
 radvel/likelihood.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index f172574..18f00ae 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -495,10 +495,11 @@ class GPLikelihood(RVLikelihood):
 
         # solve alpha = inverse(K)*r
         try:
-            alpha = cho_solve(cho_factor(K),r)
+            factor = cho_factor(K)
+            alpha = cho_solve(factor,r)
 
             # compute determinant of K
-            (s,d) = np.linalg.slogdet(K)
+            d = 2.*np.sum(np.log(np.diag(factor[0])))
 
             # calculate likelihood
             like = -.5 * (np.dot(r, alpha) + d + self.N*np.log(2.*np.pi))
-- 
2.43.0


From 44e1039c6104d09143df4c5fd5bf7d3d5b1d91a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:11 +0000
Subject: [PATCH 86/89] fix: celerite likelihood of a singular covariance
 matrix was NaN

---
 radvel/likelihood.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 18f00ae..9190ed6 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -595,7 +595,10 @@ class CeleriteLikelihood(GPLikelihood):
             solver = self.kernel.compute_covmatrix(self.errorbars())
 
             # calculate log likelihood
-            lnlike = -0.5 * (solver.dot_solve(self._resids()) + solver.log_determinant() + self.N*np.log(2.*np.pi))
+            logdet = solver.log_determinant()
+            if not np.isfinite(logdet):  # not detected by celerite
+                raise celerite.solver.LinAlgError("singular matrix")
+            lnlike = -0.5 * (solver.dot_solve(self._resids()) + logdet + self.N*np.log(2.*np.pi))
 
             return lnlike
 
-- 
2.43.0


From 438db80d430327b67d41091c5182a51a2cd91217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:05 +0000
Subject: [PATCH 87/89] fix: printed uncertainties of less than 1e-4 ran into
 the value before them

---
 radvel/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 9190ed6..afd913d 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -109,7 +109,7 @@ class Likelihood(object):
                     else:
                         par = self.params[key].value
 
-                    s += "{:20s}{:15g}{:10g}{:>10s}\n".format(
+                    s += "{:20s}{:15g} {:9g}{:>10s}\n".format(
                         key, par, err, vstr
                         )
                 except TypeError:
@@ -130,7 +130,7 @@ class Likelihood(object):
                             else:
                                 par = synthbasis[key].value
 
-                            s += "{:20s}{:15g}{:10g}{:>10s}\n".format(
+                            s += "{:20s}{:15g} {:9g}{:>10s}\n".format(
                                 key, par, err, vstr
                             )
                         except TypeError:
-- 
2.43.0


From a46b2d05528be9172f712e1a5203f4229117eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:53 +0000
Subject: [PATCH 88/89] fix: an instrument named like another parameter (jit2,
 curvy) was listed twice or hid that row of the table of parameters

---
 radvel/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/report.py b/radvel/report.py
index 94f8f8a..9b002fb 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -360,7 +360,7 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
         for o in order:
             op = []
             for p in self.post.likelihood.extra_params:
-                if o in p:
+                if p.startswith(o):
                     op.append(p)
             if len(op)==0:
                 op = [o]
-- 
2.43.0


From 6dcb3c104b285ee92bc3964922d7413f3b4cfd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:53 +0000
Subject: [PATCH 89/89] fix: the quasi-periodic kernel did not find the period
 of an instrument with 'length' in its name

---
 radvel/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index c079534..6acb099 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -258,7 +258,7 @@ class QuasiPerKernel(Kernel):
                 self.hparams['gp_perlength'] = hparams[par]
             if par.startswith('gp_amp'):
                 self.hparams['gp_amp'] = hparams[par]
-            if par.startswith('gp_per') and not 'length' in par:
+            if par.startswith('gp_per') and not par.startswith('gp_perlength'):
                 self.hparams['gp_per'] = hparams[par]
             if par.startswith('gp_explength'):
                 self.hparams['gp_explength'] = hparams[par]
-- 
2.43.0

