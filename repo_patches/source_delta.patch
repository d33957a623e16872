From 3494a0f2b0d861980c4ce2c99c36f55be889d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 01/51] fix: converting parameters to another basis no longer
 rewrites the source basis object

---
 radvel/basis.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 0d3a786..11c0848 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -602,9 +602,6 @@ class Basis(object):
                     _delpar('w')
                     _delpar('k')
 
-                # basis_name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -626,9 +623,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -652,9 +646,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw logk':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -679,9 +670,6 @@ class Basis(object):
                     _delpar('w')
                     _delpar('k')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc ecosw esinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -703,9 +691,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tp e w logk':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -726,9 +711,6 @@ class Basis(object):
                     _delpar('per')
                     _delpar('k')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
-- 
2.43.0


From 0aab59d99fc33d069d514c25473c06b5312b354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 02/51] fix: basis conversion of DataFrames works for every
 basis and with keep=False

---
 radvel/basis.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 11c0848..ba5f25f 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -521,6 +521,12 @@ class Basis(object):
                 else:
                     return params_in['{}{}'.format(key, num_planet)].value
 
+            def _haspar(key):
+                if isinstance(params_in, pd.core.frame.DataFrame):
+                    return '{}{}'.format(key, num_planet) in params_in.columns
+                else:
+                    return key in params_in.planet_parameters
+
             def _setpar(key, new_value):
                 key_name = '{}{}'.format(key, num_planet)
 
@@ -542,7 +548,7 @@ class Basis(object):
                 if isinstance(params_in, OrderedDict):
                     del params_out['{}{}'.format(key, num_planet)]
                 elif isinstance(params_in, pd.core.frame.DataFrame):
-                    params_out.drop('{}{}'.format(key, num_planet))
+                    params_out.drop(columns='{}{}'.format(key, num_planet), inplace=True)
 
             if newbasis == 'per tc e w k':
                 per = _getpar('per')
@@ -584,7 +590,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -607,7 +613,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -628,7 +634,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -651,7 +657,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -675,7 +681,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -696,7 +702,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
-- 
2.43.0


From 171ae5be2d6a4fb156398f9b04fffe481537c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 03/51] fix: basis conversion leaves no orbital elements of
 another basis behind

---
 radvel/basis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/radvel/basis.py b/radvel/basis.py
index ba5f25f..9eb6795 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -717,6 +717,13 @@ class Basis(object):
                     _delpar('per')
                     _delpar('k')
 
+            if not kwargs.get('keep', True):
+                # Orbital elements of any other basis must not be left behind:
+                # they share vector slots with those of the new basis.
+                for name in sorted(set(' '.join(BASIS_NAMES).split()) - set(newbasis.split())):
+                    if '{}{}'.format(name, num_planet) in params_out:
+                        _delpar(name)
+
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
-- 
2.43.0


From 16aa6d04707c3bcb15ceb1e00285c2c4f64dec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 04/51] fix: parameters converted to any basis can be used in a
 model

---
 radvel/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 9eb6795..300a082 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -113,7 +113,7 @@ class Basis(object):
             radvel.Parameters object expressed in the new basis
 
         """
-        synth_params = self.to_synth(params_in)
+        synth_params = self.to_synth(params_in, noVary=False)
         arbbasis_params = self.from_synth(synth_params, newbasis, keep=False)
         return arbbasis_params
 
-- 
2.43.0


From 6b9dd21f83de18e1a402a84bbbf25b2a072fb818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 05/51] fix: vector conversion to 'per tc e w k' flags the
 transit-time slot, not the omega slot

---
 radvel/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 300a082..7243638 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -418,7 +418,7 @@ class Basis(object):
                                                                       vector[(5*num_planet)][0],
                                                                       vector[2+(5*num_planet)][0],
                                                                       vector[3+(5*num_planet)][0])
-                setvary([3+(5*num_planet)])
+                setvary([1+(5*num_planet)])
 
             if newbasis == 'per tc se w k':
                 vector2[1 + (5 * num_planet)][0] = timeperi_to_timetrans(vector[1 + (5 * num_planet)][0],
-- 
2.43.0


From 9e192b51ee935b0c43fccf6106d8e7bd85080fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 06/51] fix: secondary eclipse time is the first eclipse after
 periastron, also for arrays

---
 radvel/orbit.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/radvel/orbit.py b/radvel/orbit.py
index 281ea81..4cf4881 100644
--- a/radvel/orbit.py
+++ b/radvel/orbit.py
@@ -56,10 +56,7 @@ def timeperi_to_timetrans(tp, per, ecc, omega, secondary=False):
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
 
         # ensure that ee is between 0 and 2*pi (always the eclipse AFTER tp)
-        if isinstance(ee, np.float64):
-            ee = ee + 2 * np.pi
-        else:
-            ee[ee < 0.0] = ee + 2 * np.pi
+        ee = np.mod(ee, 2 * np.pi)
     else:
         f = np.pi/2 - omega                                         # true anomaly during transit
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
-- 
2.43.0


From dec7a78a87c3451a0c7d0c51ca57511274b64c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:10 +0000
Subject: [PATCH 07/51] fix: rv_drive treats a negative period alike for
 circular and eccentric orbits

---
 radvel/kepler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radvel/kepler.py b/radvel/kepler.py
index b7367f5..d813af1 100644
--- a/radvel/kepler.py
+++ b/radvel/kepler.py
@@ -34,13 +34,14 @@ def rv_drive(t, orbel, use_c_kepler_solver=cext):
     # unpack array of parameters
     per, tp, e, om, k = orbel
 
+    if per < 0:
+        per = 1e-4
+
     # Performance boost for circular orbits
     if e == 0.0:
         m = 2 * np.pi * (((t - tp) / per) - np.floor((t - tp) / per))
         return k * np.cos(m + om)
 
-    if per < 0:
-        per = 1e-4
     if e < 0:
         e = 0
     if e > 0.99:
-- 
2.43.0


From 7fcbd71de35b3458d77b0d802198af48fc922a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:37 +0000
Subject: [PATCH 08/51] fix: every parameter has its own slot in the vector and
 the slot names stay aligned

---
 radvel/likelihood.py |  2 +-
 radvel/model.py      | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 6f41f9a..6445248 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -31,7 +31,7 @@ class Likelihood(object):
         self.y = np.array(y)  # Pandas data structures lead to problems.
         self.yerr = np.array(yerr)
         self.dvec = [np.array(d) for d in decorr_vectors]
-        n = self.vector.vector.shape[0]
+        n = max(self.vector.indices.values()) + 1  # next free slot
         for key in extra_params:
             if key not in self.params.keys():
                 self.params[key] = radvel.model.Parameter(value=0.0)
diff --git a/radvel/model.py b/radvel/model.py
index 255089a..8beb3fe 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -192,11 +192,6 @@ class Vector(object):
 
     def init_index_dict(self):
         indices = dict()
-        n = 0
-        for k in self.params.keys():
-            if k.startswith('gamma') or k.startswith('jit') or k.startswith('logjit') or k.startswith('gp'):
-                indices.update({k:2 + n + (5*self.params.num_planets)})
-                n += 1
         for num_planet in range(1, self.params.num_planets+1):
             indices.update({'per'+str(num_planet):-5+(5*num_planet),'logper'+str(num_planet):-5+(5*num_planet),
                          'tc'+str(num_planet):-4+(5*num_planet),'tp'+str(num_planet):-4+(5*num_planet),
@@ -206,6 +201,13 @@ class Vector(object):
                          'w'+str(num_planet):-2+(5*num_planet),'k'+str(num_planet):-1+(5*num_planet),
                          'logk'+str(num_planet):-1+(5*num_planet)})
         indices.update({'dvdt':(5*self.params.num_planets),'curv':1+(5*self.params.num_planets)})
+        # every other parameter (offsets, jitters, GP, decorrelation or user-defined)
+        # has a slot of its own after the planets and trends
+        n = 0
+        for k in self.params.keys():
+            if k not in indices:
+                indices.update({k:2 + n + (5*self.params.num_planets)})
+                n += 1
         self.indices = indices
 
     def dict_to_vector(self):
-- 
2.43.0


From 0bf15be40f6d0ed2d2dbdc2940298be3d29e903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 09/51] fix: rebuilding a posterior's free-parameter list
 rebuilds the one its likelihood uses

---
 radvel/posterior.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 654e2b7..9d2c46b 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -27,6 +27,11 @@ class Posterior(Likelihood):
 
         self.vparams_order = self.list_vary_params()
 
+    def list_vary_params(self):
+        # the likelihood keeps its own list, used when it is given an array
+        super(Posterior, self).list_vary_params()
+        self.likelihood.list_vary_params()
+
     def __repr__(self):
         s = super(Posterior, self).__repr__()
         s += "\nPriors\n"
-- 
2.43.0


From 5d25a3c06294fc68fb085c89f27fa70db64510ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:23 +0000
Subject: [PATCH 10/51] fix: each decorrelation coefficient is applied to its
 own variable, whatever their names

---
 radvel/likelihood.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 6445248..74832f4 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -340,6 +340,7 @@ class RVLikelihood(Likelihood):
         self.telvec = np.array([self.suffix]*len(t))
 
         self.decorr_params = []
+        self.decorr_vars = list(decorr_vars)
         self.decorr_vectors = decorr_vectors
         if len(decorr_vars) > 0:
             self.decorr_params += ['c1_'+d+suffix for d in decorr_vars]
@@ -367,18 +368,10 @@ class RVLikelihood(Likelihood):
 
         res = self.y - self.vector.vector[self.gamma_index][0] - mod
 
-        if len(self.decorr_params) > 0:
-            for parname in self.decorr_params:
-                var = parname.split('_')[1]
-                pars = []
-                for par in self.decorr_params:
-                    if var in par:
-                        pars.append(self.vector.vector[self.vector.indices[par]][0])
-                pars.append(0.0)
-                if np.isfinite(self.decorr_vectors[var]).all():
-                    vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
-                    p = np.poly1d(pars)
-                    res -= p(vec)
+        for var, parname in zip(self.decorr_vars, self.decorr_params):
+            if np.isfinite(self.decorr_vectors[var]).all():
+                vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
+                res -= self.vector.vector[self.vector.indices[parname]][0] * vec
         return res
 
     def errorbars(self):
-- 
2.43.0


From d25b4b3891a34342301f8f5b5f470788a72f0f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:23 +0000
Subject: [PATCH 11/51] fix: the analytic offset accounts for the decorrelation
 terms

---
 radvel/likelihood.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 74832f4..2fef258 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -359,6 +359,11 @@ class RVLikelihood(Likelihood):
         """
         mod = self.model(self.x)
 
+        for var, parname in zip(self.decorr_vars, self.decorr_params):
+            if np.isfinite(self.decorr_vectors[var]).all():
+                vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
+                mod = mod + self.vector.vector[self.vector.indices[parname]][0] * vec
+
         if self.vector.vector[self.gamma_index][3] and not self.vector.vector[self.gamma_index][1]:
             ztil = np.sum((self.y - mod)/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
                    np.sum(1/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2))
@@ -368,10 +373,6 @@ class RVLikelihood(Likelihood):
 
         res = self.y - self.vector.vector[self.gamma_index][0] - mod
 
-        for var, parname in zip(self.decorr_vars, self.decorr_params):
-            if np.isfinite(self.decorr_vectors[var]).all():
-                vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
-                res -= self.vector.vector[self.vector.indices[parname]][0] * vec
         return res
 
     def errorbars(self):
-- 
2.43.0


From 7b21252059fe6286220e70df36be1d60a8d3792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:23 +0000
Subject: [PATCH 12/51] fix: a combined likelihood holds the data of all
 instruments alike and the hyperparameters of the first

---
 radvel/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 2fef258..c1e4f60 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -252,13 +252,13 @@ class CompositeLikelihood(Likelihood):
         self.extra_params = like0.extra_params
         self.suffixes = like0.suffix
         self.uparams = like0.uparams
-        self.hnames = []
+        self.hnames = list(getattr(like0, 'hnames', []))
 
         for i in range(1, self.nlike):
             like = like_list[i]
 
             self.x = np.append(self.x, like.x)
-            self.y = np.append(self.y, like.y - like.vector.vector[like.vector.indices[like.gamma_param]][0])
+            self.y = np.append(self.y, like.y)
             self.yerr = np.append(self.yerr, like.yerr)
             self.telvec = np.append(self.telvec, like.telvec)
             self.extra_params = np.append(self.extra_params, like.extra_params)
-- 
2.43.0


From 2d9486915a3b3d8ec8421a32270d38e324da81f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:23 +0000
Subject: [PATCH 13/51] fix: Posterior.aic returns the criterion

---
 radvel/posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 9d2c46b..f9bd520 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -220,7 +220,7 @@ class Posterior(Likelihood):
     def aic(self):
         """Moved to Likelihood.aic"""
 
-        raise self.likelihood.aic()
+        return self.likelihood.aic()
 
 
 def load(filename):
-- 
2.43.0


From 9a2ad393a81a92b1a0dd4b4223b03b11101c03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 14/51] fix: the positive-amplitude prior looks at K also when
 ln K is fitted

---
 radvel/prior.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 5bd5754..530a6bd 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -173,11 +173,13 @@ class PositiveKPrior(Prior):
         def _getpar(key, num_planet):
             return vector.vector[vector.indices['{}{}'.format(key, num_planet)]][0]
 
+        parnames = params.basis.name.split()
+
         for num_planet in range(1, self.num_planets+1):
-            try:
-                k = _getpar('k', num_planet)
-            except KeyError:
+            if 'logk' in parnames:
                 k = np.exp(_getpar('logk', num_planet))
+            else:
+                k = _getpar('k', num_planet)
 
             if k < 0.0:
                 return -np.inf if not finite else -1e100
-- 
2.43.0


From 00ad5aa5dd79c8ec1c503d42dc147b8acf36c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 15/51] fix: the secondary-eclipse prior compares phases to the
 nearest cycle

---
 radvel/prior.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 530a6bd..b3bfb1c 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -299,7 +299,11 @@ class SecondaryEclipsePrior(Prior):
         pts = utils.t_to_phase_vector(vector, self.ts, self.planet_num)
         epts = self.ts_err / per
 
-        penalty = -0.5 * ((ts_phase - pts) / epts)**2 - 0.5*np.log((epts**2)*2.*np.pi)
+        # phases are cyclic: take the difference to the nearest cycle
+        dphase = ts_phase - pts
+        dphase = dphase - np.round(dphase)
+
+        penalty = -0.5 * (dphase / epts)**2 - 0.5*np.log((epts**2)*2.*np.pi)
 
         return penalty
 
-- 
2.43.0


From 06bfbe5ff26e5a0c772d3404eccc03dc85261ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 16/51] fix: any prior can be an extra constraint, and the
 nested-sampling likelihood is finite

---
 radvel/posterior.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index f9bd520..6d22651 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -147,7 +147,8 @@ class Posterior(Likelihood):
         _logprob = 0
         for prior in self.priors:
             if prior.extra_constraint:
-                _logprob += prior(self.params, self.vector, finite=True)
+                value = prior(self.params, self.vector)
+                _logprob += value if np.isfinite(value) else -1e100
         return _logprob
 
     def extra_likelihood_array(self, param_values_array):
@@ -174,9 +175,9 @@ class Posterior(Likelihood):
             Log probability of the likelihood + extra priors
         """
         self.likelihood.set_vary_params(param_values_array, fast=True)
-        extra_likelihood = self.extra_likelihood()
-        if np.isfinite(extra_likelihood):
-            return extra_likelihood + self.likelihood.logprob()
+        _logprob = self.extra_likelihood() + self.likelihood.logprob()
+        if np.isfinite(_logprob):
+            return _logprob
         # Ultranest requires finite values, so return very large negative instead of -inf
         return -1e100
 
-- 
2.43.0


From 0695a6e00e04d4eda0f1529abac5d04e157db1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 17/51] fix: a joint NumericalPrior refuses to transform
 instead of mixing its parameters

---
 radvel/prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/radvel/prior.py b/radvel/prior.py
index b3bfb1c..f394052 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -471,6 +471,8 @@ class NumericalPrior(Prior):
         return val[0]
 
     def transform(self, u):
+        if len(self.param_list) > 1:
+            raise NotImplementedError("Prior transform not available for joint NumericalPrior distributions")
         return np.interp(u, self.hist_cumulative, self.bin_middle)
 
     def __repr__(self):
-- 
2.43.0


From 5ea9b06f1fd3dbdd39bf9456b17fa41fc6b13757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:43 +0000
Subject: [PATCH 18/51] fix: user-defined and numerical priors are not ignored
 in nested sampling

---
 radvel/posterior.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 6d22651..7f93c98 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -62,13 +62,15 @@ class Posterior(Likelihood):
         prior_dict = dict()
         for prior in self.priors:
             try:
-                param = prior.param
+                param_list = [prior.param]
             except AttributeError:
-                continue
-            if param not in prior_dict:
-                prior_dict[param] = [prior]
-            else:
-                prior_dict[param] += [prior]
+                # user-defined and numerical priors list their parameters
+                param_list = getattr(prior, 'param_list', [])
+            for param in param_list:
+                if param not in prior_dict:
+                    prior_dict[param] = [prior]
+                else:
+                    prior_dict[param] += [prior]
         return prior_dict
 
     def check_proper_priors(self):
@@ -100,6 +102,11 @@ class Posterior(Likelihood):
                     )
         for pname in prior_dict:
             for prior in prior_dict[pname]:
+                if not prior.extra_constraint and len(getattr(prior, 'param_list', [pname])) > 1:
+                    raise ValueError(
+                        "Joint prior on {} has no transform for its individual parameters. "
+                        "Use `extra_constraint` to constrain several parameters jointly".format(prior.param_list)
+                    )
                 if pname not in vary_params and not prior.extra_constraint:
                     raise ValueError(
                         "Prior transform specified for fixed parameter {}. "
-- 
2.43.0


From 1fccb912aa07985561e97a580dcc42e424622f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 19/51] fix: the covariance of a switched-off quasi-periodic
 kernel is stored and has the shape of the distances

---
 radvel/gp.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index 40bca99..777315a 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -327,28 +327,22 @@ class QuasiPerKernel(Kernel):
         # If any GP parameter is 0, this is likely a "no GP" model comparison
         # In this case, return a zero covariance matrix
         if amp == 0 or per == 0 or explength == 0 or perlength == 0:
-            n = len(self.dist_se)
-            K = np.zeros((n, n))
-            if isinstance(errors, (int, float)) and errors == 0:
-                return K
-            else:
-                K[np.diag_indices_from(K)] += errors**2
-                return K
-
-        # Compute covariance matrix step by step
-        exp_term1 = -self.dist_se/(explength**2)
-        exp_term2 = (-np.sin(np.pi*self.dist_p/per)**2.) / (2.*perlength**2)
-        
-        # Clamp extreme values to prevent overflow
-        exp_term1 = np.clip(exp_term1, -100, 100)
-        exp_term2 = np.clip(exp_term2, -100, 100)
-        
-        # Compute exponential terms
-        exp1 = np.exp(exp_term1)
-        exp2 = np.exp(exp_term2)
-        
-        # Compute final covariance matrix
-        K = np.array(amp**2 * exp1 * exp2)
+            K = np.zeros(self.dist_se.shape)
+        else:
+            # Compute covariance matrix step by step
+            exp_term1 = -self.dist_se/(explength**2)
+            exp_term2 = (-np.sin(np.pi*self.dist_p/per)**2.) / (2.*perlength**2)
+
+            # Clamp extreme values to prevent overflow
+            exp_term1 = np.clip(exp_term1, -100, 100)
+            exp_term2 = np.clip(exp_term2, -100, 100)
+
+            # Compute exponential terms
+            exp1 = np.exp(exp_term1)
+            exp2 = np.exp(exp_term2)
+
+            # Compute final covariance matrix
+            K = np.array(amp**2 * exp1 * exp2)
 
         self.covmatrix = K
 
-- 
2.43.0


From 6e7f5bed1cc706c97db571cb26028ebb90da781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:08 +0000
Subject: [PATCH 20/51] fix: a covariance that is not positive definite gives
 the GP likelihood -inf instead of an AttributeError

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index c1e4f60..3586c5b 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -502,7 +502,7 @@ class GPLikelihood(RVLikelihood):
 
             return like
 
-        except (np.linalg.linalg.LinAlgError, ValueError):
+        except (np.linalg.LinAlgError, ValueError):
             warnings.warn("Non-positive definite kernel detected.", RuntimeWarning)
             return -np.inf
 
-- 
2.43.0


From 212a4f3b95b443d3553b5edafbbfa7f3bb61ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:36 +0000
Subject: [PATCH 21/51] fix: the celerite kernel uses the sorted times of its
 likelihood

---
 radvel/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 3586c5b..65fb0d4 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -580,6 +580,7 @@ class CeleriteLikelihood(GPLikelihood):
         self.x = self.x[order]
         self.y = self.y[order]
         self.yerr = self.yerr[order]
+        self.kernel.compute_distances(self.x, self.x)
         self.N = len(self.x)
 
     def logprob(self):
-- 
2.43.0


From 1699126eee254186dadee677b9c687ab8e5f7a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:36 +0000
Subject: [PATCH 22/51] fix: celerite predictions are defined for a negative
 jitter, which counts by its square

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 65fb0d4..2e6eca2 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -622,7 +622,7 @@ class CeleriteLikelihood(GPLikelihood):
 
         # build celerite kernel with current values of hparams
         kernel = celerite.terms.JitterTerm(
-                log_sigma = np.log(self.vector.vector[self.jit_index][0])
+                log_sigma = np.log(np.abs(self.vector.vector[self.jit_index][0]))
                 )
 
         kernel += celerite.terms.RealTerm(
-- 
2.43.0


From c266992e3a9c8e72a5c79a06d7e2174d84b6f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 23/51] fix: celerite predictions at times that are not in
 order

---
 radvel/likelihood.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 2e6eca2..6c5ac1f 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -639,9 +639,14 @@ class CeleriteLikelihood(GPLikelihood):
 
         gp = celerite.GP(kernel)
         gp.compute(self.x, self.yerr)
-        mu, var = gp.predict(self._resids(), xpred, return_var=True)
-
-        stdev = np.sqrt(var)
+        # celerite needs prediction times in time order as well
+        order = np.argsort(xpred)
+        mu, var = gp.predict(self._resids(), np.asarray(xpred)[order], return_var=True)
+
+        # back to the order of xpred
+        position = np.argsort(order)
+        mu = mu[position]
+        stdev = np.sqrt(var[position])
 
         return mu, stdev
 
-- 
2.43.0


From 4de15b5f9166c594b9ede236c06bdf78fb0041b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 24/51] fix: the number of independent draws is given for every
 parameter, also when the chains agree closely

---
 radvel/mcmc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 271a4e9..be70ed7 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -580,9 +580,7 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
         varz = (nsteps-1.0)/bz + varianceofmeans
         # Equation 26: T(z) in Ford 2006
         vbz = varEstimate / bz
-        tz = nchains*nsteps*vbz[vbz < 1]
-        if tz.size == 0:
-            tz = [-1]
+        tz = nchains*nsteps*np.minimum(vbz, 1.0)
     else:
         tz = [-1]
         minTz = -np.inf
-- 
2.43.0


From cf6516cf09cca039efdb4610da5affde079f8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:24 +0000
Subject: [PATCH 25/51] fix: a maximum-likelihood fit leaves the posterior at
 the optimum, not at the last point evaluated

---
 radvel/fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index b4d011e..10fd164 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -33,9 +33,11 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
         print("Performing maximum a posteriori fit...")
     with warnings.catch_warnings():
         warnings.filterwarnings("ignore", category=RuntimeWarning, message="invalid value encountered")
-        _ = scipy.optimize.minimize(
+        result = scipy.optimize.minimize(
             post.neglogprob_array, post.get_vary_params(), method=method,
             options=dict(maxiter=200, maxfev=100000, xtol=1e-8))
+    # the last point the optimizer evaluated need not be its best one
+    post.set_vary_params(np.atleast_1d(result.x))
     post.vector.vector_to_dict()
 
     if verbose:
-- 
2.43.0


From 6bcc77b5d47150bba4a90ef8f9bd9f13f491617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:24 +0000
Subject: [PATCH 26/51] fix: model comparisons do not add to the entries of
 earlier ones

---
 radvel/fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 10fd164..a21d4f8 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -48,7 +48,7 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     return post
 
 
-def model_comp(post, params=[], mc_list=[], verbose=False):
+def model_comp(post, params=[], mc_list=None, verbose=False):
     """Model Comparison
 
     Vary the presence of additional parameters and check how the improve the model fit
@@ -72,6 +72,8 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
 
     assert isinstance(post, radvel.likelihood.Likelihood), \
         "model_comp requires a radvel likelihood object as the first argument"
+    if mc_list is None:
+        mc_list = []
     assert isinstance(mc_list, list), \
         "mc_list must be either an empty list or a list of model comparison dictionaries"
     assert isinstance(params, list), \
-- 
2.43.0


From 9c1fb09e9671009cef9f7578af8d1788b3dd691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:24 +0000
Subject: [PATCH 27/51] fix: comparing models leaves the posterior it is given
 as it was

---
 radvel/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index a21d4f8..d3bbb98 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -89,7 +89,7 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
     #   to get BIC and AIC values among other diagnostics.
     if not params:
 
-        fitpost = maxlike_fitting(post, verbose=verbose)
+        fitpost = maxlike_fitting(copy.deepcopy(post), verbose=verbose)
 
         ndata = len(fitpost.likelihood.y)
         nfree = len(fitpost.get_vary_params())
-- 
2.43.0


From 12f5d399604bd5aa0b7b064262592163d8650948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:24 +0000
Subject: [PATCH 28/51] fix: the model without GP in a comparison has its
 hyperparameters fixed, not set to zero and free

---
 radvel/fitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index d3bbb98..92c6f06 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -189,14 +189,16 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
         if have_gpamp:
             gpparamlist = post.likelihood.hnames
             ipost = copy.deepcopy(post)
-            allfixed = False
+            allfixed = True
             for gpparam in gpparamlist:
                 if len(gpparam) >= 6 and gpparam.startswith('gp_amp'):
                     ipost.vector.vector[ipost.vector.indices[gpparam]][0] = 0.
                 if ipost.vector.vector[ipost.vector.indices[gpparam]][1]:
                     allfixed = False
-                    ipost.vector.vector[ipost.vector.indices[gpparam]][0] = False
+                    ipost.vector.vector[ipost.vector.indices[gpparam]][1] = False
             if not allfixed:
+                ipost.list_vary_params()
+                ipost.likelihood.list_vary_params()
                 mc_list = model_comp(ipost, newparams, mc_list=mc_list)
             post.list_vary_params()
             post.likelihood.list_vary_params()
-- 
2.43.0


From 13d9c4a35d0fc2ee3a41c390d66f476cae94e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:24 +0000
Subject: [PATCH 29/51] fix: ic --fixjitter fixes the jitters

---
 radvel/driver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/radvel/driver.py b/radvel/driver.py
index 0669b86..6d96e19 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -431,6 +431,8 @@ def ic_compare(args):
             for param in ipost.params:
                 if len(param) >= 3 and param[0:3] == 'jit':
                     ipost.params[param].vary = False
+                    ipost.vector.vector[ipost.vector.indices[param]][1] = False
+            ipost.list_vary_params()
 
         for compareparam in compareparams:
             assert compareparam in choices, \
-- 
2.43.0


From d9e22d5d7525a5e51489a7f5d54c8fead6028803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:42 +0000
Subject: [PATCH 30/51] fix: radvel ic without a type compares trends

---
 radvel/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index e60ee55..5e7c0c1 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -169,7 +169,7 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
 
     # Information Criteria comparison (BIC/AIC)
     psr_ic = subpsr.add_parser('ic', parents=[psr_parent],)
-    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default='trend',
+    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default=['trend'],
                         choices=['nplanets', 'e', 'trend', 'jit', 'gp'],
                         help="parameters to include in BIC/AIC model comparison"
                         )
-- 
2.43.0


From eb4f920d66132390daa6110b9a62d3d4a0ef1653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 31/51] fix: phases can be folded from parameters with a
 logarithmic period

---
 radvel/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index fa70ce1..04e356c 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -362,7 +362,10 @@ def t_to_phase(params, t, num_planet, cat=False):
     elif ('tp%i' % num_planet) in params:
         timeparam = 'tp%i' % num_planet
 
-    P = params['per%i' % num_planet].value
+    if ('per%i' % num_planet) in params:
+        P = params['per%i' % num_planet].value
+    else:
+        P = np.exp(params['logper%i' % num_planet].value)
     tc = params[timeparam].value
     phase = np.mod(t - tc, P)
     phase /= P
-- 
2.43.0


From 82d02cc527abeeb2bbe2dc0455d87a03fc0ca0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:19 +0000
Subject: [PATCH 32/51] fix: the minimum mass of a companion heavier than its
 star is found

---
 radvel/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 04e356c..3aaed80 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -584,6 +584,8 @@ def Msini(K, P, Mstar, e, Msini_units='earth'):
             warnings.warn("Mpsini << Mstar assumption broken, correcting Msini calculation.", stacklevel=2)
 
         a = K*(((2*(np.pi)*G)/P)**(-1/3.))*np.sqrt(1-(e**2))
+        # start above the solution, from where the root finder converges for any mass ratio
+        guess = np.atleast_1d(a*(2*Mstar)**(2/3.) + 4*a**3)
         Msini = []
         if isinstance(P, float):
             n_elements = 1
@@ -598,7 +600,7 @@ def Msini(K, P, Mstar, e, Msini_units='earth'):
                 except IndexError:
                     return x - a * ((Mstar + x) ** (2 / 3.))
 
-            sol = root(func, Mjup)
+            sol = root(func, guess[i])
             Msini.append(sol.x[0])
 
         Msini = np.array(Msini)
-- 
2.43.0


From a7e9a498c04c54ac5d07fa0537294c1f782c2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:19 +0000
Subject: [PATCH 33/51] fix: the summary of an angle does not modify the
 sample, nor fail when it is read-only

---
 radvel/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/utils.py b/radvel/utils.py
index 3aaed80..8a636a6 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -465,6 +465,7 @@ def geterr(vec, angular=False):
         pass
 
     if angular:
+        vec = np.array(vec)    # the chain itself is left as it is
         val, edges = np.histogram(vec, bins=50)
         med = edges[np.argmax(val)]
         if med > np.radians(90):
-- 
2.43.0


From 8fdfaaaa1776892a55bef8b66d571cd56ef6c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:19 +0000
Subject: [PATCH 34/51] fix: fractions of a second are kept in Julian dates

---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 8a636a6..6e70d4f 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -423,7 +423,7 @@ def date2jd(date):
      """
 
     jd_td = date - datetime(2000, 1, 1, 12, 0, 0)
-    jd = 2451545.0 + jd_td.days + jd_td.seconds/86400.0
+    jd = 2451545.0 + jd_td.days + (jd_td.seconds + jd_td.microseconds/1e6)/86400.0
     return jd
 
 
-- 
2.43.0


From dc8025699721cda51ca153bb2725cac0bd5b9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 35/51] fix: setups with logjit parameters can be loaded

---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 6e70d4f..0ac5810 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -77,7 +77,7 @@ Parameters in config file must be converted to fitting basis.
     else:
         decorr_vars = []
 
-    for key in params.keys():
+    for key in list(params.keys()):
         if key.startswith('logjit'):
             msg = """
 Fitting log(jitter) is depreciated. Please convert your config
-- 
2.43.0


From e89520fa58f51887c133a65449157066d1d7cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:39 +0000
Subject: [PATCH 36/51] fix: nested sampling leaves the caller's option
 dictionaries as they were

---
 radvel/nested_sampling.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 1716546..92acfbd 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -41,8 +41,8 @@ def _run_dynesty(
     """
     from dynesty import DynamicNestedSampler, NestedSampler
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if sampler_type == "static":
         sampler_class = NestedSampler
@@ -137,8 +137,8 @@ def _run_ultranest(
     from ultranest import ReactiveNestedSampler
     from ultranest.stepsampler import SliceSampler, generate_mixture_random_direction
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if "log_dir" in sampler_kwargs:
         raise ValueError(
@@ -207,7 +207,7 @@ def _run_multinest(
     """
     import pymultinest
 
-    run_kwargs = run_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
 
     # By default, assume we want a temporary output dir
     tmp = True
@@ -298,8 +298,8 @@ def _run_nautilus(
     """
     from nautilus import Sampler
 
-    sampler_kwargs = sampler_kwargs or {}
-    run_kwargs = run_kwargs or {}
+    sampler_kwargs = dict(sampler_kwargs or {})
+    run_kwargs = dict(run_kwargs or {})
     run_kwargs.setdefault("verbose", True)
 
     if "filepath" in sampler_kwargs:
-- 
2.43.0


From c9bced569a1ba21be775b1a9e32d375a323ba7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:39 +0000
Subject: [PATCH 37/51] fix: dynesty can store its state in a directory that
 exists

---
 radvel/nested_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 92acfbd..df52485 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -85,7 +85,7 @@ def _run_dynesty(
 
     if checkpoint_file is not None and not os.path.exists(checkpoint_file):
         outdir = os.path.dirname(checkpoint_file)
-        os.makedirs(outdir)
+        os.makedirs(outdir, exist_ok=True)
 
     sampler.run_nested(**run_kwargs)
 
-- 
2.43.0


From 272fd82c023591d82cd7542ec8f22e4fbb19410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:12 +0000
Subject: [PATCH 38/51] fix: parameters set from an array reach the model and
 keep their settings

---
 radvel/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/model.py b/radvel/model.py
index 8beb3fe..8c9ca79 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -303,7 +303,8 @@ class GeneralRVModel(object):
     	vary_parameters = self.list_vary_params()
     	
     	for i in range(len(vary_parameters)):
-    		new_params[vary_parameters[i]] = Parameter(value=param_values[i])
+    		new_params[vary_parameters[i]].value = param_values[i]
+    		self.vector.vector[self.vector.indices[vary_parameters[i]]][0] = param_values[i]
     		
     	return new_params
              
-- 
2.43.0


From e33753d694d2ecae21433950577356d94989a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:12 +0000
Subject: [PATCH 39/51] fix: model curves can be drawn from a chain with any
 index

---
 radvel/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 0ac5810..e44622e 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -664,10 +664,10 @@ def draw_models_from_chain(mod, chain, t, nsamples=50):
     """
 
     np.random.seed(0)
-    chain_samples = chain.iloc[np.random.choice(chain.index, nsamples)]
+    chain_samples = chain.iloc[np.random.choice(len(chain), nsamples)]
     models = []
-    for i in chain_samples.index:
-        params = np.array(chain.loc[i, mod.list_vary_params()])
+    for i in range(nsamples):
+        params = np.array(chain_samples[mod.list_vary_params()].iloc[i])
         params = mod.array_to_params(params)
         models += [mod(t)]
     models = np.vstack(models)
-- 
2.43.0


From 8d14f7ae5df369b03d3bb6dd218b5f27927452be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:58 +0000
Subject: [PATCH 40/51] fix: the report lists the fitting parameters under its
 fitting section

---
 radvel/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/report.py b/radvel/report.py
index 2a54dcc..0dd4288 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -187,7 +187,7 @@ class TexTable(RadvelReport):
         self.report = report
         self.post = report.post
         self.quantiles = report.quantiles
-        self.fitting_basis = report.post.params.basis.name
+        self.fitting_basis = report.planet.fitting_basis
         self.minafactor = report.minafactor
         self.maxarchange = report.maxarchange
         self.maxgr = report.maxgr
-- 
2.43.0


From c839129f58b85728de5e02017e370834c479141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:58 +0000
Subject: [PATCH 41/51] fix: report rows of instruments whose names differ by a
 final digit

---
 radvel/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/report.py b/radvel/report.py
index 0dd4288..83af01e 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -246,7 +246,7 @@ class TexTable(RadvelReport):
 
         for n in range(1, nloop):
             for p in basis.split():  # loop over variables
-                par = p+str(n)
+                par = p if dontloop else p+str(n)
 
                 # get unit for parameter
                 unit = units.get(p, '')
-- 
2.43.0


From 6ba6705929aa7f1bcfd36573b59cbe5b2d4d9d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:58 +0000
Subject: [PATCH 42/51] fix: report units of instruments whose name starts with
 that of another

---
 radvel/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index 83af01e..cec4ebc 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -254,8 +254,8 @@ class TexTable(RadvelReport):
                 # try to remove suffix
                 if unit == '' and par not in units.keys():
                     for s in suffixes:
-                        if s in p:
-                            unit = units.get(p.replace(s, ''), '')
+                        if p.endswith(s):
+                            unit = units.get(p[:-len(s)], '')
                             break
 
                 # if still can't find units get it by the parameter itself
-- 
2.43.0


From 9953307ccd406abcbad4ac041bc69e0733941408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:58 +0000
Subject: [PATCH 43/51] fix: tabulating derived parameters leaves the chain in
 its own units

---
 radvel/plot/mcmc_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index c14ef39..5cc004d 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -178,7 +178,7 @@ class DerivedPlot(object):
 
     def __init__(self, chains, P, saveplot=None):
 
-        self.chains = chains
+        self.chains = chains.copy()
         self.saveplot = saveplot
 
         if 'planet_letters' in dir(P):
-- 
2.43.0


From 3d5771f77d9d281da6270755a18d959e27befb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:45 +0000
Subject: [PATCH 44/51] fix: drawing a GP time series no longer adds the GP
 mean to the stored orbit model

---
 radvel/plot/orbit_plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index a5ce002..8eddbbc 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -642,7 +642,7 @@ class GPMultipanelPlot(MultipanelPlot):
             ax.plot(self.mplttimes, self.orbit_model, 'b-', rasterized=False, lw=0.1)
 
         if not self.yscale_auto: 
-            scale = np.std(self.rawresid+self.rvmod)
+            scale = np.std(self.rawresid+orbit_model4data)
             ax.set_ylim(-self.yscale_sigma * scale, self.yscale_sigma * scale)
 
         ax.set_ylabel('RV [{ms:}]'.format(**plot.latex), weight='bold')
@@ -664,7 +664,7 @@ class GPMultipanelPlot(MultipanelPlot):
         if self.subtract_orbit_model:
             orbit_model4data = np.zeros(self.rvmod.shape)
         else:
-            orbit_model4data = self.rvmod
+            orbit_model4data = self.rvmod.copy()
 
         ci = 0
         for like in self.like_list:
@@ -753,7 +753,7 @@ class GPMultipanelPlot(MultipanelPlot):
                 if self.subtract_orbit_model:
                     orbit_model4data = np.zeros(self.rvmod.shape)
                 else:
-                    orbit_model4data = self.rvmod
+                    orbit_model4data = self.rvmod.copy()
 
                 self.plot_gp_like(like, orbit_model4data, ci)
 
-- 
2.43.0


From 4ecf6fbd1443c89b3a12b6f8b287780bdc016458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:45 +0000
Subject: [PATCH 45/51] fix: GPMultipanelPlot.plot_multipanel honours nophase
 and returns the figure and its axes

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 8eddbbc..317fba0 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -712,7 +712,7 @@ class GPMultipanelPlot(MultipanelPlot):
         """
 
         if not self.plot_likelihoods_separately:
-            super(GPMultipanelPlot, self).plot_multipanel()
+            return super(GPMultipanelPlot, self).plot_multipanel(nophase=nophase)
         else:
 
             if nophase:
-- 
2.43.0


From cd9f822f9607294a8b103cbe584fb16f42a8769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:45 +0000
Subject: [PATCH 46/51] fix: plot_multipanel(letter_labels=False) no longer
 fails when there are phase plots

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 317fba0..fbb651b 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -469,8 +469,8 @@ class MultipanelPlot(object):
 
         pl.sca(ax_rv)
         self.plot_timeseries()
+        pltletter = ord('a')
         if letter_labels:
-            pltletter = ord('a')
             plot.labelfig(pltletter)
             pltletter += 1
 
-- 
2.43.0


From 8ea63249f32ed66aeb1ca95bc7005c55feadc9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:16 +0000
Subject: [PATCH 47/51] fix: radvel mcmc --serial False ran the MCMC in serial

The option was converted with bool(), which is True for every non-empty
string.
---
 radvel/cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index 5e7c0c1..60e05a4 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -8,6 +8,11 @@ import radvel.driver
 from radvel.nested_sampling import BACKENDS
 
 
+def _str_to_bool(arg):
+    """Value of a True/False option as typed on the command line"""
+    return arg.strip().lower() not in ('', '0', 'f', 'false', 'n', 'no')
+
+
 def main():
     psr = ArgumentParser(
         description="RadVel: The Radial Velocity Toolkit", prog='RadVel'
@@ -111,7 +116,7 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
     psr_mcmc.add_argument('--thin', dest='thin', action='store', default=10, type=int,
                           help="Save one sample every N steps [default=10, save every 10th sample]"
                           )
-    psr_mcmc.add_argument('--serial', dest='serial', action='store', default=False, type=bool,
+    psr_mcmc.add_argument('--serial', dest='serial', action='store', default=False, type=_str_to_bool,
                           help='''If True, run MCMC in serial instead of parallel. [False]'''
                           )
     psr_mcmc.add_argument('--save', dest='save', action='store_true',
-- 
2.43.0


From 7b3fd9902169537e852f3a32eff9dbfa4dd3ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:16 +0000
Subject: [PATCH 48/51] fix: radvel mcmc --help stated other defaults than the
 ones used

The defaults of --minAfactor and --maxArchange are 40 and .03, as
documented for radvel.mcmc.
---
 radvel/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index 60e05a4..9d95603 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -88,10 +88,10 @@ E.g. --plotkw "{'yscale_auto': True}"' ''')
                           help="Number of ensembles. Will be run in parallel on separate CPUs [8]"
                           )
     psr_mcmc.add_argument('--minAfactor', dest='minAfactor', action='store', default=40, type=float,
-                          help="Minimum factor between autocorrelation time and number of samples for chains to be deemed well-mixed [50]"
+                          help="Minimum factor between autocorrelation time and number of samples for chains to be deemed well-mixed [40]"
                           )
     psr_mcmc.add_argument('--maxArchange', dest='maxArchange', action='store', default=.03, type=float,
-                          help="Max relative-change in autocorrelation time for chains to be deemed well-mixed [.07]"
+                          help="Max relative-change in autocorrelation time for chains to be deemed well-mixed [.03]"
                           )
     psr_mcmc.add_argument('--maxGR', dest='maxGR', action='store', default=1.01, type=float,
                           help="Maximum G-R statistic for chains to be deemed well-mixed and halt the MCMC run [1.01]"
-- 
2.43.0


From 5fa07f70f5a47c802d90aa7b7de177d875cc5a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:09 +0000
Subject: [PATCH 49/51] fix: keep value and uncertainty apart in the printed
 summary

With post.uparams set, a value and an uncertainty of more than ten
characters (5.31234e-05) were printed without a space between them.
---
 radvel/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 6c5ac1f..39b080e 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -109,7 +109,7 @@ class Likelihood(object):
                     else:
                         par = self.params[key].value
 
-                    s += "{:20s}{:15g}{:10g}{:>10s}\n".format(
+                    s += "{:20s}{:15g} {:9g} {:>9s}\n".format(
                         key, par, err, vstr
                         )
                 except TypeError:
@@ -130,7 +130,7 @@ class Likelihood(object):
                             else:
                                 par = synthbasis[key].value
 
-                            s += "{:20s}{:15g}{:10g}{:>10s}\n".format(
+                            s += "{:20s}{:15g} {:9g} {:>9s}\n".format(
                                 key, par, err, vstr
                             )
                         except TypeError:
-- 
2.43.0


From 8af4d6f8b7d1245dc49cd98f600c9049fe89da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:40 +0000
Subject: [PATCH 50/51] fix: leave the working directory as it was when the
 report cannot be compiled

RadvelReport.compile changed to its temporary directory and stayed there,
with the directory left behind, when LaTeX was missing or failed.
---
 radvel/report.py | 51 ++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index cec4ebc..e817a94 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -138,39 +138,40 @@ class RadvelReport(object):
         texname = os.path.basename(pdfname).split('.')[0] + '.tex'
         current = os.getcwd()
         temp = tempfile.mkdtemp()
-        for fname in depfiles:
-            shutil.copy2(
-                os.path.join(current, fname), os.path.join(temp, fname)
-            )
+        try:
+            for fname in depfiles:
+                shutil.copy2(
+                    os.path.join(current, fname), os.path.join(temp, fname)
+                )
 
-        os.chdir(temp)
+            os.chdir(temp)
 
-        f = open(texname, 'w')
-        f.write(self.texdoc())
-        f.close()
+            f = open(texname, 'w')
+            f.write(self.texdoc())
+            f.close()
 
-        shutil.copy(texname, current)
+            shutil.copy(texname, current)
 
-        try:
-            for i in range(3):
-                # LaTex likes to be compiled a few times
-                # to get the table widths correct
-                proc = subprocess.Popen(
-                    [latex_compiler, texname], stdout=subprocess.PIPE,
-                )
-                proc.communicate()  # Let the subprocess complete
-        except (OSError):
-            msg = """
+            try:
+                for i in range(3):
+                    # LaTex likes to be compiled a few times
+                    # to get the table widths correct
+                    proc = subprocess.Popen(
+                        [latex_compiler, texname], stdout=subprocess.PIPE,
+                    )
+                    proc.communicate()  # Let the subprocess complete
+            except (OSError):
+                msg = """
 WARNING: REPORT: could not run %s. Ensure that %s is in your PATH
 or pass in the path as an argument
 """ % (latex_compiler, latex_compiler)
-            print(msg)
-            return
-
-        shutil.copy(pdfname, current)
+                print(msg)
+                return
 
-        shutil.rmtree(temp)
-        os.chdir(current)
+            shutil.copy(pdfname, current)
+        finally:
+            os.chdir(current)
+            shutil.rmtree(temp)
 
 
 class TexTable(RadvelReport):
-- 
2.43.0


From e9f8cf53ea426792298d540f309691bbc215f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:40 +0000
Subject: [PATCH 51/51] fix: report without figures when no plots have been
 made

radvel report failed with NoSectionError unless radvel plot had been run
before, although the report leaves out figures that do not exist.
---
 radvel/driver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 6d96e19..40ece57 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -748,8 +748,9 @@ report.".format(args.comptype,
     report.runname = conf_base
 
     report_depfiles = []
-    for ptype, pfile in status.items('plot'):
-        report_depfiles.append(pfile)
+    if status.has_section('plot'):
+        for ptype, pfile in status.items('plot'):
+            report_depfiles.append(pfile)
 
     with radvel.utils.working_directory(args.outputdir):
         rfile = os.path.join(conf_base+"_results.pdf")
-- 
2.43.0

