From a58d026870c0becedd1ff080bcaa2c1dc308ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 01/47] fix: do not share one sparse ECORR matrix among cached
 noise matrices

EcorrKernelNoise(method='sparse') returned (and cached) the same matrix
for every parameter value, so an earlier cached result changed under the
caller's feet when another value was evaluated.
---
 enterprise/signals/white_signals.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index f963fee..428ed1c 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -264,11 +264,14 @@ def EcorrKernelNoise(
             self._Ns = signal_base.csc_matrix_alt(Ns)
 
         def _get_ndiag_sparse(self, params):
+            # the result is cached, so it must not share storage with
+            # the matrices returned for other parameter values
+            Ns = self._Ns.copy()
             for p in self._params:
                 for idx in self._idxs[p]:
                     if len(idx) > 1:
-                        self._Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
-            return self._Ns
+                        Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
+            return Ns
 
         def _get_ndiag_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
-- 
2.43.0


From 873fabed7eb02143db2fac5a4d6d501e8e32e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 02/47] fix: keep combined basis columns aligned after a
 parametrized basis

Columns of bases that depend on parameters were counted but not entered
in the list of column hashes, so that later combined columns were mapped
to the wrong positions.
---
 enterprise/signals/signal_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f6da48a..46ee8c2 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -913,6 +913,9 @@ def SignalCollection(metasignals):  # noqa: C901
                                 cc += 1
                     elif signal.basis_params:
                         nf = Fmat.shape[1]
+                        # these columns change with the basis parameters, so they
+                        # can never be shared, but they do take up space
+                        hashlist.extend([None] * nf)
                         idx[signal] = list(range(cc, cc + nf))
                         cc += nf
 
-- 
2.43.0


From de512b665f456336a9854111f678b5fd8c85c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 03/47] fix: do not merge equal basis columns of one signal

Two equal columns in the basis of a single signal were mapped to the same
combined column, and adding the prior with a repeated index then dropped
the variance of all but one of them.
---
 enterprise/signals/signal_base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 46ee8c2..ec1c19d 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -896,14 +896,15 @@ def SignalCollection(metasignals):  # noqa: C901
 
                         for i, column in enumerate(Fmat.T):
                             colhash = hash(column.tobytes())
+                            where = hashlist.index(colhash) if colhash in hashlist else None
 
-                            if signal.basis_combine and colhash in hashlist:
+                            if signal.basis_combine and where is not None and where not in idx[signal]:
                                 # if we're combining the basis for this signal
                                 # and we have seen this column already, make a note
-                                # of where it was
+                                # of where it was (but never map two columns of this
+                                # signal to the same place: one prior would be lost)
 
-                                j = hashlist.index(colhash)
-                                idx[signal].append(j)
+                                idx[signal].append(where)
                             else:
                                 # if we're not combining or we haven't seen it already
                                 # save the hash and make a note it's new
-- 
2.43.0


From b45f81479838439bcf27a4f682ca536234b006f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 04/47] fix: accept MarginalizingTimingModel after an ECORR
 kernel

The sum of the noise terms only worked if the marginalized timing model
came before the ECORR kernel in the sum of signals.
---
 enterprise/signals/gp_signals.py  | 3 +++
 enterprise/signals/signal_base.py | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index a504a41..3fc02ee 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -820,6 +820,9 @@ def MarginalizingTimingModel(name="marginalizing_linear_timing_model", use_svd=F
 
 
 class MarginalizingNmat(object):
+    # tell SignalCollection that all other noise terms should be added to us
+    wraps_ndiag = True
+
     def __init__(self, Mmat, Nmat=0):
         self.Mmat, self.Nmat = Mmat, Nmat
         self.Mprior = Mmat.shape[1] * np.log(1e40)
diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index ec1c19d..6ec1c4a 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -937,7 +937,13 @@ def SignalCollection(metasignals):  # noqa: C901
         @cache_call("white_params")
         def get_ndiag(self, params):
             ndiags = [signal.get_ndiag(params) for signal in self._signals]
-            return sum(ndiag for ndiag in ndiags if ndiag is not None)
+            ndiags = [ndiag for ndiag in ndiags if ndiag is not None]
+
+            # a marginalized timing model wraps all the other terms,
+            # so it must come first in the sum, whatever the signal order
+            ndiags.sort(key=lambda ndiag: not getattr(ndiag, "wraps_ndiag", False))
+
+            return sum(ndiags)
 
         @cache_call("delay_params")
         def get_delay(self, params):
-- 
2.43.0


From a81f101696bfc82e42ec30a747df864aae84c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 05/47] fix: recompute GP-coefficient delays when basis
 parameters change

A GP with coefficients=True and a parametrized basis listed only its
coefficients among the parameters that affect its delay, so the model
kept using the delay computed with old basis parameters.
---
 enterprise/signals/gp_signals.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 3fc02ee..7599c04 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -135,7 +135,9 @@ def BasisGP(
             # MV: could assign this to a data member at initialization
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                # the delay also changes with the basis
+                coeffs = [pp.name for pp in self.params if "_coefficients" in pp.name]
+                return coeffs + [name for name in self.basis_params if name not in coeffs]
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
@@ -357,7 +359,9 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
 
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                # the delay also changes with the basis
+                coeffs = [pp.name for pp in self.params if "_coefficients" in pp.name]
+                return coeffs + [name for name in self.basis_params if name not in coeffs]
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From 7d4d304468f7cef201f05dccb6d4525174876b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 06/47] fix: allow ECORR kernels for pulsars without multi-TOA
 epochs

The default fast-sherman-morrison method and the block method raised an
exception when no epoch had more than one TOA.
---
 enterprise/signals/signal_base.py   | 4 ++--
 enterprise/signals/white_signals.py | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 6ec1c4a..ee108e9 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1152,9 +1152,9 @@ class BlockMatrix(object):
 
         if np.any(nvec != 0):
             s1 = set(np.arange(len(nvec)))
-            s2 = set(np.concatenate([np.arange(len(nvec))[slc] for slc in slices]))
+            s2 = set().union(*[np.arange(len(nvec))[slc] for slc in slices])
             sd = s1.difference(s2)
-            self._idx = np.array([s for s in sd])
+            self._idx = np.array([s for s in sd], dtype=int)
 
     def __add__(self, other):
         nvec = self._nvec + other
diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index 428ed1c..7865fb9 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -279,6 +279,9 @@ def EcorrKernelNoise(
 
         def _get_ndiag_fast_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
+            if len(slices) == 0:
+                # the compiled code needs at least one multi-TOA epoch
+                return signal_base.ShermanMorrison(jvec, slices)
             return fastshermanmorrison.FastShermanMorrison(jvec, slices)
 
         def _get_ndiag_block(self, params):
-- 
2.43.0


From 93c3747c87026df4b449ca3c8ff95bc87e92869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 07/47] fix: sample shared hyperparameters only once

sample() drew a new value for a hyperparameter every time it was met, so
the value it returned was not the one that earlier parameters had been
sampled with.
---
 enterprise/signals/parameter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 065f7f2..9592baa 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -28,10 +28,10 @@ def _sample(parlist, parvalues):
     """Recursive function used by sample()."""
 
     for par in parlist:
-        if par not in parvalues:
-            # RvH: Hyper pars seem to be broken
-            # sample hyperpars for this par, skip parameter itself
-            parvalues.update(sample(par.params[1:]))
+        if par.name not in parvalues:
+            # sample hyperpars for this par, skip parameter itself;
+            # hyperpars that have been sampled already keep their value
+            _sample(par.params[1:], parvalues)
 
             parvalues[par.name] = par.sample(params=parvalues)
 
-- 
2.43.0


From 24ce71f2fba9fc75d43360eb754572104f04e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 08/47] fix: do not share one delay array among cached
 ephemeris delays

PhysicalEphemerisSignal returned (and cached) the same array for every
parameter value when use_epoch_toas is set.
---
 enterprise/signals/deterministic_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index d0ee0db..7e4fb63 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -199,9 +199,11 @@ def PhysicalEphemerisSignal(
             if use_epoch_toas:
                 delay = self._wf[""](toas=self._avetoas, planetssb=self._planetssb, pos_t=self._pos_t, params=params)
 
+                # the result is cached, so it needs its own storage
+                full_delay = np.zeros_like(self._delay)
                 for slc, val in zip(self._uinds, delay):
-                    self._delay[slc] = val
-                return self._delay
+                    full_delay[slc] = val
+                return full_delay
             else:
                 delay = self._wf[""](params=params)
                 return delay
-- 
2.43.0


From 8b57408e579c89cafd035cdfd19e96112909db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 09/47] fix: accept a plain list of Fourier modes

The modes option of the Fourier bases is documented to take a list or an
array, but a list raised a TypeError.
---
 enterprise/signals/gp_bases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_bases.py b/enterprise/signals/gp_bases.py
index f924be1..0a9bfdd 100644
--- a/enterprise/signals/gp_bases.py
+++ b/enterprise/signals/gp_bases.py
@@ -48,8 +48,8 @@ def createfourierdesignmatrix_red(
 
     # define sampling frequencies
     if modes is not None:
-        nmodes = len(modes)
-        f = modes
+        f = np.asarray(modes)
+        nmodes = len(f)
     elif fmin is None and fmax is None and not logf:
         # make sure partially overlapping sets of modes
         # have identical frequencies
-- 
2.43.0


From 75c7765680a44736d7db507d7ab79288de5f4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 10/47] fix: let changes to constant parameters reach cached
 quantities

Cached noise matrices, bases, delays and likelihood terms were looked up
by the values of the varying parameters only. After a first evaluation,
set_default_params and values given for constants in the parameter
dictionary were silently ignored.
---
 enterprise/signals/signal_base.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index ee108e9..ed0306d 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -100,6 +100,11 @@ class Signal(object):
         # return only nonconstant parameters
         return [par for par in self._params.values() if not isinstance(par, ConstantParameter)]
 
+    @property
+    def constants(self):
+        # return only constant parameters
+        return [par for par in self._params.values() if isinstance(par, ConstantParameter)]
+
     @property
     def param_names(self):
         ret = []
@@ -826,6 +831,10 @@ def SignalCollection(metasignals):  # noqa: C901
         def params(self):
             return sorted({param for signal in self._signals for param in signal.params}, key=lambda par: par.name)
 
+        @property
+        def constants(self):
+            return [par for signal in self._signals for par in signal.constants]
+
         @property
         def param_names(self):
             ret = []
@@ -1025,7 +1034,8 @@ def cache_call(attrs, limit=2):
     specified in the initial decorator call. For instance, if
     the decorator is applied as @cache_call('basis_params'), then
     the parameters listed in self.basis_params (together with their values)
-    will be used as the key.
+    will be used as the key. The values of all constant parameters are also
+    part of the key, since set_default_params may change them.
 
     The parameter 'limit' specifies the number of entries saved
     in the cache."""
@@ -1047,6 +1057,9 @@ def cache_call(attrs, limit=2):
                         ret.append((key, tuple(params[key])))
                     else:
                         ret.append((key, params[key]))
+            for par in self.constants:
+                value = params[par.name] if par.name in params else par.value
+                ret.append((par.name, np.asarray(value).tobytes()))
             key = tuple(ret)
             # key = tuple([(key, params[key]) for key in keys if key in params])
 
-- 
2.43.0


From 45591e1656f588076210d720f586f794e6744fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 11/47] fix: merge overlapping cliques in the Phi matrix

np.in1d does not look inside a Python set, so cliques that share an index
were never merged, and get_phiinv with the default method inverted parts
of one block separately. This affected models with dense priors that
overlap each other or a common process in part.
---
 enterprise/signals/signal_base.py | 8 ++------
 enterprise/signals/utils.py       | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index ed0306d..d31ba7c 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -592,11 +592,6 @@ class PTA(object):
 
                 self._cliques[idxs] = self._clcount
 
-                # I don't think this code is ever exercised...
-                # if maxidx == -1, then allidx = [-1]
-                if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = self._clcount
-
                 self._clcount = self._clcount + 1
             else:
                 # if we find at least one clique, assign all indices in idx
@@ -606,8 +601,9 @@ class PTA(object):
 
                 # since cliques are "contagious", reassign all the other
                 # clique indices that we found to maxidx
+                # (but leave alone the -1 entries, which belong to no clique)
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     # add cliques from individual pulsar phis; these will never overlap
     # TO DO: at this point Phi could be defined as a smarter KernelMatrix!
diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 333368d..e4fbabd 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -250,7 +250,7 @@ class KernelMatrix(np.ndarray):
         else:
             self._cliques[idxs] = maxidx
             if len(allidx) > 1:
-                self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     def add(self, other, idx):
         if other.ndim == 2 and self.ndim == 1:
-- 
2.43.0


From 793ec0582f921746b8120f038b8be4d7b9887004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 12/47] fix: invert Phi correctly by partition with several
 common signals

The diagonal terms of basis columns shared by more than one common signal
were counted once for each, and dense priors within a pulsar were misread
without logdet or ignored when they touch the columns of a common signal.
Models without the structure that this method needs now use cliques.
---
 enterprise/signals/signal_base.py | 34 +++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index d31ba7c..3ce1f67 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -443,6 +443,28 @@ class PTA(object):
             else:
                 return cf.inv()
 
+    # get_phiinv_byfreq_partition works only if all common signals live on the same
+    # Phi indices, and if there are no correlations with other indices of the same pulsar
+    def _can_partition(self, phivecs, slices):
+        common = [
+            [(slices[csc].start + csc._idx[cs]).tolist() for cs, csc in csdict.items()]
+            for csdict in self._commonsignals.values()
+        ]
+
+        if any(indices != common[0] for indices in common):
+            return False
+
+        for sc, phivec in zip(self._signalcollections, phivecs):
+            if phivec is not None and phivec.ndim == 2:
+                offdiag = np.array(phivec)
+                np.fill_diagonal(offdiag, 0.0)
+
+                for csdict in self._commonsignals.values():
+                    if any(csc is sc and np.any(offdiag[sc._idx[cs], :]) for cs, csc in csdict.items()):
+                        return False
+
+        return True
+
     def get_phiinv_byfreq_partition(self, params, logdet=False):
         phivecs = [signalcollection.get_phi(params) for signalcollection in self._signalcollections]
 
@@ -451,11 +473,15 @@ class PTA(object):
         if self._commonsignals:
             slices = self._get_slices(phivecs)
 
+            if not self._can_partition(phivecs, slices):
+                return self.get_phiinv_byfreq_cliques(params, logdet)
+
             # TODO: This is messy, maybe we should clean up
             phis = [phivec for phivec in phivecs if phivec is not None]
             if np.any([phivec.ndim == 2 for phivec in phis]):
                 phiinvs = [phivec.inv(logdet) for phivec in phis]
-                phiinv_full = [np.diag(phi[0]) if phi[0].ndim == 1 else phi[0] for phi in phiinvs]
+                phiinvs_only = [pi[0] for pi in phiinvs] if logdet else phiinvs
+                phiinv_full = [np.diag(phi) if phi.ndim == 1 else phi for phi in phiinvs_only]
                 phiinv = sl.block_diag(*phiinv_full)
                 if logdet:
                     ld = np.sum([pi[1] for pi in phiinvs])
@@ -470,7 +496,7 @@ class PTA(object):
             # the pulsars and share the same basis
             invert = None
 
-            for csclass, csdict in self._commonsignals.items():
+            for ics, (csclass, csdict) in enumerate(self._commonsignals.items()):
                 for i, (cs1, csc1) in enumerate(csdict.items()):
                     for j, (cs2, csc2) in enumerate(csdict.items()):
                         if j <= i:
@@ -490,6 +516,10 @@ class PTA(object):
                         invert[:, i, j] += crossdiag
                         invert[:, j, i] += crossdiag
 
+                    # phidiag includes the contributions of all common signals
+                    if ics > 0:
+                        continue
+
                     invert[:, i, i] += phidiag[slices[csc1]][csc1._idx[cs1]]
 
                     if logdet:
-- 
2.43.0


From 17341c0e8066a8dcb6e2ffda57ffb196193a62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 13/47] fix: compute likelihoods of correlated models with a
 basis-free pulsar

If a model with common signals includes a pulsar that has only white noise
or deterministic signals, the likelihood raised an exception.
---
 enterprise/signals/signal_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 3ce1f67..5fab23a 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -189,6 +189,9 @@ class LogLikelihood(object):
 
     @simplememobyid
     def _block_TNT(self, TNTs):
+        # pulsars without a basis do not take part
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if self.cholesky_sparse:
             return sps.block_diag(TNTs, "csc")
         else:
@@ -196,7 +199,7 @@ class LogLikelihood(object):
 
     @simplememobyid
     def _block_TNr(self, TNrs):
-        return np.concatenate(TNrs)
+        return np.concatenate([TNr for TNr in TNrs if TNr is not None])
 
     def __call__(self, xs, phiinv_method="cliques"):
         # map parameter vector if needed
-- 
2.43.0


From 56685b4731189d7282231a3e8bad9d62fc023b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 14/47] fix: leave models usable after an exception in a user
 function

If a basis function raised an exception for some parameters, the GP kept
the incomplete labels while its cache still claimed that they belong to
the previous parameters, and later evaluations failed or were wrong.
---
 enterprise/signals/gp_signals.py  | 7 +++++--
 enterprise/signals/signal_base.py | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 7599c04..4ef7b07 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -95,9 +95,12 @@ def BasisGP(
         # than the last time
         @signal_base.cache_call("basis_params", limit=1)
         def _construct_basis(self, params={}):
-            basis, self._labels = {}, {}
+            basis, labels = {}, {}
             for key, mask in zip(self._keys, self._masks):
-                basis[key], self._labels[key] = self._bases[key](params=params, mask=mask)
+                basis[key], labels[key] = self._bases[key](params=params, mask=mask)
+
+            # if a basis function fails, we must still be consistent with the cache
+            self._labels = labels
 
             nc = sum(F.shape[1] for F in basis.values())
             self._basis = np.zeros((len(self._masks[0]), nc))
diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 5fab23a..60cd77f 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1107,8 +1107,9 @@ def cache_call(attrs, limit=2):
                 msg = "Setting cache for {} in {}: {}".format(attrs, self.__class__, key)
                 logger.debug(msg)
 
-                cache_list.append(key)
+                # make a note of the key only once func has succeeded
                 cache[key] = func(self, params)
+                cache_list.append(key)
 
                 if len(cache_list) > limit:
                     _ = cache.pop(cache_list.pop(0), None)  # noqa: F841
-- 
2.43.0


From 24c2c36bd80f9166db907740bb0a5ad63b00cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 15/47] fix: undo the CHOLMOD permutation in get_coefficients

With common_sparse=True the random part of the coefficients was drawn from
the covariance of the permuted coefficients.
---
 enterprise/signals/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index e4fbabd..159f7ad 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -153,7 +153,8 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
             ch = cholesky(Sigma)
             mn = ch(TNr)
-            Li = sps.linalg.inv(ch.L()).toarray().T
+            # Sigma = P^T L L^T P, so P^T L^-T x has variance Sigma^-1 for normal x
+            Li = ch.apply_Pt(sps.linalg.inv(ch.L()).toarray().T)
         else:
             Sigma = sl.block_diag(*TNTs) + phiinvs
             TNr = np.concatenate(TNrs)
-- 
2.43.0


From 40bb7fb82c13c7a635bd210012bcf08751f2b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 16/47] fix: return coefficients of common GPs without
 cross-correlations

get_coefficients skipped common GPs for models with a single pulsar, which
also shifted the coefficients of the signals that follow.
---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 159f7ad..33597c0 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -208,7 +208,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
                 pardict, ntot = {}, 0
                 for sig in model._signals:
-                    if sig.signal_type == "basis":
+                    if sig.signal_type in ["basis", "common basis"]:
                         nb = sig.get_basis(params=params).shape[1]
 
                         if nb + ntot > len(b):
-- 
2.43.0


From 5c747c485aadc6737ecbef5baa161faa47a7cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 17/47] fix: draw conditional coefficients next to GPs with
 explicit coefficients

get_coefficients and ConditionalGP raised an exception if the model had a
GP with coefficients=True, which has no marginalized basis.
---
 enterprise/signals/utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 33597c0..94fb83f 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -97,7 +97,11 @@ class ConditionalGP:
                     if sig.signal_type not in ["basis", "common basis"]:
                         continue
 
+                    # skip GPs with coefficients=True: they are not marginalized
                     sb = sig.get_basis(params=params)
+                    if sb is None:
+                        continue
+
                     nb = sb.shape[1]
 
                     if nb + ntot > len(b):
@@ -170,7 +174,12 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
             for i, model in enumerate(pta.pulsarmodels):
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        # skip GPs with coefficients=True: they are not marginalized
+                        sb = sig.get_basis(params=params)
+                        if sb is None:
+                            continue
+
+                        nb = sb.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
@@ -209,7 +218,12 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 pardict, ntot = {}, 0
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        # skip GPs with coefficients=True: they are not marginalized
+                        sb = sig.get_basis(params=params)
+                        if sb is None:
+                            continue
+
+                        nb = sb.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
-- 
2.43.0


From 91e55fa2ea3903cb331b6bd78f0116bbf81aa51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 18/47] fix: draw conditional coefficients for models with a
 basis-free pulsar

get_coefficients and ConditionalGP raised an exception if one of the
pulsars had only white noise or deterministic signals.
---
 enterprise/signals/utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 94fb83f..e1944b0 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -52,6 +52,10 @@ class ConditionalGP:
         TNTs = self.pta.get_TNT(params)
         phiinvs = self.pta.get_phiinv(params, logdet=False, method=self.phiinv_method)
 
+        # pulsars without a basis do not take part
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         # TO DO: all this could be more efficient
         #        also it's unclear if it works with MarginalizingTimingModel
         if self.pta._commonsignals:
@@ -64,7 +68,7 @@ class ConditionalGP:
             return ch, mn
         else:
             mns, chs = [], []
-            for TNr, TNT, phiinv in zip(TNrs, TNTs, phiinvs):
+            for TNr, TNT, phiinv in zip(TNrs, TNTs, [phiinv for phiinv in phiinvs if phiinv is not None]):
                 Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
                 ch = sl.cho_factor(Sigma, lower=True)
@@ -151,6 +155,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
     # ...repeated code in the two if branches... refactor at will!
     if pta._commonsignals:
+        # pulsars without a basis do not take part
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if common_sparse:
             Sigma = sps.block_diag(TNTs, "csc") + sps.csc_matrix(phiinvs)
             TNr = np.concatenate(TNrs)
@@ -199,6 +207,9 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
         for i, model in enumerate(pta.pulsarmodels):
             phiinv, d, TNT = phiinvs[i], TNrs[i], TNTs[i]
 
+            if TNT is None:
+                continue
+
             Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
             try:
-- 
2.43.0


From 8f7b868c649aba6dde038f63db97f07b52cdfa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 19/47] fix: keep the shape of block-ECORR solutions with a
 single column

BlockMatrix.solve dropped axes of length one, so that likelihoods failed
if the combined basis of a pulsar had one column only.
---
 enterprise/signals/signal_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 60cd77f..cd353cb 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1214,6 +1214,8 @@ class BlockMatrix(object):
         """Solves :math:`Z^T N^{-1}X`, where :math:`X`
         and :math:`Z` are 1-d or 2-d arrays.
         """
+        shape = Z.shape[1:] + X.shape[1:]
+
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
         if Z.ndim == 1:
@@ -1236,12 +1238,14 @@ class BlockMatrix(object):
                 bx = Xblock / self._nvec[idx][:, None]
             ZNX += np.dot(Zblock.T, bx)
         ZNX += ZNXr
-        return ZNX.squeeze() if len(ZNX) > 1 else float(ZNX)
+        return ZNX.reshape(shape) if shape else float(ZNX[0, 0])
 
     def _solve_NX(self, X):
         """Solves :math:`N^{-1}X`, where :math:`X`
         is a 1-d or 2-d array.
         """
+        shape = X.shape
+
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
 
@@ -1251,7 +1255,7 @@ class BlockMatrix(object):
             if len(idx) > 1:
                 cf = sl.cho_factor(block + np.diag(self._nvec[idx]))
                 NX[idx] = sl.cho_solve(cf, Xblock)
-        return NX.squeeze()
+        return NX.reshape(shape)
 
     def _get_logdet(self):
         """Returns log determinant of :math:`N+UJU^{T}` where :math:`U`
-- 
2.43.0


From acf55b58053f52a2c95f51103660562be93fd65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 20/47] fix: notice TOAs missing from DMX intervals next to
 overlapping ones

WidebandTimingModel compared the total number of assignments of TOAs to
DMX intervals with the number of TOAs, so that a TOA in two intervals made
up for one in none.
---
 enterprise/signals/gp_signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 4ef7b07..fc80882 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -634,7 +634,8 @@ def WidebandTimingModel(
 
                 check += self._dmwhich[-1]
 
-            if np.sum(check) != self._ntoas:
+            # each TOA must be in exactly one interval
+            if np.any(check != 1):
                 raise ValueError("WidebandTimingModel: cannot account for all TOAs in DMX intervals.")
 
             if "DM" in psr.fitpars:
-- 
2.43.0


From 5938b17978c92a19fa955ef786e8f54146f79c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 21/47] fix: avoid NaN Hellings-Downs correlations for almost
 equal positions

---
 enterprise/signals/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index e1944b0..983aa3d 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -874,8 +874,9 @@ def hd_orf(pos1, pos2):
     if np.all(pos1 == pos2):
         return 1
     else:
-        omc2 = (1 - np.dot(pos1, pos2)) / 2
-        return 1.5 * omc2 * np.log(omc2) - 0.25 * omc2 + 0.5
+        # positions may agree to within roundoff
+        omc2 = np.maximum((1 - np.dot(pos1, pos2)) / 2, 0.0)
+        return 1.5 * ss.xlogy(omc2, omc2) - 0.25 * omc2 + 0.5
 
 
 @function
-- 
2.43.0


From a35676f5ed3820e0c485eda330415c31e18eaecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 22/47] fix: filter all per-TOA data in filter_data

filter_data left the observatory TOAs, telescopes, pulsar and Sun positions
at full length, took planet positions from the sorted data with a mask for
unsorted data, and failed if only one of the two times was given.
---
 enterprise/pulsar.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ffac41a..9ec051b 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -137,12 +137,16 @@ class BasePulsar(object):
 
     def filter_data(self, start_time=None, end_time=None):
         """Filter data to create a time-slice of overall dataset."""
-        if start_time is None and end_time is None:
-            mask = np.ones(self._toas.shape, dtype=bool)
-        else:
-            mask = np.logical_and(self._toas >= start_time * 86400, self._toas <= end_time * 86400)
+        mask = np.ones(self._toas.shape, dtype=bool)
+        if start_time is not None:
+            mask = np.logical_and(mask, self._toas >= start_time * 86400)
+        if end_time is not None:
+            mask = np.logical_and(mask, self._toas <= end_time * 86400)
 
         self._toas = self._toas[mask]
+        self._stoas = self._stoas[mask]
+        self._telescope = self._telescope[mask]
+        self._pos_t = self._pos_t[mask]
         self._toaerrs = self._toaerrs[mask]
         self._residuals = self._residuals[mask]
         self._ssbfreqs = self._ssbfreqs[mask]
@@ -158,7 +162,10 @@ class BasePulsar(object):
                 self._flags[key] = self._flags[key][mask]
 
         if self._planetssb is not None:
-            self._planetssb = self.planetssb[mask, :, :]
+            self._planetssb = self._planetssb[mask, :, :]
+
+        if self._sunssb is not None:
+            self._sunssb = self._sunssb[mask, :]
 
         self.sort_data()
 
-- 
2.43.0


From a928376407fc3bc2b23a00be7b1d2c9e05583228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 23/47] fix: keep parameter names in step with the filtered
 design matrix

filter_data dropped design-matrix columns that sum to zero, even if they
have nonzero entries, and left the names of the fitted parameters and the
DMX intervals as they were.
---
 enterprise/pulsar.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 9ec051b..bcda280 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -152,9 +152,17 @@ class BasePulsar(object):
         self._ssbfreqs = self._ssbfreqs[mask]
 
         self._designmatrix = self._designmatrix[mask, :]
-        dmx_mask = np.sum(self._designmatrix, axis=0) != 0.0
+        # drop parameters without any effect on the remaining data (e.g., DMX)
+        dmx_mask = np.any(self._designmatrix != 0.0, axis=0)
         self._designmatrix = self._designmatrix[:, dmx_mask]
 
+        dropped = [par for par, keep in zip(self.fitpars, dmx_mask) if not keep]
+        self.fitpars = [par for par, keep in zip(self.fitpars, dmx_mask) if keep]
+        if getattr(self, "_dmx", None):
+            self._dmx = {par: dmx for par, dmx in self._dmx.items() if par not in dropped}
+        if hasattr(self, "designmatrix_units"):
+            self.designmatrix_units = [unit for unit, keep in zip(self.designmatrix_units, dmx_mask) if keep]
+
         if isinstance(self._flags, np.ndarray):
             self._flags = self._flags[mask]
         else:
-- 
2.43.0


From 9c58b524faaaefcfd723ea915c840cd7c571c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 24/47] fix: do not truncate frontend_backend flags

backend_flags had the width of the widest flag, which may be less than
that of the combined frontend and backend names, so that different
systems could end up with the same label.
---
 enterprise/pulsar.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index bcda280..0f36acd 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -287,14 +287,20 @@ class BasePulsar(object):
         # collect flag names
         flagnames = self._flags.dtype.names if isinstance(self._flags, np.ndarray) else list(self._flags.keys())
 
+        dtypes = [self._flags[name].dtype for name in flagnames]
+
+        if "fe" in flagnames and "be" in flagnames:
+            febe = np.array([(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])])
+            dtypes.append(febe.dtype)
+
         # allocate array with widest dtype
-        ret = np.zeros(len(self._toas), dtype=max([self._flags[name].dtype for name in flagnames]))
+        ret = np.zeros(len(self._toas), dtype=max(dtypes))
 
         # go through the flags in reverse order of preference
         # setting or replacing values for each TOA
 
         if "fe" in flagnames and "be" in flagnames:
-            ret[:] = [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])]
+            ret[:] = febe
 
         for flag in ["f", "i", "sys", "g", "group"]:
             if flag in flagnames:
-- 
2.43.0


From ddfa73022877eee7dafbff924f147f4a33b5093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 25/47] fix: let pulsars drop the timing-package objects more
 than once

Deleting a missing attribute raises AttributeError, not NameError, so that
drop_tempopsr and drop_pintpsr failed if there was nothing (or nothing
left) to drop.
---
 enterprise/pulsar.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 0f36acd..0aff402 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -412,11 +412,9 @@ class PintPulsar(BasePulsar):
         self.sort_data()
 
     def drop_pintpsr(self):
-        with contextlib.suppress(NameError):
-            del self.model
-            del self.parfile
-            del self.pint_toas
-            del self.timfile
+        for attr in ["model", "parfile", "pint_toas", "timfile"]:
+            with contextlib.suppress(AttributeError):
+                delattr(self, attr)
 
     def drop_not_picklable(self):
         with contextlib.suppress(AttributeError):
@@ -568,7 +566,7 @@ class Tempo2Pulsar(BasePulsar):
                 self.timfile = open(tim_name).read()
 
     def drop_tempopsr(self):
-        with contextlib.suppress(NameError):
+        with contextlib.suppress(AttributeError):
             del self.t2pulsar
 
     # gather DM/DMX information if available
-- 
2.43.0


From 8a037b654db9e093ad8b52313d8ca5f8b7b65298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 26/47] fix: save pulsars to feather files

to_feather looked up class attributes of FeatherPulsar on the function
Pulsar and always failed; pulsars read from a feather file could not be
saved again either.
---
 enterprise/pulsar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 0aff402..dc62b50 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -750,7 +750,8 @@ class FeatherPulsar:
         return a.tolist() if isinstance(a, np.ndarray) else a
 
     def save_feather(self, filename, noisedict=None):
-        self._toas = self._toas.astype(float)
+        if hasattr(self, "_toas"):
+            self._toas = self._toas.astype(float)
         pydict = {array: getattr(self, array) for array in FeatherPulsar.columns}
 
         pydict.update(
@@ -773,9 +774,9 @@ class FeatherPulsar:
         pydict.update({f"flags_{flag}": self.flags[flag] for flag in self.flags})
 
         meta = {}
-        for attr in Pulsar.metadata:
+        for attr in FeatherPulsar.metadata:
             if hasattr(self, attr):
-                meta[attr] = Pulsar.to_list(getattr(self, attr))
+                meta[attr] = FeatherPulsar.to_list(getattr(self, attr))
             else:
                 print(f"Pulsar.save_feather: cannot find {attr} in Pulsar {self.name}.")
 
-- 
2.43.0


From 7db555fd33ef5e27e372fe69f52b0b7c4fe46db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 27/47] fix: keep shared pulsar arrays when one of their users
 ends

Python registers shared memory for cleanup also when it is attached, so
that the first user process to end removed the arrays for later users and
for destroy.
---
 enterprise/pulsar_inflate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index fda5fc6..55539d4 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -50,6 +50,10 @@ class PulsarInflater:
     def inflate(self):
         shm = shared_memory.SharedMemory(self.shmname)
 
+        # attaching also registers the memory with the resource tracker, which
+        # would then remove it for everybody when this process ends
+        resource_tracker.unregister(shm._name, "shared_memory")
+
         c = np.ndarray(self.shape, dtype=self.dtype, buffer=shm.buf).view(memmap)
         c.shm = shm
 
-- 
2.43.0


From 355842d333df7bec051f74d5b1a00bf95dc63cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 28/47] fix: deflate pulsars with empty arrays

---
 enterprise/pulsar_inflate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index 55539d4..0491ffc 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -37,7 +37,8 @@ class PulsarInflater:
     def __init__(self, array):
         self.dtype, self.shape, self.nbytes = array.dtype, array.shape, array.nbytes
 
-        shm = shared_memory.SharedMemory(create=True, size=array.nbytes)
+        # shared memory cannot be empty, but arrays can
+        shm = shared_memory.SharedMemory(create=True, size=max(array.nbytes, 1))
         self.shmname = shm.name
 
         # shm.buf[:array.nbytes] = array.view(dtype='uint8').flatten()
-- 
2.43.0


From d10e1ecb9142c123632fe09c7d9172fa774612b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 29/47] fix: count TOAs next to INCLUDE lines in get_maxobs

If a tim file had any INCLUDE, its own TOAs were not counted, so that
tempo2 could be given too small a limit.
---
 enterprise/pulsar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index dc62b50..261e9cd 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -60,11 +60,11 @@ def get_maxobs(timfile):
     with open(timfile) as tfile:
         flines = tfile.readlines()
         lines = [ln for ln in flines if not ln.startswith("C")]
-        if any(["INCLUDE" in ln for ln in lines]):
-            for line in [ln for ln in lines if "INCLUDE" in ln]:
+        for line in lines:
+            if "INCLUDE" in line:
                 maxobs += get_maxobs(line.split()[-1])
-        else:
-            maxobs = sum(1 for line in lines if line.rstrip("\n"))
+            elif line.rstrip("\n"):
+                maxobs += 1
     return maxobs
 
 
-- 
2.43.0


From b70be38ffcf1378acd40544efab1fe210e68c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 30/47] fix: never share basis columns that depend on constants

Constants may be reset with set_default_params after the columns were merged.
---
 enterprise/signals/gp_signals.py  | 13 +++++++++++++
 enterprise/signals/signal_base.py |  7 ++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index fc80882..2c8a28a 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -90,6 +90,14 @@ def BasisGP(
                 ret.extend([pp.name for pp in basis.params])
             return ret
 
+        @property
+        def basis_constants(self):
+            """Get any constant basis parameters (their values may be reset)."""
+            ret = []
+            for basis in self._bases.values():
+                ret.extend([pp.name for pp in basis._params.values() if isinstance(pp, parameter.ConstantParameter)])
+            return ret
+
         # since this function has side-effects, it can only be cached
         # with limit=1, so it will run again if called with params different
         # than the last time
@@ -344,6 +352,11 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
             """Get any varying basis parameters."""
             return [pp.name for pp in self._bases.params]
 
+        @property
+        def basis_constants(self):
+            """Get any constant basis parameters (their values may be reset)."""
+            return [pp.name for pp in self._bases._params.values() if isinstance(pp, parameter.ConstantParameter)]
+
         # since this function has side-effects, it can only be cached
         # with limit=1, so it will run again if called with params different
         # than the last time
diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index cd353cb..0a4962a 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -929,7 +929,7 @@ def SignalCollection(metasignals):  # noqa: C901
                 if Fmat is not None:
                     nrow = Fmat.shape[0]
 
-                    if not signal.basis_params:
+                    if not signal.basis_params and not getattr(signal, "basis_constants", []):
                         idx[signal] = []
 
                         for i, column in enumerate(Fmat.T):
@@ -950,9 +950,10 @@ def SignalCollection(metasignals):  # noqa: C901
                                 hashlist.append(colhash)
                                 idx[signal].append(cc)
                                 cc += 1
-                    elif signal.basis_params:
+                    else:
                         nf = Fmat.shape[1]
-                        # these columns change with the basis parameters, so they
+                        # these columns change with the basis parameters (which
+                        # may be constants set by the user later), so they
                         # can never be shared, but they do take up space
                         hashlist.extend([None] * nf)
                         idx[signal] = list(range(cc, cc + nf))
-- 
2.43.0


From 592c9492d4ff70433cfd773cd8956581555652c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 31/47] fix: basis ECORR for pulsars without multi-TOA epochs

---
 enterprise/signals/signal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 0a4962a..2694cbb 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -963,7 +963,7 @@ def SignalCollection(metasignals):  # noqa: C901
                 return {}, None
             else:
                 ncol = len(np.unique(sum(idx.values(), [])))
-                return ({key: np.array(idx[key]) for key in idx.keys()}, np.zeros((nrow, ncol)))
+                return ({key: np.array(idx[key], dtype=int) for key in idx.keys()}, np.zeros((nrow, ncol)))
 
         # goofy way to cache _idx
         def __getattr__(self, par):
-- 
2.43.0


From 077a9458fb67312d54b1ce0424fc125259786103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 32/47] fix: add deterministic waveforms of overlapping
 selections

---
 enterprise/signals/deterministic_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index 7e4fb63..d743223 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -47,7 +47,7 @@ def Deterministic(waveform, selection=Selection(selections.no_selection), name="
             """Return signal delay."""
             delay = np.zeros(self._ntoas)
             for key, mask in zip(self._keys, self._masks):
-                delay[mask] = self._wf[key](params=params, mask=mask)
+                delay[mask] += self._wf[key](params=params, mask=mask)
             return delay
 
     return Deterministic
-- 
2.43.0


From a34627a928f64e05a30dffeebce46bd9d95f9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 33/47] fix: keep the parameters of nested functions with equal
 keywords

---
 enterprise/signals/parameter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 9592baa..66766f5 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -486,6 +486,11 @@ def Function(func, name="", **func_kwargs):
             # - if they are something else, we will assume they are values,
             #   which we will save in self._defaults
 
+            # the parameters of nested functions get keys that cannot clash with
+            # our own keywords, or with those of other nested functions
+            def nested_params(kw, parfunc):
+                return {"{}.{}".format(kw, nested): par for nested, par in parfunc._params.items()}
+
             for kw, arg in self.func_kwargs.items():
                 if isinstance(arg, type) and issubclass(arg, (Parameter, ConstantParameter)):
                     # parameter name template:
@@ -502,10 +507,10 @@ def Function(func, name="", **func_kwargs):
                     parfunc = arg("_".join([n for n in pnames if n]), psr)
 
                     self._funcs[kw] = parfunc
-                    self._params.update(parfunc._params)
+                    self._params.update(nested_params(kw, parfunc))
                 elif isinstance(arg, FunctionBase):
                     self._funcs[kw] = arg
-                    self._params.update(arg._params)
+                    self._params.update(nested_params(kw, arg))
                 else:
                     self._defaults[kw] = arg
 
-- 
2.43.0


From 83ae4d33935c1544046faddf173e0b52212d5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 34/47] fix: pass pulsar attributes to functions by name

---
 enterprise/signals/selections.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/enterprise/signals/selections.py b/enterprise/signals/selections.py
index 0b4f1e7..0c8ce18 100644
--- a/enterprise/signals/selections.py
+++ b/enterprise/signals/selections.py
@@ -25,28 +25,26 @@ def selection_func(func):
 
     @functools.wraps(func)
     def wrapper(*args, **kwargs):
-        targs = list(args)
-
         # check for mask
         mask = kwargs.get("mask", Ellipsis)
         if "mask" in kwargs:
             del kwargs["mask"]
 
-        if len(targs) < len(funcargs) and "psr" in kwargs:
+        if len(args) < len(funcargs) and "psr" in kwargs:
             psr = kwargs["psr"]
 
             for funcarg in funcargs[len(args) :]:
                 if funcarg not in kwargs and hasattr(psr, funcarg):
                     attr = call_me_maybe(getattr(psr, funcarg))
                     if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
-                        targs.append(attr[mask])
+                        kwargs[funcarg] = attr[mask]
                     else:
-                        targs.append(attr)
+                        kwargs[funcarg] = attr
 
         if "psr" in kwargs and "psr" not in funcargs:
             del kwargs["psr"]
 
-        return func(*targs, **kwargs)
+        return func(*args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From cfba8ce447b7ebbb3fdb8bd33e3bbdd6813e5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 35/47] fix: accept DMX intervals without TOAs in the wideband
 timing model

---
 enterprise/signals/gp_signals.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 2c8a28a..ccb3bc6 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -641,11 +641,17 @@ def WidebandTimingModel(
                 if not dmx["fit"]:
                     raise ValueError("WidebandTimingModel: all DMX parameters must be estimated.")
 
+                which = (dmx["DMXR1"] <= psr.stoas / 86400) & (psr.stoas / 86400 < dmx["DMXR2"])
+
+                # without TOAs there are no DM measurements to set the prior
+                if not np.any(which):
+                    continue
+
                 self._dmx.append(dmx["DMX"])
                 self._dmindex.append(psr.fitpars.index(key))
-                self._dmwhich.append((dmx["DMXR1"] <= psr.stoas / 86400) & (psr.stoas / 86400 < dmx["DMXR2"]))
+                self._dmwhich.append(which)
 
-                check += self._dmwhich[-1]
+                check += which
 
             # each TOA must be in exactly one interval
             if np.any(check != 1):
-- 
2.43.0


From c4081da8fcbc8abadb6b144c8fa94c7ea92f0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 36/47] fix: compute the orbital columns of the ephemeris basis
 without roundoff

---
 enterprise/signals/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 983aa3d..2dc1a68 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -1111,15 +1111,17 @@ def createfourierdesignmatrix_physicalephem(
                 Fl.append(physical_ephem_delay(toas, planetssb, pos_t, **{parname: dpar}) / dpar)
                 Phil.append(ppar)
             else:
+                # the delay is linear in the orbital elements, so use a perturbation
+                # that does not drown in the roundoff of the Earth position
                 for i in range(6):
                     c = np.zeros(6)
-                    c[i] = dpar
+                    c[i] = ppar
 
                     # Fl.append(physical_ephem_delay(toas, planetssb, pos_t,
-                    #                               **{parname: c}, **oa)/dpar)
+                    #                               **{parname: c}, **oa)/ppar)
                     kwarg_dict = {parname: c}
                     kwarg_dict.update(oa)
-                    Fl.append(physical_ephem_delay(toas, planetssb, pos_t, **kwarg_dict) / dpar)
+                    Fl.append(physical_ephem_delay(toas, planetssb, pos_t, **kwarg_dict) / ppar)
 
                     Phil.append(ppar)
 
-- 
2.43.0


From 587a46164cc5cb002424ccda63f1faf160f811be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 37/47] fix: epoch-averaged ephemeris delays for unsorted TOAs

---
 enterprise/signals/deterministic_signals.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index d743223..c962a98 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -178,16 +178,20 @@ def PhysicalEphemerisSignal(
                 avetoas = np.array([psr.toas[sc].mean() for sc in self._uinds])
                 self._avetoas = avetoas
 
+                # interpolation needs increasing times
+                isort = np.argsort(psr.toas)
+                toas = psr.toas[isort]
+
                 # interpolate ssb planet position vectors to avetoas
                 planetssb = np.zeros((len(avetoas), 9, 3))
                 for jj in range(9):
                     planetssb[:, jj, :] = np.array(
-                        [np.interp(avetoas, psr.toas, psr.planetssb[:, jj, aa]) for aa in range(3)]
+                        [np.interp(avetoas, toas, psr.planetssb[isort, jj, aa]) for aa in range(3)]
                     ).T
                 self._planetssb = planetssb
 
                 # Interpolating the pulsar position vectors onto epoch TOAs
-                pos_t = np.array([np.interp(avetoas, psr.toas, psr.pos_t[:, aa]) for aa in range(3)]).T
+                pos_t = np.array([np.interp(avetoas, toas, psr.pos_t[isort, aa]) for aa in range(3)]).T
                 self._pos_t = pos_t
 
             # initialize delay
-- 
2.43.0


From 08a7d24d0387b6fe9d90e456cf23a48661ee864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 38/47] fix: no NaN in anisotropic responses for a pulsar along
 the propagation direction of a pixel

---
 enterprise/signals/anis_coefficients.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/anis_coefficients.py b/enterprise/signals/anis_coefficients.py
index 45314bb..cff7a41 100644
--- a/enterprise/signals/anis_coefficients.py
+++ b/enterprise/signals/anis_coefficients.py
@@ -99,16 +99,23 @@ def createSignalResponse_pol(pphi, ptheta, gwphi, gwtheta, plus=True, norm=True)
     else:
         c = 1.0 / np.sqrt(npixels)
 
+    # 1 - Omega.p (the sum over axis=0 represents an inner-product). It vanishes
+    # for a wave that travels along the line of sight to the pulsar, where the
+    # polarization angle is undefined: such a wave induces no response
+    denom = 1 - np.sum(Omega * p, axis=0)
+    inline = denom <= 0
+    denom = np.where(inline, 1.0, denom)
+
     # Calculate the Fplus or Fcross antenna pattern. Definitions as in Gair et
     # al. (2014), with right-handed coordinate system
     if plus:
         # The sum over axis=0 represents an inner-product
-        Fsig = (
-            0.5 * c * (np.sum(nhat * p, axis=0) ** 2 - np.sum(mhat * p, axis=0) ** 2) / (1 - np.sum(Omega * p, axis=0))
-        )
+        Fsig = 0.5 * c * (np.sum(nhat * p, axis=0) ** 2 - np.sum(mhat * p, axis=0) ** 2) / denom
     else:
         # The sum over axis=0 represents an inner-product
-        Fsig = c * np.sum(mhat * p, axis=0) * np.sum(nhat * p, axis=0) / (1 - np.sum(Omega * p, axis=0))
+        Fsig = c * np.sum(mhat * p, axis=0) * np.sum(nhat * p, axis=0) / denom
+
+    Fsig[inline] = 0.0
 
     return Fsig
 
-- 
2.43.0


From 8a20500344d15e7971ca49a6de5bbbe951f1cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 39/47] fix: keep a basis GP consistent when a basis function
 returns a matrix that does not fit

---
 enterprise/signals/gp_signals.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index ccb3bc6..d6bfccc 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -107,24 +107,25 @@ def BasisGP(
             for key, mask in zip(self._keys, self._masks):
                 basis[key], labels[key] = self._bases[key](params=params, mask=mask)
 
-            # if a basis function fails, we must still be consistent with the cache
-            self._labels = labels
-
             nc = sum(F.shape[1] for F in basis.values())
-            self._basis = np.zeros((len(self._masks[0]), nc))
-
-            # TODO: should this be defined here? it will cache phi
-            self._phi = KernelMatrix(nc)
+            Fmats = np.zeros((len(self._masks[0]), nc))
 
-            self._slices = {}
+            slices = {}
             nctot = 0
             for key, mask in zip(self._keys, self._masks):
                 Fmat = basis[key]
                 nn = Fmat.shape[1]
-                self._basis[mask, nctot : nn + nctot] = Fmat
-                self._slices.update({key: slice(nctot, nn + nctot)})
+                Fmats[mask, nctot : nn + nctot] = Fmat
+                slices.update({key: slice(nctot, nn + nctot)})
                 nctot += nn
 
+            # if a basis function fails (or returns a basis that does not fit),
+            # we must still be consistent with the cache
+            self._basis, self._labels, self._slices = Fmats, labels, slices
+
+            # TODO: should this be defined here? it will cache phi
+            self._phi = KernelMatrix(nc)
+
         # this class does different things (and gets different method
         # definitions) if the user wants it to model GP coefficients
         # (e.g., for a hierarchical likelihood) or if they do not
-- 
2.43.0


From 4c99ab7654f6e6dd737950535bfbd026a4616dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 40/47] fix: do not modify array arguments of the
 gravitational-wave functions in place

---
 enterprise/signals/utils.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 2dc1a68..dfbe9ad 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -393,7 +393,7 @@ def get_edot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dedt = -304 / (15 * mc) * (2 * np.pi * mc * F) ** (8 / 3) * e * (1 + 121 / 304 * e**2) / ((1 - e**2) ** (5 / 2))
 
@@ -412,7 +412,7 @@ def get_Fdot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dFdt = (
         48
@@ -438,7 +438,7 @@ def get_gammadot(F, mc, q, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     # total mass
     m = (((1 + q) ** 2) / q) ** (3 / 5) * mc
@@ -576,8 +576,8 @@ def get_an(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -611,8 +611,8 @@ def get_bn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -640,8 +640,8 @@ def get_cn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -764,7 +764,7 @@ def bwm_delay(toas, pos, log10_h=-14.0, cos_gwtheta=0.0, gwphi=0.0, gwpol=0.0, t
     # convert
     h = 10**log10_h
     gwtheta = np.arccos(cos_gwtheta)
-    t0 *= const.day
+    t0 = t0 * const.day
 
     # antenna patterns
     if antenna_pattern_fn is None:
-- 
2.43.0


From f7aae6eb235dbce3034ddca256f4fba7f5e7e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 41/47] fix: no NaN in the antenna pattern for a source behind
 the pulsar

---
 enterprise/signals/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index dfbe9ad..a4da295 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -731,8 +731,13 @@ def create_gw_antenna_pattern(pos, gwtheta, gwphi):
     n = np.array([-np.cos(gwtheta) * np.cos(gwphi), -np.cos(gwtheta) * np.sin(gwphi), np.sin(gwtheta)])
     omhat = np.array([-np.sin(gwtheta) * np.cos(gwphi), -np.sin(gwtheta) * np.sin(gwphi), -np.cos(gwtheta)])
 
-    fplus = 0.5 * (np.dot(m, pos) ** 2 - np.dot(n, pos) ** 2) / (1 + np.dot(omhat, pos))
-    fcross = (np.dot(m, pos) * np.dot(n, pos)) / (1 + np.dot(omhat, pos))
+    # the polarization angle is undefined for a wave that comes along the line of
+    # sight from the pulsar: such a wave induces no response
+    denom = 1 + np.dot(omhat, pos)
+    denom = np.where(denom > 0, denom, np.inf)
+
+    fplus = 0.5 * (np.dot(m, pos) ** 2 - np.dot(n, pos) ** 2) / denom
+    fcross = (np.dot(m, pos) * np.dot(n, pos)) / denom
     cosMu = -np.dot(omhat, pos)
 
     return fplus, fcross, cosMu
-- 
2.43.0


From 5ecb4a01d03d34d497f6e005d268c32e5b4b36c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 42/47] fix: find the par file when the tim file is in a
 symbolically linked directory

---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 261e9cd..4864e90 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -832,7 +832,7 @@ def Pulsar(*args, **kwargs):
         timfiletup = os.path.split(timfile[0])
         dirname = timfiletup[0] or "./"
         reltimfile = timfiletup[-1]
-        relparfile = os.path.relpath(parfile[0], dirname)
+        relparfile = os.path.relpath(os.path.realpath(parfile[0]), os.path.realpath(dirname))
 
         if timing_package is None:
             if t2 is not None:
-- 
2.43.0


From 3896b854d37c6efce3a95718c1a35f40e8331c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 43/47] fix: count TOAs named C... and ignore commented
 includes in get_maxobs

---
 enterprise/pulsar.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 4864e90..3028792 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -59,11 +59,13 @@ def get_maxobs(timfile):
     maxobs = 0
     with open(timfile) as tfile:
         flines = tfile.readlines()
-        lines = [ln for ln in flines if not ln.startswith("C")]
-        for line in lines:
-            if "INCLUDE" in line:
-                maxobs += get_maxobs(line.split()[-1])
-            elif line.rstrip("\n"):
+        for line in flines:
+            words = line.split()
+            if not words or words[0] == "C" or words[0].startswith("#"):
+                continue
+            if words[0] == "INCLUDE":
+                maxobs += get_maxobs(words[1])
+            else:
                 maxobs += 1
     return maxobs
 
-- 
2.43.0


From c4a220c0ca0dcc25b44b2fdad5e1e66f4734cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 44/47] fix: report whether tempo2 DMX parameters are fitted

---
 enterprise/pulsar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 3028792..f93de9d 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -574,6 +574,7 @@ class Tempo2Pulsar(BasePulsar):
     # gather DM/DMX information if available
     def _set_dm(self, t2pulsar):
         pars = t2pulsar.pars(which="set")
+        fitpars = t2pulsar.pars(which="fit")
 
         if "DM" in pars:
             self._dm = float(t2pulsar["DM"].val)
@@ -584,7 +585,7 @@ class Tempo2Pulsar(BasePulsar):
                 "DMXerr": float(t2pulsar[par].err),
                 "DMXR1": float(t2pulsar[par[:3] + "R1" + par[3:]].val),
                 "DMXR2": float(t2pulsar[par[:3] + "R2" + par[3:]].val),
-                "fit": par in pars,
+                "fit": par in fitpars,
             }
             for par in pars
             if "DMX_" in par
-- 
2.43.0


From 5a68bde0956ad2b76e676ac4929d54f624093616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 45/47] fix: add and set vectors on a slice of a KernelMatrix's
 diagonal

---
 enterprise/signals/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index a4da295..2129b23 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -286,6 +286,8 @@ class KernelMatrix(np.ndarray):
             self[idx] += other
         else:
             if other.ndim == 1:
+                # a vector goes on the diagonal (indexing with two slices would select a block)
+                idx = np.arange(self.shape[0])[idx]
                 self[idx, idx] += other
             else:
                 self._setcliques(idx)
@@ -302,6 +304,8 @@ class KernelMatrix(np.ndarray):
             self[idx] = other
         else:
             if other.ndim == 1:
+                # a vector goes on the diagonal (indexing with two slices would select a block)
+                idx = np.arange(self.shape[0])[idx]
                 self[idx, idx] = other
             else:
                 self._setcliques(idx)
-- 
2.43.0


From 6dba241367797e63c9a546dbc685a52b90bac44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 46/47] fix: accept plain lists and integer arrays of
 parameters also with vector parameters

---
 enterprise/signals/signal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 2694cbb..1d7057a 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -711,7 +711,7 @@ class PTA(object):
         ct = 0
         for p in self.params:
             n = p.size if p.size else 1
-            ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])
+            ret[p.name] = np.asarray(xs[ct : ct + n], dtype=float) if n > 1 else float(xs[ct])
             ct += n
         return ret
 
-- 
2.43.0


From cb017b31c2da5307029c94457ec92136191d6fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:41 +0000
Subject: [PATCH 47/47] fix: J2000 position for J-named pulsars with a B suffix

---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index f93de9d..477cc0a 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -99,7 +99,7 @@ class BasePulsar(object):
             ec = Ecliptic(elong, elat)
 
             # check for B name
-            if "B" in self.name:
+            if self.name.startswith("B"):
                 epoch = "1950"
             else:
                 epoch = "2000"
-- 
2.43.0

